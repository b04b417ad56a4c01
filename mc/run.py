import os, sys, json, importlib
from . import common


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = os.path.abspath(args[i + 1]); i += 2
        else:
            i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    common.setup_scratch()
    try:
        os.chdir(common.SCRATCH)
        mod = importlib.import_module("mc." + prop.lower())
        if replay:
            d = json.load(open(replay))
            vs = mod.replay(d["case"])
            for v in vs:
                print("REPRODUCED key=%s\n%s" % (v.key, v.msg))
            print("%d violation(s) reproduced" % len(vs))
            return 1 if vs else 0
        ctx = common.Ctx(prop, tier, seed)
        mod.run(ctx)
        return common.finish(ctx)
    finally:
        os.chdir("/")
        common.cleanup_scratch()


if __name__ == "__main__":
    sys.exit(main())
