"""C10  torn and damaged simulation files: every truncation point of every file and
every damaged record marker; a snapshot is either shown exactly as written or not at all."""
import os, shutil, tempfile
import numpy as np
import clustertools as ct
from . import common, simfiles as sf, c09
from .c09 import K, N6, N6pp, Nemo


def parts(f):
    """files as lists of per-snapshot blobs: name -> [bytes]"""
    out = {}
    if isinstance(f, N6):
        out["OUT3"] = [sf.out3(s) for s in f.snaps]
        if f.o33: out["OUT33"] = [sf.out33(s["b"], f.al33(s)) for s in f.snaps]
        if f.se: out["fort.82"] = [sf.fort82(s).encode() for s in f.snaps]; out["fort.83"] = [sf.fort83(s).encode() for s in f.snaps]
    elif isinstance(f, N6pp):
        for k, s in enumerate(f.snaps): out["conf.3_%d" % k] = [b""] * k + [sf.conf3(s)] + [b""] * (K - 1 - k)
    else: out["run.dat"] = [sf.nemo(s, f.eps).encode() for s in f.snaps]
    return out


def cuts(blob, text):
    """every byte of a binary file; every token and line end of a text file (a number cut short is still a number)"""
    if not text: return list(range(len(blob)))
    return [0] + [i for i in range(1, len(blob)) if chr(blob[i - 1]).isspace() or chr(blob[i]).isspace()]


def places(f, name, blob):
    text = name.startswith(("fort", "run"))
    cs = [("cut", i) for i in cuts(blob, text) if i >= 4 or name != "OUT33"]      # OUT33 is optional: having (not even a first word of) a record for a snapshot is not damage
    return cs + ([] if text else [("mark", i) for i in markers(f, blob)])


def markers(f, blobs):
    """offsets of the record-length words of one snapshot of a binary file"""
    o, out = 0, []
    while o < len(blobs):
        n = int.from_bytes(blobs[o:o + 4], "little"); out += [o, o + 4 + n]; o += 8 + n
    return out


def drive(f, d, whole, part, case, must_stop):
    """load/advance to the end: `whole` snapshots are intact; the next one is damaged (must_stop: and must not be shown)"""
    k, c = 0, None
    while k <= K:
        try:
            with common.quiet(), common.limit(20):
                c = f.load(d) if k == 0 else ct.advance_cluster(c, **f.adv())
        except common.Hang as e:
            part.violation("hang", "%s: no answer" % case, case); return
        except Exception as e:
            part.transitions += 1
            if k < whole: part.violation("%s: intact snapshot not read" % type(f).__name__, "%s: snapshot %d of %d intact: %s" % (case, k, whole, common.exc_text(e)), case)
            part.outcome("raised", type(e).__name__, k - whole); return
        part.transitions += 1
        if c.ntot == 0:
            if k < whole: part.violation("%s: intact snapshot not read" % type(f).__name__, "%s: snapshot %d of %d intact but empty" % (case, k, whole), case)
            part.outcome("empty", k - whole); return
        if k >= K: part.violation("%s: stars after the end" % type(f).__name__, str(case), case); return
        for key, msg in c09.verify(f, c, k, None):
            part.violation("%s: damaged snapshot shown (%s)" % (type(f).__name__, key) if k >= whole else "%s: %s" % (type(f).__name__, key), "%s: snapshot %d: %s" % (case, k, msg), case)
        if must_stop and k >= whole: part.violation("%s: damaged snapshot shown" % type(f).__name__, "%s: snapshot %d" % (case, k), case)
        part.outcome("shown", k - whole)
        k += 1


def one(item, part):
    cls, kw, name, kdam, lo, hi = item
    f = cls(**kw); P = parts(f); text = name.startswith(("fort", "run"))
    base = tempfile.mkdtemp(dir=os.getcwd())
    try:
        for nm, bl in P.items(): sf.write(base + "/" + nm, b"".join(bl))
        pre = b"".join(P[name][:kdam]); blob = P[name][kdam]; post = b"".join(P[name][kdam + 1:])
        todo = places(f, name, blob)
        for kind, i in todo[lo:hi]:
            case = dict(fmt=cls.__name__, kw=kw, file=name, snapshot=kdam, kind=kind, offset=i)
            if kind == "cut": data = pre + blob[:i]
            else: data = pre + blob[:i] + (int.from_bytes(blob[i:i + 4], "little") + 4).to_bytes(4, "little") + blob[i + 4:] + post
            sf.write(base + "/" + name, data)
            whole = kdam
            # the closing marks of a text block carry no data: a snapshot which only lost those may still be shown
            must = not text and (name != "OUT33" or f.nb > 0)
            drive(f, base, whole, part, case, must)
            part.states += 1; part.traces += 1
            part.sample(case)
    finally: shutil.rmtree(base, ignore_errors=True)


def replay(case):
    p = common.Part(); cls = globals()[case["fmt"]]; f = cls(**case["kw"]); P = parts(f)
    blob = P[case["file"]][case["snapshot"]]
    todo = places(f, case["file"], blob)
    j = todo.index((case["kind"], case["offset"]))
    one((cls, case["kw"], case["file"], case["snapshot"], j, j + 1), p)
    return p.violations


def run(ctx):
    cfg = [(N6, dict(n=2, nb=0, out33=False)), (N6, dict(n=2, nb=2)), (N6, dict(n=3, nb=2, se=True)), (N6pp, dict(n=2)), (N6pp, dict(n=5, nb=2)),
           (Nemo, dict(n=3, units="WDunits", origin="centre")), (Nemo, dict(n=3, units="kpckms", origin="cluster", new=True)), (Nemo, dict(n=2, units="kpckms", origin="cluster", eps=True)), (Nemo, dict(n=2, units="kpckms", origin="cluster", eps=True, new=True))]
    cfg += [(N6, dict(n=n, nb=nb, se=se)) for n in (1, 4) for nb in (0, 1, 3) for se in (False, True)] + [(N6pp, dict(n=2 * nb + x, nb=nb)) for nb in (0, 1, 3) for x in (1, 4)] + [(Nemo, dict(n=n, units=u, origin=o, new=w, eps=e)) for n in (1, 5) for u, o in (("WDunits", "centre"), ("kpckms", "galaxy")) for w in (False, True) for e in (False, True)]
    items = []
    for cls, kw in cfg:
        f = cls(**kw)
        for name, bl in parts(f).items():
            for k in range(K):
                if not bl[k]: continue
                n = len(bl[k]) + 8
                items += [(cls, kw, name, k, lo, lo + 120) for lo in range(0, n, 120)]
    ctx.pmap(one, items)
    ctx.bounds = dict(files=["OUT3", "OUT33", "fort.82", "fort.83", "conf.3_k", "gyrfalcon ascii"], snapshots=K, cut_points="every byte (binary), every token boundary (text)", record_markers="each one damaged")
    ctx.assumptions = ["a text number cut in the middle of its digits cannot be told from a shorter number; text files are cut at token boundaries"]
    ctx.explanation = "every crash point of every file of a simulation; the real loaders are driven over each torn file"
