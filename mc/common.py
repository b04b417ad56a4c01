"""Shared machinery of the checks: context (counts, violations, known findings,
evidence), fork pool, scratch directories, tolerant comparisons."""
import pickle, select
import os, sys, json, time, shutil, tempfile, traceback, io, contextlib, hashlib, signal
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CT_REPO", "/repo")
SCRATCH = None


def setup_scratch():
    """Private HOME/cwd so that nothing (galpy's rc file, snapshots...) is ever
    written outside one directory which is removed at exit."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="ctmc_")
    os.environ["HOME"] = SCRATCH
    os.environ["MPLCONFIGDIR"] = SCRATCH
    os.environ["XDG_CACHE_HOME"] = SCRATCH
    os.environ["XDG_CONFIG_HOME"] = SCRATCH
    return SCRATCH


def cleanup_scratch():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


class V:
    """One violation: `key` identifies the failing case class (used to match
    known findings exactly), `msg` explains, `case` replays it."""
    def __init__(self, key, msg, case):
        self.key, self.msg, self.case = key, msg, case

    def tojson(self):
        return {"key": self.key, "message": self.msg, "case": self.case}


class Part:
    """Result of one work item, merged into the context by the parent."""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.counters = {}
        self.outcomes = set()
        self.notes = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, msg, case):
        # keep the first few per key: simplest first, the rest are repeats
        n = self.counters.get("v:" + key, 0)
        self.counters["v:" + key] = n + 1
        if n < 2:
            self.violations.append(V(key, msg, case))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def outcome(self, *vals):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.blake2b(repr(vals).encode(), digest_size=8).hexdigest())


class Ctx(Part):
    def __init__(self, prop, tier, seed):
        super().__init__()
        self.prop, self.tier, self.seed = prop, tier, seed
        self.assumptions = []
        self.explanation = ""
        self.bounds = {}
        self.exhaustive = True
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def merge(self, p):
        self.states += p.states
        self.transitions += p.transitions
        self.traces += p.traces
        for v in p.violations:
            n = self.counters.get("V:" + v.key, 0)
            self.counters["V:" + v.key] = n + 1
            if n < 3:
                self.violations.append(v)
        for s in p.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, n in p.counters.items():
            if not k.startswith("v:"):
                self.counters[k] = self.counters.get(k, 0) + n
        self.outcomes |= p.outcomes
        self.notes.extend(p.notes[:5])

    def pmap(self, func, items, procs=None, chunk=1):
        """func(item, part) for every item, over a fork pool; merges the parts."""
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1)
        if os.environ.get("MC_SERIAL") or len(items) <= 1:
            for it in items:
                p = Part()
                _guard(func, it, p)
                self.merge(p)
            return
        global _FUNC
        _FUNC = func
        c = mp.get_context("fork")
        pool = c.Pool(min(procs, len(items)), initializer=_init_worker)
        try:
            lots = [items[i:i + chunk] for i in range(0, len(items), chunk)]
            it = pool.imap(_calls, lots)
            for lot in lots:
                try:
                    ps = it.next(timeout=1500 if self.thorough else 400)
                except mp.TimeoutError:      # compiled code cannot be interrupted from within
                    self.violation("no result", "the code under test did not come back for %s" % (lot,), {"item": repr(lot)[:500]})
                    break
                for p in ps:
                    self.merge(p)
        finally:
            pool.terminate()
            pool.join()


_FUNC = None


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    d = tempfile.mkdtemp(prefix="w_", dir=SCRATCH)
    os.chdir(d)


class Hang(Exception):
    """the code under test did not come back"""


@contextlib.contextmanager
def limit(seconds):
    """interrupt the enclosed call after `seconds` (main thread of a process)"""
    def onalarm(sig, frame):
        raise Hang("no result after %d s" % seconds)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def killable(func, args, seconds):
    """func(*args) in a child that is killed when it does not come back"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                v = (True, func(*args))
            except BaseException as e:
                v = (False, "%s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(v)[:60000])
        finally:
            os._exit(0)
    os.close(w)
    try:
        if not select.select([r], [], [], seconds)[0]:
            raise Hang("no result after %d s" % seconds)
        ok, v = pickle.loads(os.read(r, 65536))
        if not ok:
            raise RuntimeError(v)
        return v
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def _guard(func, it, p):
    try:
        func(it, p)
    except Exception as e:
        # either the code under test raised where something legal was asked, or it
        # returned something the check cannot even read (None, wrong shape...)
        tb = traceback.format_exc()
        p.violation("exception:" + exc_sig(e), "unexpected exception%s\n%s" % (
            " from the code under test" if in_repo(e) else " while reading a result", tb),
            {"item": repr(it)[:500]})


def _calls(lot):
    return [_call(it) for it in lot]


def _call(it):
    p = Part()
    _guard(_FUNC, it, p)
    return p


def in_repo(e):
    """Did this exception travel through the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/clustertools/" in fn and "/verif/" not in fn:
            return True
        tb = tb.tb_next
    return False


def exc_sig(e):
    """type + the public call the harness made (stable under refactoring)."""
    return type(e).__name__


def exc_text(e):
    return "".join(traceback.format_exception_only(type(e), e)).strip()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ---------------------------------------------------------------- comparison
def close(a, b, rel=1e-6, abs_=0.0, scale=None):
    """Tolerant comparison of scalars/arrays; `scale` sets the magnitude
    relative errors are measured against (defaults to max |b|)."""
    import numpy as np
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = np.where(na, 0, a), np.where(nb, 0, b)
    ia, ib = np.isinf(a), np.isinf(b)
    if (ia != ib).any() or (a[ia] != b[ia]).any():
        return False
    a, b = np.where(ia, 0, a), np.where(ib, 0, b)
    s = np.max(np.abs(b)) if scale is None else scale
    return bool(np.all(np.abs(a - b) <= rel * s + abs_ + 1e-300))


# -------------------------------------------------------------- known findings
def load_known():
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def finish(ctx):
    known = load_known().get(ctx.prop, {})
    fresh, seen_known = [], {}
    for v in ctx.violations:
        if v.key in known:
            seen_known.setdefault(v.key, v)
        else:
            fresh.append(v)
    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[k]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    shown = set()
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for v in fresh:
        if v.key in shown:
            continue
        shown.add(v.key)
        h = hashlib.blake2b((v.key).encode(), digest_size=6).hexdigest()
        path = os.path.join(rdir, "%s_%s.json" % (ctx.prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=ctx.prop, **v.tojson()), f, indent=1, default=str)
        if len(shown) <= 25:
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("   key: %s" % v.key)
            print("   " + v.msg.replace("\n", "\n   ")[:1500])
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ["(none)"], exhaustive=bool(ctx.exhaustive),
               distinct_outcomes=len(ctx.outcomes), bounds=ctx.bounds,
               explanation=ctx.explanation,
               counters={k: n for k, n in sorted(ctx.counters.items()) if not k.startswith("V:")},
               known_findings_reproduced=sorted(seen_known))
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=cov, assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2),
              violations=len(shown))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % ctx.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d wall=%.1fs" % (
        ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, len(ctx.outcomes),
        len(shown), len(seen_known), ev["wall_s"]))
    return 1 if shown else 0
