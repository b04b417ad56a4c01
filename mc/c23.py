"""C23  parallel evaluation: every loop the code hands to threads (numba prange) is turned into cooperating iterations
which stop before each access to memory they share, and all their interleavings are explored on the code as it is
written; the compiled code is held against the same results, and energies(parallel=True) against the serial call."""
import ast, copy, inspect, itertools, sys, textwrap
import numpy as np
import clustertools as ct
from . import common, world, oracle, calls


def dispatchers():
    """functions compiled with parallel=True anywhere in the package"""
    out = {}
    for mn, mod in sorted(sys.modules.items()):
        if mod is None or not mn.startswith("clustertools"): continue
        for k, f in sorted(vars(mod).items()):
            if hasattr(f, "py_func") and getattr(f, "targetoptions", {}).get("parallel"):
                out[(f.py_func.__module__, f.py_func.__qualname__)] = f
    return out


# ------------------------------------------------------------------ loops into cooperating iterations
def _rd(a, i):
    yield (id(a), _key(i), "r")
    return a[i]


def _use(a):
    yield (id(a), None, "r")
    return a


def _wr(a, i, v):
    yield (id(a), _key(i), "w")
    a[i] = v


def _key(i): return tuple(int(x) for x in i) if isinstance(i, tuple) else i if isinstance(i, slice) else int(i)


def is_prange(e): return isinstance(e, ast.Call) and (getattr(e.func, "attr", None) == "prange" or getattr(e.func, "id", None) == "prange")


def stored(node):
    """names whose elements are assigned"""
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            v = n.value
            while isinstance(v, ast.Subscript): v = v.value
            if isinstance(v, ast.Name): s.add(v.id)
    return s


def assigned(nodes):
    s = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): s.add(n.id)
    return s


class Body(ast.NodeTransformer):
    """accesses to the shared names become scheduling points"""
    def __init__(self, shared, glob, helpers): self.shared, self.glob, self.helpers = shared, glob, helpers

    def call(self, name, *args): return ast.YieldFrom(ast.Call(ast.Name(name, ast.Load()), list(args), []))

    def base(self, n): return n.value.id if isinstance(n.value, ast.Name) else None

    def visit_Subscript(self, n):
        b = self.base(n)
        if b not in self.shared: return self.generic_visit(n)
        n.slice = self.visit(n.slice)
        return self.call("_rd", ast.Name(b, ast.Load()), n.slice) if isinstance(n.ctx, ast.Load) else n

    def visit_Name(self, n):
        return self.call("_use", n) if isinstance(n.ctx, ast.Load) and n.id in self.shared else n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and self.base(n.targets[0]) in self.shared:
            t = n.targets[0]
            return ast.Expr(self.call("_wr", ast.Name(t.value.id, ast.Load()), self.visit(t.slice), self.visit(n.value)))
        return self.generic_visit(n)

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript) and self.base(t) in self.shared:
            i = self.visit(t.slice)
            old = self.call("_rd", ast.Name(t.value.id, ast.Load()), copy.deepcopy(i))
            return ast.Expr(self.call("_wr", ast.Name(t.value.id, ast.Load()), i, ast.BinOp(old, n.op, self.visit(n.value))))
        return self.generic_visit(n)

    def visit_Call(self, n):
        f = self.glob.get(n.func.id) if isinstance(n.func, ast.Name) else None
        h = self.helpers(f) if f is not None and hasattr(f, "py_func") else None
        if h or getattr(n.func, "id", None) == "len":
            n.args = [a if isinstance(a, ast.Name) else self.visit(a) for a in n.args]
        else: self.generic_visit(n)
        if h: return ast.YieldFrom(ast.Call(ast.Name(h, ast.Load()), n.args, n.keywords))
        return n


def source(f):
    t = ast.parse(textwrap.dedent(inspect.getsource(f.py_func))).body[0]
    t.decorator_list = []
    return t


def interleave(f):
    """f as a Python function of (run, *args): its parallel loops are handed to run(body, range)"""
    pf = f.py_func; glob = dict(pf.__globals__); tree = source(f); made = {}

    def helper(h):
        name = "__gen_%s" % h.py_func.__name__
        if name in made: return made[name]
        made[name] = None
        t = source(h); par = {a.arg for a in t.args.args}; sh = stored(t) & par
        if not sh: return None
        t.name = name; made[name] = name
        t.body = [Body(sh, h.py_func.__globals__, helper).visit(b) for b in t.body] + [ast.Expr(ast.Yield(None))] * 0
        ast.fix_missing_locations(t)
        exec(compile(ast.Module([t], []), "<helper>", "exec"), glob)
        return name

    count = [0]

    class Loops(ast.NodeTransformer):
        def visit_For(self, n):
            if not is_prange(n.iter): return self.generic_visit(n)
            count[0] += 1
            name = "__body%d" % count[0]
            plain = {t.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
            loop = {t.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.For) for t in ast.walk(x.target) if isinstance(t, ast.Name)}
            red = {x.target.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)} - plain - loop
            private = assigned(n.body) | {n.target.id}
            called = set()
            for b in n.body:                            # arrays handed to helpers which write into them
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and hasattr(glob.get(x.func.id), "py_func") and helper(glob[x.func.id]):
                        called |= {a.id for a in x.args if isinstance(a, ast.Name)}
            shared = (stored(ast.Module(n.body, [])) | called) - private
            body = [Body(shared, glob, helper).visit(b) for b in n.body]
            if red: body = [ast.Nonlocal(sorted(red))] + body       # sums over iterations: numba adds them up itself
            fn = ast.FunctionDef(name, ast.arguments([], [ast.arg(n.target.id)], None, [], [], None, []), body + [ast.If(ast.Constant(False), [ast.Expr(ast.Yield(None))], [])], [], None, type_params=[])
            return [fn, ast.Expr(ast.Call(ast.Name("__run", ast.Load()), [ast.Name(name, ast.Load()), ast.Call(ast.Name("range", ast.Load()), n.iter.args, [])], []))]

    tree = Loops().visit(tree)
    if not count[0]: return None
    tree.name = "__f"
    outer = ast.FunctionDef("__make", ast.arguments([], [ast.arg("__run")], None, [], [], None, []), [tree, ast.Return(ast.Name("__f", ast.Load()))], [], None, type_params=[])
    ast.fix_missing_locations(outer)
    glob.update(_rd=_rd, _wr=_wr, _use=_use)
    exec(compile(ast.Module([outer], []), "<%s>" % pf.__name__, "exec"), glob)
    return glob["__make"]


def conflict(a, b): return a[0] == b[0] and (a[1] == b[1] or None in (a[1], b[1])) and "w" in (a[2], b[2])


class Choices:
    """one execution under a given list of choices; afterwards the alternatives that were open"""
    def __init__(self, prefix): self.prefix, self.trace = list(prefix), []

    def run(self, body, rng):
        gens = {k: body(k) for k in rng}; pend = {}
        for k in list(gens):
            try: pend[k] = next(gens[k])
            except StopIteration: pass
        while pend:
            ready = sorted(pend)
            n = len(self.trace)
            k = self.prefix[n] if n < len(self.prefix) else ready[0]
            self.trace.append((k, ready, dict(pend)))
            try: pend[k] = next(gens[k])
            except StopIteration: del pend[k]


def explore(make, args, reduce, limit, judge):
    """all interleavings (all classes of equivalent ones with reduce: sleep sets); -> executions, steps"""
    runs = steps = 0
    stack = [([], frozenset())]                     # prefix, iterations asleep after it
    while stack:
        prefix, sleep = stack.pop()
        c = Choices(prefix)
        if reduce:
            # continue with the first awake iteration at each point
            res = _run_sleep(make, args, prefix, sleep, c, stack)
            if res is None: continue
        else:
            res = make(c.run)(*args)
            for n in range(len(prefix), len(c.trace)):
                k, ready, _ = c.trace[n]
                for alt in ready:
                    if alt != k: stack.append(([t[0] for t in c.trace[:n]] + [alt], frozenset()))
        runs += 1; steps += len(c.trace)
        m = judge(res, [t[0] for t in c.trace])
        if m: return runs, steps, m, [t[0] for t in c.trace]
        if runs > limit: return runs, steps, "too many interleavings", None
    return runs, steps, None, None


class Blocked(Exception): pass


def _run_sleep(make, args, prefix, sleep, c, stack):
    st = dict(sleep=dict(sleep))

    def run(body, rng):
        gens = {k: body(k) for k in rng}; pend = {}
        for k in list(gens):
            try: pend[k] = next(gens[k])
            except StopIteration: pass
        while pend:
            n = len(c.trace); ready = sorted(pend)
            if n < len(prefix): k = prefix[n]
            else:
                awake = [q for q in ready if q not in st["sleep"]]
                if not awake: raise Blocked
                k = awake[0]
                done = dict(st["sleep"]); 
                done[k] = pend[k]
                for alt in awake[1:]:
                    # after alt, those already tried stay asleep as long as they do not touch what alt touches
                    s = {q: a for q, a in done.items() if not conflict(a, pend[alt])}
                    stack.append(([t[0] for t in c.trace] + [alt], frozenset(s.items())))
                    done[alt] = pend[alt]
                st["sleep"] = {q: a for q, a in st["sleep"].items() if not conflict(a, pend[k])}
            c.trace.append((k, ready, dict(pend)))
            try: pend[k] = next(gens[k])
            except StopIteration: del pend[k]
    try: return make(run)(*args)
    except Blocked: return None


# ------------------------------------------------------------------ inputs
def stars(n, kind):
    p = np.array([[0., 0., 0., 1.], [1., .5, -.3, 2.], [-2., 1., .7, .5], [.4, -1.5, 2., 1.5], [3., .2, -1., .25], [-.6, -.8, .9, .75]])[:n].copy()
    if kind == "equal": p[:, 3] = 1.
    if kind == "coincident" and n > 1: p[1, :3] = p[0, :3]
    return p


def arguments(f, n, kind, soft):
    ps = list(inspect.signature(f.py_func).parameters.values())
    req = [p for p in ps if p.default is p.empty]
    x = stars(n, kind)
    a = [x] if len(req) == 1 else [x, stars(n + 1, kind)] if len(req) == 2 else None
    if a is None: return None
    if len(ps) > len(req): a.append(soft)
    return a


def values(v):
    if isinstance(v, tuple): return np.concatenate([np.atleast_1d(np.asarray(q, float)).ravel() for q in v])
    return np.asarray(v, float)


def same(a, b):
    a, b = values(a), values(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def schedules(item, part):
    key, n, kind, soft, reduce = item
    f = dispatchers().get(tuple(key)); case = dict(kind="schedules", item=[list(key), n, kind, soft, reduce])
    if f is None: return
    args = arguments(f, n, kind, soft)
    if args is None: part.outcome("not driven", key[1]); return
    try:
        with common.quiet(), common.limit(300): want = f(*args)
    except Exception:
        part.outcome("not driven", key[1]); return
    try:
        make = interleave(f)
        if make is None: part.outcome("no parallel loop", key[1]); return
        with np.errstate(all="ignore"): one_ = make(Choices([]).run)(*args)
    except Exception as e:
        part.outcome("not driven", key[1], type(e).__name__); part.count("not driven: %s" % key[1]); return
    if not same(one_, want):                        # in order, one after the other, the iterations have to give what is compiled
        part.outcome("not the compiled code", key[1]); part.count("not driven: %s" % key[1]); return
    with np.errstate(all="ignore"):
        runs, steps, msg, tr = explore(make, args, reduce, 200000, lambda r, t: None if same(r, want) else "%s instead of %s" % (np.array2string(values(r)[:6], precision=8), np.array2string(values(want)[:6], precision=8)))
    part.states += steps; part.transitions += steps; part.traces += runs
    part.outcome("schedules", key[1], n, kind, soft, reduce)
    part.count("interleavings of %s, %d iterations%s" % (key[1], n, " (one of each class)" if reduce else ""), runs)
    if msg == "too many interleavings": part.outcome("bound reached", key[1], n); return
    if msg: part.violation("%s depends on the schedule of its threads" % key[1], "%s: %d stars (%s, softening %g), iterations interleaved as %s: %s" % (case, n, kind, soft, tr, msg), case)


def calls_(item, part):
    """energies(parallel=True) is energies(parallel=False), as function and as method"""
    units, origin, wn = item
    case0 = dict(kind="calls", item=list(item))
    w = oracle.W30() if wn == "w30" else world.world5()
    c0 = calls.build(w, units, origin)
    ids = list(np.asarray(c0.id)); L = calls.lens(c0)[0]
    for pro, spec, soft, sel in itertools.product((False, True), (False, True), (0.0, .7), ("all", "ids", "mask", "one", "none left out")):
        kw = dict(projected=pro, specific=spec)
        if soft: kw["softening"] = soft / L
        if sel == "ids": kw["ids"] = np.array([ids[1], ids[3]])
        if sel == "mask": kw["ids"] = np.arange(len(ids)) % 3 == 1
        if sel == "one": kw["ids"] = np.array([ids[2]])
        if sel == "none left out": kw["ids"] = np.array(ids)
        r = []
        for par in (False, True):
            for how in ("function", "method"):
                c = copy.deepcopy(c0)
                try:
                    with common.quiet(), common.limit(200):
                        v = ct.energies(c, parallel=par, **kw) if how == "function" else (c.energies(parallel=par, **kw), (c.kin, c.pot))[1]
                    v = [np.asarray(world.num(q), float) for q in v]
                    if how == "method" and sel != "all":
                        m = kw["ids"] if np.asarray(kw["ids"]).dtype == bool else np.isin(c.id, kw["ids"])
                        if len(v[0]) == len(m): v = [q[m] for q in v]
                except Exception as e: v = common.exc_text(e)
                r.append((par, how, v))
        part.states += 1; part.transitions += 4; part.traces += 4; part.outcome("calls", pro, spec, bool(soft), sel)
        a = r[0][2]
        for par, how, v in r[1:]:
            if isinstance(a, str) or isinstance(v, str): ok = isinstance(a, str) and isinstance(v, str)
            else: ok = all(p.shape == q.shape and np.allclose(p, q, rtol=1e-9, atol=0, equal_nan=True) for p, q in zip(a, v))
            if not ok: part.violation("energies(parallel=%s) as %s differ from the serial function" % (par, how), "%s %s: %s, serial function %s" % (case0, {k: str(x) for k, x in kw.items()}, v, a), case0); break


KINDS = dict(schedules=schedules, calls=calls_)


def tup(v): return tuple(tup(x) for x in v) if isinstance(v, list) else v


def dispatch(item, part): KINDS[item[0]](item[1], part)


def replay(case):
    p = common.Part(); KINDS[case["kind"]](tup(case["item"]), p); return p.violations


def run(ctx):
    t = ctx.thorough; D = dispatchers(); J = []
    for key in sorted(D):
        for n, reduce in [(1, False), (2, False), (3, True), (4, True)] + ([(3, False), (5, True), (6, True)] if t else []):
            for kind in ("plain", "equal", "coincident"):
                for soft in (0.0, .5):
                    if n == 3 and not reduce and (kind != "plain" or soft): continue
                    J.append(("schedules", (key, n, kind, soft, reduce)))
    J.sort(key=lambda j: -j[1][1] if j[1][4] is False else 0)
    J += [("calls", (u, o, x)) for x in (("w30", "w5") if t else ("w30",)) for u in world.UNITS for o in world.ORIGINS]
    ctx.pmap(dispatch, J, chunk=1)
    ctx.bounds = dict(parallel_functions=["%s.%s" % k for k in sorted(D)], iterations="all interleavings of up to %d, one of each class of equivalent interleavings of up to %d" % (3 if t else 2, 6 if t else 4),
                      units=world.UNITS, origins=world.ORIGINS, cases=len(J))
    ctx.assumptions = ["each iteration is its own thread (numba's chunks are among the interleavings), accesses to one element are atomic, scalar sums over iterations are added up by numba"]
    ctx.explanation = "stateless exploration of all interleavings of the iterations of every parallel loop, taken from the source as it is, against the compiled function; finite product of calls with parallel on and off on the real code"
