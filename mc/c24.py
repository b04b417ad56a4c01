"""C24  what is done to one cluster changes nothing else: no other cluster, no value already returned, no
argument, and no result of a later call elsewhere; and what the user does to arrays already given changes no
cluster."""
import copy, itertools, os, pickle, shutil, tempfile
import numpy as np
import clustertools as ct
from clustertools import StarCluster
from galpy.orbit import Orbit
from galpy.potential import turn_physical_on
from . import common, world, calls, oracle, c05, c09, c20, simfiles as sf
from .world import UNITS, ORIGINS

POT = oracle.POT


# ------------------------------------------------------------------ exact snapshots of anything
def freeze(v, depth=0):
    if isinstance(v, dict): return {k: freeze(x, depth) for k, x in v.items()}
    if isinstance(v, (tuple, list)): return (type(v).__name__,) + tuple(freeze(q, depth) for q in v)
    if isinstance(v, Orbit): return ("Orbit", c20.six(v).tobytes(), v._ro, v._vo, v._zo, tuple(np.atleast_1d(v._solarmotion)), v._roSet, v._voSet)
    f = c05.flat(v)
    if f is not None: return (f[0].shape, f[1], np.ascontiguousarray(f[0]).tobytes(), f[0].dtype.kind)
    if hasattr(v, "_amp"): return ("pot", type(v).__name__, repr(world._canon(vars(v))))
    return repr(world._canon(v))


def state(c): return {k: freeze(v) for k, v in vars(c).items() if k != "_mcw"}


def changed(a, b):
    """exact, attribute by attribute"""
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def near(a, b):
    """the same up to rounding (results calculated twice)"""
    if a == b: return True
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if len(a) == 4 and isinstance(a[2], bytes) and a[3] == "f" == b[3]:
            if a[:2] != b[:2] or len(a[2]) != len(b[2]): return False
            x, y = (np.frombuffer(q[2]) for q in (a, b)) if len(a[2]) == 8 * int(np.prod(a[0])) else ((), ())
            return len(x) > 0 and bool(np.allclose(x, y, rtol=1e-9, atol=1e-9 * np.nanmax(np.abs(np.concatenate([x, y, [0.]]))), equal_nan=True))
        return all(near(x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ operations that may follow
def ops():
    R = []
    for u in UNITS: R.append(("to_units " + u, lambda c, u=u: c.to_units(u)))
    for o in ORIGINS: R.append(("to_origin " + o, lambda c, o=o: c.to_origin(o)))
    R += [("analyze", lambda c: c.analyze(sortstars=True)),
          ("find_centre", lambda c: c.find_centre(rmin=.1 / calls.lens(c)[0])),
          ("find_centre_of_mass", lambda c: c.find_centre_of_mass()),
          ("energies", lambda c: c.energies()),
          ("rlagrange", lambda c: c.rlagrange(nlagrange=3)),
          ("rtidal", lambda c: c.rtidal(pot=POT)),
          ("initialize_orbit", lambda c: c.initialize_orbit()),
          ("orbital_path", lambda c: c.orbital_path(pot=POT, nt=5, tfinal=c20.tf(c))),
          ("virialize", lambda c: c.virialize()),
          ("add_rotation", lambda c: (np.random.seed(3), c.add_rotation(.5))),
          ("reset_nbody_scale", lambda c: c.reset_nbody_scale(rvirial=False)),
          ("sub_cluster", lambda c: [s.to_units("kpckms") for s in [ct.sub_cluster(c, rmax=c.rm)]]),
          ("add_stars", lambda c: c.add_stars(*[np.array([.3, .4])] * 6)),
          ("to_sky", lambda c: (c.to_galaxy(), c.to_sky())),
          ("leave the sky", lambda c: (c.to_galaxy(), c.to_pckms()))]
    return R


def run_ops(c, check, part, reverse=False):
    """every operation in turn on c (those not possible here are skipped); check(name) after each"""
    R = ops()
    for name, f in (R[::-1] if reverse else R):
        try:
            with common.quiet(), common.limit(60): f(c)
        except Exception: pass
        part.transitions += 1
        if not check(name): return


# ------------------------------------------------------------------ 1. values already returned, arguments
def values(item, part):
    import matplotlib.pyplot as plt
    units, origin, mi, reverse = item
    m = c20.methods()[mi]
    if units not in m.units or origin not in m.origins: return
    c0 = c20.build(units, origin, False); o = oracle.O(c0._mcw, origin)
    for k, opt in enumerate(m.opts):
        for kind, zero in (("function", False), ("method", False), ("function", True), ("method", "pot")):
            c = copy.deepcopy(c0); c._mcw = c0._mcw
            kw = opt(c, o)
            if zero == "pot":                         # a potential of its own, set to return physical quantities
                if "pot" not in kw: continue
                kw["pot"] = copy.deepcopy(kw["pot"])
                turn_physical_on(kw["pot"], ro=c._ro, vo=c._vo)
            elif zero:                                # numbers given as zero-dimensional arrays
                if not any(isinstance(v, float) for v in kw.values()): continue
                kw = {a: np.array(v) if isinstance(v, float) else v for a, v in kw.items()}
            given = freeze(kw)
            label = "%s(%s) as %s in %s/%s" % (m.name, ", ".join("%s=%s" % (a, c20.show(b)) for a, b in kw.items() if a != "pot"), kind, units, origin)
            case = dict(kind="values", item=list(item), k=k, how=kind, zero=zero)
            got, err = c20.attempt(m, c, kw, kind)
            plt.close("all")
            part.states += 1; part.traces += 1; part.outcome("values", m.name, k, kind, units, origin)
            bad = changed(given, freeze(kw))
            if bad: part.violation("%s: changes its argument %s" % (m.name, bad[0]), "%s: argument %s is now %s" % (label, bad[0], c20.show(kw[bad[0]])), case)
            if err: continue
            res = freeze(got); given = freeze(kw)
            def check(name):
                if freeze(got) != res: part.violation("%s: a value already returned changes" % m.name, "%s: after %s on the same cluster the values returned before are different" % (label, name), case); return False
                bad = changed(given, freeze(kw))
                if bad: part.violation("%s: an argument changes later" % m.name, "%s: after %s the argument %s is different" % (label, name, bad[0]), case); return False
                return True
            run_ops(c, check, part, reverse)


# ------------------------------------------------------------------ 2. arrays given to a cluster
FORMS = ("array", "view", "int", "f32", "list")


def form(v, f):
    v = np.asarray(v)
    if f == "view": b = np.zeros(2 * len(v), v.dtype); b[::2] = v; return b[::2]
    if f == "int": return np.asarray(np.round(3 * np.asarray(v, float)) + 1, int)
    if f == "f32": return np.asarray(v, np.float32) if v.dtype.kind == "f" else v.copy()
    if f == "list": return v.tolist()
    return v.copy()


def feeds(f):
    """name -> (arguments, how they are given)"""
    s = np.sin(1. + np.arange(60)).reshape(10, 6) + 2.
    F = lambda *r: [form(v, f) for v in r]
    Z = lambda **k: {a: np.array(v) if f in ("array", "f32") else np.array([v])[0] if f == "view" else v for a, v in k.items()}
    ids = np.arange(6) + 11
    xyz = dict(zip("x y z vx vy vz".split(), F(*s[:6])))
    st = dict(xyz, m=form(s[6], f), id=ids.copy())
    if f != "list": st["m0"] = form(s[7], f)
    kw = np.array([0, 1, 3, 1, 10, 1])
    bse = dict(zip("id1 id2 kw1 kw2 kcm".split(), [form(np.array(q), "array") for q in ((11, 13), (12, 14), (1, 1), (1, 3), (0, 0))]))
    bse.update(zip("ecc pb semi m1 m2 logl1 logl2 logr1 logr2 ep1 ep2 ospin1 ospin2".split(), F(*[q[:2] for q in np.vstack([s, s + 1])[:13]])))
    R = {"add_stars": (st, lambda c, a: c.add_stars(**a)),
         "add_stars twice": (st, lambda c, a: (c.add_stars(**a), c.add_stars(**dict(a, id=None)))),
         "add_stars unsorted": (st, lambda c, a: c.add_stars(**dict(a, sortstars=False, analyze=False))),
         "add_sse": (dict(a=dict(kw=kw.copy(), logl=form(s[0], f), logr=form(s[1], f), ep=form(s[2], f), ospin=form(s[3], f))), lambda c, a: c.add_sse(**a["a"])),
         "add_bse": (dict(bse), lambda c, a: c.add_bse(**a)),
         "add_energies": (dict(kin=form(s[0], f), pot=form(-s[1], f)), lambda c, a: c.add_energies(**a)),
         "add_energies etot": (dict(kin=form(s[0], f), pot=form(-s[1], f), etot=form(s[2], f)), lambda c, a: c.add_energies(**a)),
         "add_orbit": (Z(xgc=5., ygc=-3., zgc=1.5, vxgc=-50., vygc=180., vzgc=20., tphys=40.), lambda c, a: c.add_orbit(ounits="kpckms", **a)),
         "add_orbit own units": (Z(xgc=5., ygc=-3., zgc=1.5, vxgc=-50., vygc=180., vzgc=20.), lambda c, a: c.add_orbit(**a)),
         "virialize": (Z(qvir=.6, softening=.1), lambda c, a: c.virialize(**a)),
         "interpolate_orbit": (Z(tfinal=.02), lambda c, a: c.interpolate_orbit(pot=POT, nt=5, **a)),
         "interpolate_orbits": (Z(tfinal=.02), lambda c, a: c.interpolate_orbits(pot=POT, nt=5, **a)),
         "orbit_interpolate": (Z(tfinal=.02), lambda c, a: c.orbit_interpolate(pot=POT, nt=5, **a)),
         "subset": (dict(indx=np.array([True, False] * 3)), lambda c, a: ct.sub_cluster(c, **a)),
         "rho_prof": (dict(indx=np.array([True, True, False] * 2)), lambda c, a: ct.rho_prof(c, nrad=2, **a)),
         }
    return R


def given(item, part):
    name, f, units, origin = item
    args, feed = feeds(f)[name]
    case = dict(kind="given", item=list(item)); label = "%s with %s arguments in %s/%s" % (name, f, units, origin)
    c = StarCluster(10., units=units, origin=origin)
    with common.quiet():
        c.add_nbody6(zmbar=25., rbar=1.7, vbar=.25, tbar=6.6)
        c.add_orbit(5., -3., 1.5, -50., 180., 20., ounits="kpckms")
        if not name.startswith("add_stars"):
            s = np.cos(1. + np.arange(42)).reshape(7, 6)
            c.add_stars(*s[:6], m=np.abs(s[6]) + .1, id=np.arange(6) + 11)
        before = freeze(args)
        feed(c, args)
    part.states += 1; part.traces += 1; part.outcome("given", name, f, units, origin)
    if freeze(args) != before: part.violation("%s: changes what it is given" % name, "%s: %s" % (label, changed(before, freeze(args))), case)
    before = freeze(args)
    def edit(d):
        for v in d.values():
            if isinstance(v, dict): edit(v)
            elif isinstance(v, np.ndarray) and v.dtype.kind == "b": v[:] = ~v
            elif isinstance(v, np.ndarray) and v.ndim == 0: v[...] = 77.
            elif isinstance(v, (np.ndarray, list)):
                for i in range(len(v)): v[i] = 77
    def check(op):
        if freeze(args) != before: part.violation("%s: an operation changes arrays given earlier" % name, "%s: after %s %s changed" % (label, op, changed(before, freeze(args))), case); return False
        return True
    # the user's later use of these arrays
    a2, feed2 = feeds(f)[name]; c2 = copy.deepcopy(c); s2 = None
    c3 = StarCluster(10., units=units, origin=origin)
    with common.quiet():
        c3.add_nbody6(zmbar=25., rbar=1.7, vbar=.25, tbar=6.6)
        if not name.startswith("add_stars"): c3.add_stars(*np.cos(1. + np.arange(42)).reshape(7, 6)[:6], id=np.arange(6) + 11)
        feed2(c3, a2)
        s3 = state(c3); edit(a2); part.transitions += 1
    bad = changed(s3, state(c3))
    if bad: part.violation("%s: the cluster changes with the array it was given" % name, "%s: editing the arrays afterwards changes %s" % (label, bad), case)
    run_ops(c, check, part)


# ------------------------------------------------------------------ 3. clusters made from the same source
def sources():
    from astropy.table import QTable
    import astropy.units as au
    s = np.sin(1. + np.arange(42)).reshape(7, 6)
    arr = dict(x=s[0], y=s[1], z=s[2], vx=s[3], vy=s[4], vz=s[5], m=np.abs(s[6]) + .2, id=np.arange(6) + 1)
    def arrays(src):
        c = StarCluster(10., units="pckms", origin="cluster"); c.add_nbody6(zmbar=25., rbar=1.7, vbar=.25, tbar=6.6); c.add_stars(**src)
        c.add_sse(src["id"], src["x"], src["y"]); c.add_energies(src["m"], src["x"]); c.add_orbit(5., -3., 1.5, -50., 180., 20., ounits="kpckms"); return c
    tab = QTable({k: v * (au.pc if k in "xyz" else au.km / au.s if k[0] == "v" else au.Msun) for k, v in arr.items() if k != "id"}); tab["id"] = arr["id"]
    def table(src):
        c = ct.load_cluster("astropy_table", particles=src, units="pckms", origin="cluster"); c.add_orbit(5., -3., 1.5, -50., 180., 20., ounits="kpckms"); c.add_nbody6(zmbar=25., rbar=1.7, vbar=.25, tbar=6.6); return c
    orb = Orbit([[1., .1, 1.1, .1, .05, .3], [1.1, .1, 1., .1, .02, .2], [.9, .0, 1.1, .1, .05, .4], [.95, .05, 1.1, .1, .05, .4]], ro=8., vo=220., zo=.02, solarmotion=[-11., 24., 7.])
    one = Orbit([1., .1, 1.1, .1, .05, .3], ro=8., vo=220., zo=.02, solarmotion=[-11., 24., 7.])
    def orbits(src): return ct.load_cluster("galpy", particles=src, units="kpckms", origin="galaxy")
    def with_orbit(src):
        c = ct.load_cluster("astropy_table", particles=tab, units="pckms", origin="cluster", orbit=src); c.add_nbody6(zmbar=25., rbar=1.7, vbar=.25, tbar=6.6); return c
    R = dict(arrays=(arr, arrays), table=(tab, table), orbits=(orb, orbits), orbit=(one, with_orbit))
    if world.HAVE_AMUSE:
        w = world.world5()
        from .c19 import particles
        def amuse(src): return ct.load_cluster("amuse", particles=src, units="pckms", origin="cluster")
        R["amuse"] = (None, amuse)
    return R


def tabstate(src):
    if isinstance(src, dict): return freeze(src)
    if isinstance(src, Orbit): return freeze(src)
    if hasattr(src, "colnames"): return {k: freeze(np.asarray(src[k].value if hasattr(src[k], "unit") and src[k].unit is not None else src[k])) for k in src.colnames}
    return None


def shared(item, part):
    name, first, reverse = item
    src, make = sources()[name]
    if src is None:
        from .c19 import particles
        src = particles(world.world5(), "cluster")
        if isinstance(src, tuple): src = src[0]
    case = dict(kind="shared", item=list(item))
    with common.quiet():
        a, b = make(src), make(src)
        if first: b.to_units(first)
    s0 = tabstate(src); sb = state(b)
    part.states += 1; part.traces += 1; part.outcome("shared", name, first)
    def check(op):
        bad = changed(sb, state(b))
        if bad: part.violation("two clusters from one %s: one changes with the other" % name, "after %s on one, %s of the other differ" % (op, bad[:5]), case); return False
        if tabstate(src) != s0: part.violation("two clusters from one %s: the source changes" % name, "after %s" % op, case); return False
        return True
    if not check("the second was made"): return
    run_ops(a, check, part, reverse)


# ------------------------------------------------------------------ 4. two clusters: all ordered pairs of calls
def world_a(): return world.world5(zmbar=41., rbar=2.9, ro=7.4, vo=244., zo=.05, solarmotion=(-8., 15., 9.), tphys=77.)


def pool(units=None, origin=None, drawn=True):
    """what may be done to a cluster (in these units and origin)"""
    R = [(c.name, lambda k, c=c: c.fn(k, oracle.O(k._mcw, c.eff(k.origin)))) for c in calls.registry(False) + calls.options()
         if (units is None or not c.units or units in c.units) and (origin is None or not c.origins or origin in c.origins) and (drawn or not c.name.endswith("plotted"))]
    return R + ops()


def answers(lot, c0):
    out = []
    import matplotlib.pyplot as plt
    for name, f in lot:
        c = copy.deepcopy(c0); c._mcw = c0._mcw
        np.random.seed(7)
        try:
            with common.quiet(), common.limit(60): r = f(c)
            v = freeze(r)
            if isinstance(r, StarCluster): v = state(r)
        except common.Hang: raise
        except Exception as e: v = "raised " + type(e).__name__
        plt.close("all")
        out.append((v, state(c)))
    return out


def alone(Q, B0):
    """the answers without history: in a process of their own, so that this one has done nothing"""
    fd, name = tempfile.mkstemp(dir=os.getcwd()); os.close(fd)
    def child():
        with open(name, "wb") as f: pickle.dump(answers(Q, B0), f)
    common.killable(child, (), 400)
    with open(name, "rb") as f: want = pickle.load(f)
    os.unlink(name)
    return want


def differ(want, got): return [i for i, (x, y) in enumerate(zip(want, got)) if not near(x, y)]


def pairs(item, part):
    lo, hi, ua, oa, ub, ob, drawn = item
    A0 = calls.build(world_a(), ua, oa); B0 = calls.build(oracle.W30(), ub, ob)
    P = pool(ua, oa); Q = pool(ub, ob, drawn)
    sB = state(B0)
    want = alone(Q, B0)
    for i in range(lo, min(hi, len(P))):
        name, f = P[i]
        def child():
            p = common.Part(); A = copy.deepcopy(A0); A._mcw = A0._mcw
            np.random.seed(7)
            try:
                with common.quiet(), common.limit(60): f(A)
            except common.Hang: raise
            except Exception: pass
            bad = changed(sB, state(B0))
            if bad: return ["other cluster", "%s on one cluster changes %s of another" % (name, bad[:5])]
            d = differ(want, answers(Q, B0))
            if d: return ["later result", "%s after %s on another cluster is not what it is alone" % ([Q[j][0] for j in d[:5]], name)]
            return None
        try: r = common.killable(child, (), 400)
        except common.Hang: r = ["hang", "%s: no answer" % name]
        part.states += 1; part.transitions += 1 + len(Q); part.traces += len(Q); part.outcome("pairs", name, ua, oa)
        part.sample(dict(kind="pairs", first=name, on=[ua, oa], then="%d calls on a cluster in %s/%s" % (len(Q), ub, ob)))
        if r: part.violation("%s: %s" % (r[0], name), r[1], dict(kind="pairs", item=[i, i + 1, ua, oa, ub, ob, drawn]))


def bulk(item, part):
    """everything on one cluster, then everything on another; a difference is traced to one first call"""
    ua, oa, ub, ob = item
    A0 = calls.build(world_a(), ua, oa); B0 = calls.build(oracle.W30(), ub, ob); C0 = calls.build(world_a(), ub, ob)
    P = pool(ua, oa); Q = pool(ub, ob); sB = state(B0)
    want = alone(Q, B0)
    def child():
        answers(P, A0); answers(Q, C0)
        bad = changed(sB, state(B0))
        if bad: return [None, bad[:5]]
        return [differ(want, answers(Q, B0)), None]
    idx, bad = common.killable(child, (), 800)
    part.states += 1; part.transitions += len(P) + 3 * len(Q); part.traces += len(Q); part.outcome("bulk", item)
    case = dict(kind="bulk", item=list(item))
    if bad: part.violation("other cluster", "calls on a cluster in %s/%s change %s of one in %s/%s" % (ua, oa, bad, ub, ob), case)
    elif idx: part.violation("later result: %s" % Q[idx[0]][0], "in %s/%s not what it is alone, after the same calls on clusters in %s/%s and %s/%s: %s" % (ub, ob, ua, oa, ub, ob, [Q[i][0] for i in idx[:5]]), case)


# ------------------------------------------------------------------ 5. two simulations read in turn
def sims():
    return [(c09.Snapshot, dict(n=3)), (c09.Snapshot, dict(n=2, units="kpckms", origin="galaxy", base="s", sep=",")), (c09.Nemo, dict(n=2)), (c09.Nemo, dict(n=3, new=True, units="kpckms", origin="cluster", eps="all")),
            (c09.N6, dict(n=3, nb=1, se=True, out33=True)), (c09.N6, dict(n=2, nb=0, se=False, out33=True, sub="out")), (c09.N6pp, dict(n=4, nb=1, se=True)), (c09.N6h5, dict(n=4, nb=1, files=(2, 1)))]


ROW = [0]
_row = sf.orbit_row


def orbit_row(k): return [v + (i > 0) * 2.5 * ROW[0] for i, v in enumerate(_row(k))]


def loads(item, part):
    i, j, orbit, samedir = item
    sf.orbit_row = orbit_row                          # the second simulation has another orbit
    try: _loads(i, j, tuple(orbit) if orbit else None, samedir, item, part)
    finally: sf.orbit_row = _row


def _loads(i, j, orbit, samedir, item, part):
    S = sims(); fs = []; ds = []
    for k in (i, j):
        if samedir and fs: fs.append(fs[0]); ds.append(ds[0]); break
        f = S[k][0](**S[k][1]); d = tempfile.mkdtemp(dir=os.getcwd()); f.write(d); fs.append(f); ROW[0] = len(fs) - 1; sf.write(d + "/orbit.txt", sf.orbit_file(c09.K + 2)); ds.append(d)
    case = dict(kind="loads", item=list(item))
    try:
        n = c09.K + 1
        for pos in itertools.combinations(range(2 * n), n):
            if samedir and 0 not in pos: continue
            seq = [0 if q in pos else 1 for q in range(2 * n)]
            its = [c09.run_history(fs[k], ds[k], ["advance"] * c09.K, orbit, 0) for k in (0, 1)]
            cl = [None, None]; done = []
            part.states += 1; part.traces += 1
            for k in seq:
                other = cl[1 - k]; so = state(other) if other is not None else None
                try:
                    with common.limit(60): c, kk, _ = next(its[k])
                except StopIteration: continue
                except Exception as e:
                    part.violation("reading two simulations: raised %s" % type(e).__name__, "%s: %s" % ((S[i], S[j], seq), common.exc_text(e)), case); break
                cl[k] = c; done.append(k); part.transitions += 1
                ROW[0] = 0 if samedir else k
                bad = [m for _, m in c09.verify(fs[k], c, kk, orbit)]
                if bad: part.violation("reading two simulations in turn", "%s and %s, steps %s: snapshot %d: %s" % (S[i], S[j], done, kk, bad[0]), case); break
                if so is not None:
                    d = changed(so, state(other))
                    if d: part.violation("reading one simulation changes the other cluster", "%s and %s, steps %s: %s" % (S[i], S[j], done, d[:5]), case); break
            part.outcome("loads", i, j, tuple(seq), orbit)
            part.sample(dict(kind="loads", simulations=[str(S[i]), str(S[j])], steps=seq))
            for g in its: g.close()
    finally:
        for d in set(ds): shutil.rmtree(d, ignore_errors=True)


KINDS = dict(values=values, given=given, shared=shared, pairs=pairs, bulk=bulk, loads=loads)


def tup(v): return tuple(tup(x) for x in v) if isinstance(v, list) else v


def dispatch(item, part): KINDS[item[0]](item[1], part)


def replay(case):
    p = common.Part(); KINDS[case["kind"]](tup(case["item"]), p); return p.violations


def run(ctx):
    t = ctx.thorough; J = []
    calls.warm()
    n = len(c20.methods())
    US = UNITS if t else ["pckms", "nbody", "galpy", "kpcgyr"]
    J += [("values", (u, o, i, r)) for u in US for o in (ORIGINS if t else ("cluster", "galaxy")) for i in range(n) for r in ((False, True) if t else (False,))]
    W = [("kpckms", "galaxy", "pckms", "cluster")] + ([("nbody", "cluster", "nbody", "cluster"), ("galpy", "galaxy", "galpy", "galaxy"), ("pckms", "centre", "kpcgyr", "galaxy")] if t else [])
    P = len(pool())
    J = [("bulk", (u, o, v, p)) for u, v in (itertools.product(UNITS, UNITS) if t else zip(UNITS, UNITS[1:] + UNITS[:1])) for o, p in (("cluster", "galaxy"), ("galaxy", "cluster"))] + J
    J = [("pairs", (lo, lo + 8) + w + (t,)) for w in W for lo in range(0, len(pool(w[0], w[1])), 8)] + J
    J += [("given", (k, f, u, o)) for f in FORMS for k in feeds(f) for u in [x for x in UNITS if x != "amuse"] for o in ("cluster", "galaxy")]
    J += [("shared", (k, u, r)) for k in sources() for u in (None, "nbody", "kpckms", "galpy") for r in (False, True)]
    m = len(sims())
    J += [("loads", (i, j, orb, False)) for i in range(m) for j in range(i, m) for orb in (None, (None, True))]
    J += [("loads", (i, i, orb, True)) for i in range(m) for orb in (None, (None, True))]
    ctx.pmap(dispatch, J, chunk=1)
    ctx.bounds = dict(returned="every analysis method and function with all its options, then every other operation", given=sorted(feeds("array")), forms=FORMS, first_calls=P, pairs="every ordered pair of calls on two clusters, each first call in a fresh process", simulations=["%s %s" % (c.__name__, k) for c, k in sims()], reading="all interleavings of load and %d advances of two simulations, also of one run read twice" % c09.K, units=US, cases=len(J))
    ctx.assumptions = ["random draws are seeded, so that a call is a function of the history"]
    ctx.explanation = "exhaustive product and interleavings on the real objects; snapshots of everything else compared bit by bit before and after"
