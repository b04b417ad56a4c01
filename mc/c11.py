"""C11  output writers: after any history of conversions and additions every writer puts down the
physical cluster in the documented columns, and the loaders read it back as the same cluster."""
import itertools, os, shutil, tempfile
import numpy as np
import clustertools as ct
from . import common, world, oracle
from .c01 import check_cart
from .world import UNITS, ORIGINS

NOA = [u for u in UNITS if u != "amuse"]
COLS = ["m", "x", "y", "z", "vx", "vy", "vz", "id"]


def worlds():
    W = world.world5
    return {"plain": W(), "sse": W(sse=world.SSE5, ids=[7, 3, 12, 1, 40]), "one": world.World(world.STARS5[2:3], ids=[5]), "scaled": W(ro=8.3, vo=215., zmbar=3.0, rbar=40., gc=(-2.0, 7.0, 0.6, 120., -60., 9.))}


def build(w, units, origin):
    c = w.build(units, origin)
    c._m0 = None
    if w.sse is not None:
        c.ep = np.linspace(0.5, 2.5, len(w.stars)); c.ospin = np.linspace(9., 1., len(w.stars)); c.m0 = w.stars[:, 0] * 1.25
    return c


HIST = [("units", "nbody"), ("units", "pckms"), ("units", "galpy"), ("units", "WDunits"), ("origin", "centre"), ("origin", "galaxy"), ("origin", "cluster"), ("sky",), ("energies",), ("unsort",), ("add",), ("sub",)]


def apply_(op, c, w, m):
    k = op[0]
    if k == "units": getattr(c, "to_" + op[1])()
    elif k == "origin": getattr(c, "to_" + op[1])()
    elif k == "sky":
        u, o = c.units, c.origin; c.to_sky(); getattr(c, "to_" + ("galaxy"))(); c.to_units(u); c.to_origin(o)
    elif k == "energies": c.energies(); m["en"] = True
    elif k == "unsort": c.analyze(sortstars=False)
    elif k == "add":
        f = w.factors(c.units); s = np.array([0.9, -1.1 - 0.6 * m["na"], -0.8, 2.2, 0.3, -0.9, 0.4]); X, V = w.xyz(c.origin)
        r = s.copy(); r[1:] += np.concatenate([X[0] - w.stars[0, 1:4], V[0] - w.stars[0, 4:7]])
        c.add_stars(r[1] / f[0], r[2] / f[0], r[3] / f[0], r[4] / f[1], r[5] / f[1], r[6] / f[1], r[0] / f[2], id=90 + m["na"], sortstars=True, analyze=True)
        w.stars = np.vstack([w.stars, s]); m["id"] = np.append(m["id"], 90 + m["na"]); m["na"] += 1; m["en"] = False
        if w.sse is not None: c.add_sse([4], [0.2], [0.1], [3.0], [0.5]); w.sse = list(w.sse) + [(4, .2, .1)]; m["ep"] = np.append(m["ep"], 3.0); m["ospin"] = np.append(m["ospin"], .5); c.m0[-1] = 1.1; m["m0"] = np.append(m["m0"], 1.1)
    elif k == "sub":
        keep = np.arange(c.ntot) != 1; zb, rb, vb, tb = c.zmbar, c.rbar, c.vbar, c.tbar
        c = ct.sub_cluster(c, indx=keep)
        c.zmbar, c.rbar, c.vbar, c.tbar = zb, rb, vb, tb
        w.stars = w.stars[keep]; m["id"] = m["id"][keep]; m["en"] = False
        if w.sse is not None: w.sse = [s for s, b in zip(w.sse, keep) if b]; m["ep"] = m["ep"][keep]; m["ospin"] = m["ospin"][keep]; m["m0"] = m["m0"][keep]
    return c


def legal(op, c, w, m):
    if op[0] == "units": return c.units != op[1]
    if op[0] == "origin": return c.origin != op[1]
    if op[0] in ("sub", "energies"): return c.ntot > 1
    return True


def table(fn): return np.loadtxt(fn, ndmin=2)


def phase(w, units, origin):
    d = w.cart(units, origin)
    return np.column_stack([d[a] for a in COLS[:7]])


def near(got, exp, rel=1e-7):
    """column by column, errors measured against the size of the column"""
    if got.shape != exp.shape: return False
    s = np.maximum(np.abs(exp).max(axis=0), 1e-30)
    return bool((np.abs(got - exp) <= rel * s).all())


def reload(fn, units, origin, w, part, kw=False, wdir=""):
    names = COLS + (["kw"] if kw else [])
    return ct.load_cluster("snapshot", filename=fn, units=units, origin=origin, col_names=names, col_nums=list(range(len(names))), ro=w.ro, vo=w.vo, zo=w.zo)


def writers(c, w, m, d):
    """(name, violations) of every writer in the present state"""
    n = len(w.stars); u, o = c.units, c.origin; kw = w.sse is not None
    KW = np.array([s[0] for s in w.sse], float)[:, None] if kw else np.zeros((n, 0))
    base = np.column_stack([phase(w, u, o), m["id"], KW])
    sk = w.sky(); SK = np.column_stack([sk[k] for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")])
    # snapshots
    for en, rd in itertools.product((False, True), (False, True)):
        if en and not m["en"]: continue
        if rd and o != "galaxy": continue
        name = "snapout" + " energies" * en + " radec" * rd; fn = d + "/s.dat"; bad = []
        open(fn, "w").write("9 9 9\n" * 40)          # an older, longer file
        E = np.column_stack([np.asarray(a, float) for a in (c.kin, c.pot, c.etot)]) if en else None
        ct.snapout(c, fn, energies=en, radec=rd)
        t = table(fn); exp = np.column_stack([base] + ([E] if en else []) + ([SK] if rd else []))
        if t.shape != exp.shape: bad.append(("columns", "%s instead of %s" % (t.shape, exp.shape)))
        elif not near(t, exp, 1e-6): bad.append(("values", "%s instead of %s" % (t[0], exp[0])))
        if not bad and not en and not rd:
            c2 = reload(fn, u, o, w, None, kw)
            got = np.column_stack([c2.m, c2.x, c2.y, c2.z, c2.vx, c2.vy, c2.vz, c2.id]); mine = np.column_stack([c.m, c.x, c.y, c.z, c.vx, c.vy, c.vz, c.id])
            if not near(got, mine, 1e-10) or c2.units != u or c2.origin != o: bad.append(("read back", "%s instead of %s" % (got[0], mine[0])))
            if kw and not np.array_equal(c2.kw, c.kw): bad.append(("read back kw", str(c2.kw)))
            fn2 = d + "/s2.dat"; ct.snapout(c2, fn2)
            if not near(table(fn2), t, 1e-10): bad.append(("second writing differs", str(table(fn2)[0])))
        yield name, bad
    # NEMO
    for eps in (None, 0.25, np.linspace(.1, .9, n)):
        fn = d + "/g.dat"; bad = []; L = w.factors(u)[0]
        ct.gyrout(c, fn, eps=None if eps is None else eps / L, ro=w.ro, vo=w.vo)
        t = table(fn); exp = phase(w, "WDunits", "galaxy")
        if eps is not None: exp = np.column_stack([exp, np.ones(n) * eps / 1000.])
        if t.shape != exp.shape: bad.append(("columns", "%s instead of %s" % (t.shape, exp.shape)))
        elif not near(t, exp): bad.append(("values", "%s instead of %s" % (t[0], exp[0])))
        yield "gyrout" + " eps" * (eps is not None), bad
    # stellar evolution
    if kw:
        se = np.column_stack([m["m0"], KW, w.stars[:, 0], m["ep"], m["ospin"]])
        fn = d + "/e.dat"; ct.sseout(c, fn); t = table(fn)
        yield "sseout", [] if t.shape == se.shape and np.abs(t - se).max() < 2e-6 else [("values", "%s instead of %s" % (t, se))]
    # NBODY6
    c.wdir = d + "/"
    for reset, mass, rad in ((False, True, True), (True, True, False), (True, False, True), (True, True, True)):
        if reset and n < 2 and rad: continue
        bad = []; sse = kw and not (mass and rad)
        z, r = w.zmbar, w.rbar
        if reset: z, r = (w.stars[:, 0].sum() if mass else z), (oracle.O(w, "centre").rvir() if rad else r)
        ct.fortout(c, "f.10", sse=sse, sse_filename="f.12", reset_nbody=reset, reset_nbody_mass=mass, reset_nbody_radii=rad)
        if reset:
            w.zmbar, w.rbar, w.vbar, w.tbar = float(c.zmbar), float(c.rbar), float(c.vbar), float(c.tbar); w._fac = None
            if not common.close([w.zmbar, w.rbar], [z, r], 1e-6): bad.append(("scale", "%s instead of %s" % ((w.zmbar, w.rbar), (z, r))))
        t = table(d + "/f.10"); exp = phase(w, "nbody", "centre")
        if t.shape != exp.shape: bad.append(("columns", "%s instead of %s" % (t.shape, exp.shape)))
        elif not near(t, exp): bad.append(("values", "%s instead of %s" % (t[0], exp[0])))
        if sse:
            t = table(d + "/f.12")
            if t.shape != se.shape or np.abs(t - se).max() > 2e-6: bad.append(("stellar evolution", "%s instead of %s" % (t, se)))
        yield "fortout" + " reset" * reset, bad


def state(item):
    wn, units, origin, hist = item
    w = worlds()[wn]; n = len(w.stars)
    m = dict(en=False, na=0, id=np.array(w.ids if w.ids is not None else np.arange(n)), ep=np.linspace(0.5, 2.5, n), ospin=np.linspace(9., 1., n), m0=w.stars[:, 0] * 1.25)
    with common.quiet():
        c = build(w, units, origin)
        for op in hist:
            if not legal(op, c, w, m): return None
            c = apply_(op, c, w, m)
    return c, w, m


def one(item, part):
    wn, units, origin, hist = item
    case = dict(world=wn, units=units, origin=origin, hist=[list(h) for h in hist])
    try: s = state(item)
    except Exception as e:
        if not common.in_repo(e): raise
        part.violation("history fails", "%s: %s" % (case, common.exc_text(e)), case); return
    if s is None: return
    c, w, m = s
    d = tempfile.mkdtemp(dir=os.getcwd())
    part.states += 1; part.transitions += len(hist)
    it = writers(c, w, m, d); last = "first writer"
    try:
        while True:
            with common.quiet():
                try: name, bad = next(it)
                except StopIteration: break
                bad = bad + [("cluster changed: " + k, msg) for k, msg in check_cart(c, w, c.units, c.origin)]
            last = name; part.transitions += 1; part.traces += 1
            for k, msg in bad: part.violation("%s: %s" % (name, k), "%s: %s" % (case, msg), case)
            part.outcome(name, c.units, c.origin, wn)
    except Exception as e:
        if not common.in_repo(e): raise
        part.violation("writer fails after %s" % last, "%s: %s" % (case, common.exc_text(e)), case)
    finally: shutil.rmtree(d, ignore_errors=True)
    part.sample(case)


def replay(case):
    p = common.Part(); one((case["world"], case["units"], case["origin"], tuple(tuple(h) for h in case["hist"])), p); return p.violations


def run(ctx):
    items = []
    hs = [()] + [(h,) for h in HIST] + list(itertools.product(HIST, repeat=2)) + (list(itertools.product(HIST, repeat=3)) if ctx.thorough else [])
    for wn in worlds():
        for u in NOA:
            for o in ORIGINS:
                deep = (wn in ("sse", "plain") and (u, o) in (("pckms", "cluster"), ("kpckms", "galaxy"), ("nbody", "centre")))
                for h in hs:
                    if len(h) > (3 if deep else 2 if ctx.thorough else 1): continue
                    if len(h) == 2 and not ctx.thorough and not (deep and wn == "sse"): continue
                    items.append((wn, u, o, h))
    ctx.pmap(one, items, chunk=8)
    ctx.bounds = dict(worlds=list(worlds()), units=NOA, origins=ORIGINS, histories="all of length <= %d" % (3 if ctx.thorough else 2), writers=["snapout x energies x radec", "gyrout x eps", "sseout", "fortout x reset x sse"])
    ctx.assumptions = ["sseout prints six decimals"]
    ctx.explanation = "all histories up to a depth on the real cluster; after each, every writer with every option, parsed independently and read back with the real loader"
