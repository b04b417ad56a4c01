"""C18  finding and setting the cluster's centre: every sequence of centre searches (all methods, subsets,
starting points, limits), moves and conversions, against the point computed from the physical stars."""
import copy, itertools
import numpy as np
import clustertools as ct
from . import common, world, explore, oracle
from .world import UNITS, ORIGINS
from .c01 import check_cart

# a clump away from the mean, a loose halo and stray stars: every method finds another point
R = np.random.RandomState(5)
CL = [(0.5 + 0.05 * i,) + tuple(np.round(np.array([1.5, -0.8, 0.6]) + R.uniform(-.4, .4, 3), 3)) + tuple(np.round(R.uniform(-1, 1, 3) + [0.4, 0.2, -0.1], 3)) for i in range(9)]
HA = [(0.3 + 0.11 * i,) + tuple(np.round(R.uniform(-6, 6, 3), 3)) + tuple(np.round(R.uniform(-2, 2, 3), 3)) for i in range(8)]
ST = [(1.9, 25.0, -14.0, 9.0, 3.0, 1.0, -2.0), (1.1, -31.0, 22.0, 17.0, -2.0, 0.4, 1.0)]
STARS = [s for t in zip(CL, HA) for s in t] + [CL[8]] + ST


def worlds():
    W = lambda **k: world.World(STARS, **k)
    return {"std": W(), "solar8": W(ro=8.0, vo=220., gc=(-2., 9., 3., 150., 60., -40.), zmbar=30., rbar=2.5), "no orbit": W(gc=(0,) * 6, centre=(0,) * 6)}


HALF = np.arange(len(STARS)) % 3 != 1
FIND = {   # name: (method of StarCluster / function, keywords in physical units, oracle)
    "mass": ("find_centre_of_mass", {}, lambda o, s: o.com()),
    "harfst": ("find_centre_of_density", dict(nsphere=5, rmin=0.05), lambda o, s: o.cod_harfst(5, s, 0.05)),
    "harfst start rmax": ("find_centre_of_density", dict(nsphere=3, rmin=0.2, rmax=12.0, start=True), lambda o, s: o.cod_harfst(3, s, 0.2, rmax=12.0)),
    "harfst nmax": ("find_centre_of_density", dict(nsphere=2, rmin=0.01, nmax=3), lambda o, s: o.cod_harfst(2, s, 0.01, nmax=3)),
    "harfst subset": ("find_centre_of_density", dict(nsphere=4, rmin=0.1, indx=HALF), lambda o, s: o.cod_harfst(4, s, 0.1, sel=HALF)),
    "casertano": ("find_centre_of_density", dict(method="casertano"), lambda o, s: o.cod_casertano()),
    "casertano 4": ("find_centre_of_density", dict(method="casertano", nneighbour=4), lambda o, s: o.cod_casertano(4)),
    "casertano subset": ("find_centre_of_density", dict(method="casertano", indx=HALF), lambda o, s: sub(o).cod_casertano()),
    "density": ("find_centre", dict(nsphere=5, rmin=0.05), lambda o, s: o.cod_harfst(5, s, 0.05)),
    "density start": ("find_centre", dict(nsphere=3, rmin=0.2, rmax=12.0, nmax=6, start=True), lambda o, s: o.cod_harfst(3, s, 0.2, rmax=12.0, nmax=6)),
    "density casertano": ("find_centre", dict(method="casertano", nneighbour=5), lambda o, s: o.cod_casertano(5)),
    "density casertano subset": ("find_centre", dict(method="casertano", indx=HALF), lambda o, s: sub(o).cod_casertano()),
    "core": ("find_centre", dict(density=False, nsphere=6), lambda o, s: core(o, s, 6, 1.0)),
    "core start nsigma": ("find_centre", dict(density=False, nsphere=4, nsigma=1.4, start=True), lambda o, s: core(o, s, 4, 1.4)),
    "core subset": ("find_centre", dict(density=False, nsphere=4, indx=HALF), lambda o, s: core(o, s, 4, 1.0, HALF)),
}
START = np.array([1.1, -0.5, 0.3, 0.2, 0.1, -0.1])      # about the clump, pc and km/s from the catalogued position


def sub(o):
    w = o.w.copy(); w.stars = w.stars[HALF]
    return oracle.O(w, o.frame)


def core(o, s, nsphere, nsigma, sel=None):
    """centre of mass of the stars left when those beyond nsigma deviations are dropped until nsphere would remain"""
    k = np.arange(o.n) if sel is None else np.flatnonzero(sel)
    X = o.X[k] - s[:3]; r = np.sqrt((X ** 2).sum(1))
    while len(k) > nsphere:
        q = r < nsigma * r.std()
        if q.sum() <= nsphere: break
        if q.all(): break
        k, X = k[q], X[q] - X[q].mean(0); r = np.sqrt((X ** 2).sum(1))
    M = o.m[k].sum()
    return np.concatenate([(o.m[k, None] * o.X[k]).sum(0), (o.m[k, None] * o.V[k]).sum(0)]) / M


def start(w, origin):
    s = START.copy()
    if origin == "centre": s -= w.centre
    elif origin == "galaxy": s = s + np.concatenate([1000. * w.gc[:3], w.gc[3:]])
    return s


def ops(c, m):
    o = [("origin", g) for g in ORIGINS if g != m["origin"]]
    if m["noorbit"] and not m["set"]: o = []                    # moves need an orbit
    o += [("units", u) for u in ("pckms", "nbody", "kpcgyr", "galpy") if u != m["units"]]
    for k in FIND:
        for how in ("m", "mr", "f"):
            if how == "mr" and m["origin"] != "galaxy": continue
            o.append(("find", k, how))
    return o


def apply_(op, c, m):
    c = copy.deepcopy(c); m = dict(m, w=m["w"].copy(), bad=[]); w = m["w"]; u = m["units"]
    if op[0] == "origin": c.to_origin(op[1]); m["origin"] = op[1]
    elif op[0] == "units": getattr(c, "to_" + op[1])(); m["units"] = op[1]
    else:
        f, kw, ref = FIND[op[1]]; kw = dict(kw); L, V = (1.0, 1.0) if u == "amuse" else w.factors(u)[:2]
        s = np.zeros(6)
        if kw.pop("start", False):
            s = start(w, m["origin"])
            kw.update(xstart=s[0] / L, ystart=s[1] / L, zstart=s[2] / L, vxstart=s[3] / V, vystart=s[4] / V, vzstart=s[5] / V)
        for k in ("rmin", "rmax"):
            if k in kw: kw[k] /= L
        if "indx" in kw: kw["indx"] = kw["indx"].copy()
        o = oracle.O(w, m["origin"]); e = np.array(ref(o, s), float)
        if op[2] == "f": r = getattr(ct, f)(c, **kw)
        else: r = getattr(c, f)(reset_centre=op[2] == "mr", **kw)
        g = np.array([float(world.num(v)) for v in r]) * np.array([L] * 3 + [V] * 3)
        sc = np.abs(o.X).max(), np.abs(o.V).max()
        if g.shape != (6,) or np.abs(g[:3] - e[:3]).max() > 2e-7 * sc[0] or np.abs(g[3:] - e[3:]).max() > 2e-7 * sc[1]: m["bad"].append(("centre found: %s" % op[1], "%s instead of %s" % (g, e)))
        if u == "amuse" and not all(hasattr(v, "value_in") for v in r): m["bad"].append(("centre of an AMUSE cluster has no units", str(r)))
        if op[2] != "f":
            if m["origin"] == "cluster": w.centre = e
            elif m["origin"] == "galaxy":
                gc = np.concatenate([1000. * w.gc[:3], w.gc[3:]])
                if op[2] == "mr" or (m["noorbit"] and not m["set"]):
                    w.stars[:, 1:7] += gc - e; w.centre = np.zeros(6); w.gc = e.copy(); w.gc[:3] /= 1000.; m["set"] = True
                else: w.centre = e - gc
    return c, m


def check(c, m, op, h):
    bad = list(m["bad"]) + check_cart(c, m["w"], m["units"], m["origin"], 2e-6)
    return bad


def seq(item, part):
    wn, u, g, depth, first = item
    w = worlds()[wn]
    with common.quiet(): c = w.build(u, g)
    m = dict(units=u, origin=g, w=w, bad=[], noorbit=wn == "no orbit", set=False)
    st = dict(world=wn, units=u, origin=g, first=first)
    if first is not None:
        try:
            with common.quiet(): c, m = apply_(first, c, m)
            b = check(c, m, first, [first])
        except Exception as e:
            if not common.in_repo(e): raise
            b = [("%s fails" % " ".join(first), common.exc_text(e))]
        for k, t in b: part.violation(k, "%s after %s: %s" % (st, first, t), dict(start=st, ops=[]))
        part.transitions += 1
        if b: return
    explore.bfs((c, m), ops, apply_, lambda i, mm: (world.canon(i, ("orbit", "orbits"))[0], mm["units"], mm["origin"]), check, part, max_depth=depth - (first is not None), start_desc=st)
    part.traces += 1; part.outcome(wn, u, g, str(first))


def replay(case):
    s = case["start"]; w = worlds()[s["world"]]; c = w.build(s["units"], s["origin"])
    m = dict(units=s["units"], origin=s["origin"], w=w, bad=[], noorbit=s["world"] == "no orbit", set=False)
    h = ([s["first"]] if s.get("first") else []) + list(case["ops"])
    try:
        for o in h:
            with common.quiet(): c, m = apply_(tuple(o), c, m)
            b = check(c, m, tuple(o), h)
            if b: return [common.V(k, t, case) for k, t in b]
    except Exception as e: return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]
    return []


def run(ctx):
    items = []
    for wn in worlds():
        for u in UNITS:
            for g in (ORIGINS if wn != "no orbit" else ("galaxy",)): items.append((wn, u, g, 1, None))
    deep = [("std", u, g) for u in UNITS for g in ORIGINS] + [("solar8", "kpckms", "galaxy")]
    deep += [("no orbit", u, "galaxy") for u in (UNITS if ctx.thorough else ("pcmyr",))]
    for d in deep:
        w = worlds()[d[0]]
        for f in ops(None, dict(units=d[1], origin=d[2], noorbit=d[0] == "no orbit", set=False)): items.append(d + (2, f))
    if ctx.thorough:
        for f in ops(None, dict(units="pckms", origin="cluster", noorbit=False, set=False)): items.append(("std", "pckms", "cluster", 3, f))
        for f in ops(None, dict(units="kpckms", origin="galaxy", noorbit=False, set=False)): items.append(("solar8", "kpckms", "galaxy", 3, f))
    ctx.pmap(seq, items)
    ctx.bounds = dict(worlds=list(worlds()), units=UNITS, origins=ORIGINS, searches=list(FIND), sequence_length=3 if ctx.thorough else 2)
    ctx.assumptions = ["searches in sky coordinates are not claimed"]
    ctx.explanation = "BFS over sequences of centre searches, moves and conversions on the real object; each point found is compared with an independent search among the physical stars"
