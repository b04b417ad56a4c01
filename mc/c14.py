"""C14  rescaling a cluster (reset_nbody_scale, virialize, add_rotation): every sequence,
interleaved with conversions, with every outcome of the random draws, against physical numbers."""
import copy, itertools
import numpy as np
import clustertools as ct
from . import common, world, explore, oracle
from .world import UNITS, ORIGINS
from .c01 import check_cart

NOA = [u for u in UNITS if u != "amuse"]


def worlds():
    W = world.world5
    return {"w5": W(), "w5b": W(binaries=world.BIN2, ids=[1, 3, 5, 6, 7]), "scaled": W(ro=8.0, vo=220., zmbar=3.0, rbar=40.0, centre=(0, 0, 0, 0, 0, 0)),
            "three": world.World(world.STARS5[:3]), "rot": World_rot()}


def World_rot():
    """stars in all four quadrants, both senses of rotation, one with no rotation at all"""
    s = [(1.0, 1.0, 0.2, 0.1, -0.3, 0.9, 0.2), (0.8, -1.3, 0.4, -0.5, 0.4, 0.8, -0.1), (1.3, -0.6, -1.7, 0.4, -1.0, 0.2, 0.5), (0.5, 0.9, -2.2, -0.7, -0.8, -0.6, 0.3), (2.0, 2.6, 0.8, 0.9, -0.2, -0.7, -0.6)]
    return world.World(s, centre=(0.2, 0.1, -0.1, 0.1, -0.2, 0.1))


def frame(origin): return "centre" if origin == "galaxy" else origin


def ops(c, m):
    o = []
    for u in ("pckms", "nbody", "kpcgyr", "galpy"):
        if u != m["units"]: o.append(("units", u))
    for g in ORIGINS:
        if g != m["origin"]: o.append(("origin", g))
    o += [("reset", True, True, True, False), ("reset", True, False, True, False), ("reset", False, True, True, False), ("reset", True, True, False, False), ("reset", False, True, False, True), ("reset", False, True, True, True)]
    o += [("vir", 0.5, {}), ("vir", 1.3, {}), ("vir", 0.5, dict(full=False)), ("vir", 0.7, dict(specific=False)), ("vir", 0.5, dict(projected=True)), ("vir", 0.5, dict(softening=True))]
    o += [("rot", 0.5, d) for d in m["draws"]] + [("rot", 1.0, m["draws"][0]), ("rot", 0.0, m["draws"][0])]
    o += [("energies",), ("edit",), ("add",)]
    return o


def draws(n, full):
    """every outcome of the random selection of stars"""
    if full: return [tuple(0.25 if b else 0.75 for b in p) for p in itertools.product((0, 1), repeat=n)]
    return [tuple(0.25 if (i + k) % 2 else 0.75 for i in range(n)) for k in (0, 1)]


class Draw:
    """stands in for the random numbers the code asks for"""
    def __init__(self, v): self.v = v
    def __enter__(self):
        self.old = (np.random.rand, np.random.random, np.random.uniform, np.random.random_sample)
        def f(*a, **k):
            n = a[0] if a else k.get("size", len(self.v))
            return np.resize(np.array(self.v), n)
        def uni(lo=0.0, hi=1.0, size=None): return lo + (hi - lo) * f(size)
        np.random.rand = np.random.random = np.random.random_sample = f; np.random.uniform = uni
    def __exit__(self, *a): np.random.rand, np.random.random, np.random.uniform, np.random.random_sample = self.old


def apply_(op, c, m):
    m = dict(m); w = m["w"] = m["w"].copy(); m["bad"] = []
    k = op[0]
    if k == "units": getattr(c, "to_" + op[1])(); m["units"] = op[1]
    elif k == "origin": getattr(c, "to_" + op[1])(); m["origin"] = op[1]
    elif k == "energies": c.energies()
    elif k == "edit":
        c.vx, c.vy, c.vz = c.vx * 1.5, c.vy * 1.5, c.vz * 1.5; c.analyze(sortstars=True)
        X, V = w.xyz(m["origin"]); w.stars[:, 4:7] += 0.5 * V
    elif k == "add":
        f = w.factors(m["units"]); s = np.array([0.9, -1.1 - len(w.stars) * 0.7, -0.8, 2.2, 0.3, -0.9, 0.4])
        X, V = w.xyz(m["origin"]); off = np.concatenate([X[0] - w.stars[0, 1:4], V[0] - w.stars[0, 4:7]]); r = s.copy(); r[1:] += off
        c.add_stars(r[1] / f[0], r[2] / f[0], r[3] / f[0], r[4] / f[1], r[5] / f[1], r[6] / f[1], r[0] / f[2], sortstars=True, analyze=True)
        w.stars = np.vstack([w.stars, s])
        m["draws"] = [d + (0.25,) for d in m["draws"]]
    elif k == "reset":
        _, mass, radii, rv, pro = op
        o = oracle.O(w, frame(m["origin"]))
        z = w.stars[:, 0].sum() if mass else w.zmbar
        if not radii: r = w.rbar
        elif rv: r = o.rvir(pro)
        else: r = 4. / 3. * o.lagr(0.5, pro)
        c.reset_nbody_scale(mass=mass, radii=radii, rvirial=rv, projected=pro)
        v = 0.06557 * np.sqrt(z / r); t = r / (1.0227 * v)
        for n, e in (("zmbar", z), ("rbar", r), ("vbar", v), ("tbar", t)):
            if not common.close(float(getattr(c, n)), e, 1e-3): m["bad"].append(("%s after reset_nbody_scale" % n, "%r, expected %r" % (getattr(c, n), e)))
        w.zmbar, w.rbar, w.vbar, w.tbar = float(c.zmbar), float(c.rbar), float(c.vbar), float(c.tbar); w._fac = None
        if not common.close([w.zmbar, w.rbar], [z, r], 1e-6): m["bad"].append(("scale after reset_nbody_scale", "%r, expected %r" % ((w.zmbar, w.rbar), (z, r))))
    elif k == "vir":
        kw = dict(op[2]); f = w.factors(m["units"]); soft = 0.0
        if kw.pop("softening", None): soft = 0.2; kw["softening"] = soft / f[0]
        o = oracle.O(w, frame(m["origin"]))
        kin, pot = o.energies(kw.get("specific", True), kw.get("projected", False), soft)
        q = np.sqrt(abs(op[1] / (kin.sum() / (pot.sum() / 2))))
        c.virialize(op[1], **kw)
        qv = float(c.qv)
        if not common.close(qv, q, 4e-3): m["bad"].append(("scaling factor of virialize", "%r, expected %r" % (qv, q)))
        X, V = w.xyz(frame(m["origin"])); w.stars[:, 4:7] += (qv - 1) * V
        with common.quiet():
            d = copy.deepcopy(c)
            if m["origin"] == "galaxy": d.to_centre()
            d.energies(**kw)
        if not common.close(abs(float(d.qvir)), op[1], 1e-6): m["bad"].append(("virial ratio after virialize", "%r, asked for %r" % (d.qvir, op[1])))
    elif k == "rot":
        o = oracle.O(w, frame(m["origin"]))
        with Draw(op[2]): c.add_rotation(op[1])
        R = np.hypot(o.x, o.y); vt = (o.x * o.vy - o.y * o.vx) / R
        flip = (vt < 0) & (np.array(op[2]) < op[1])
        for i in np.where(flip)[0]:
            t = np.array([-o.y[i], o.x[i]]) / R[i]
            w.stars[i, 4:6] += -2 * vt[i] * t
    return c, m


def check(c, m, op, h):
    bad = list(m["bad"]) + check_cart(c, m["w"], m["units"], m["origin"])
    if bad or op is None or op[0] not in ("vir", "rot", "reset"): return bad
    L, Vf, M, T = m["w"].factors(m["units"])
    o = oracle.O(m["w"], m["origin"])
    for n, e in (("r", o.r() / L), ("v", o.v() / Vf), ("rpro", o.r(True) / L), ("vpro", o.v(True) / Vf)):
        if not common.close(getattr(c, n), e, 1e-6, scale=np.max(np.abs(e))): bad.append(("%s after %s" % (n, op[0]), "%s, expected %s" % (getattr(c, n), e)))
    if not common.close([float(c.mtot)], [o.m.sum() / M], 1e-6): bad.append(("mtot after %s" % op[0], "%r, expected %r" % (c.mtot, o.m.sum() / M)))
    return bad


def one(item, part):
    wn, units, origin, depth, first, full = item
    w = worlds()[wn]
    with common.quiet(): c = w.build(units, origin)
    start = dict(world=wn, units=units, origin=origin)
    m = dict(units=units, origin=origin, w=w, bad=[], draws=draws(len(w.stars), full))
    if first is not None:                        # one subtree of the tree of sequences
        try:
            with common.quiet(): c, m = apply_(first, c, m)
        except Exception as e:
            if not common.in_repo(e): raise
            part.violation("exception %s in %s" % (type(e).__name__, first[0]), "%s %s: %s" % (start, first, common.exc_text(e)), dict(start=start, first=None, ops=[first])); return
        b = check(c, m, first, [first])
        for key, msg in b: part.violation(key, "%s after %s: %s" % (start, first, msg), dict(start=start, first=None, ops=[first]))
        part.transitions += 1
        if b: return
        m = dict(m, draws=m["draws"][:2] if not full else m["draws"])
    start["first"] = first

    def enabled(i, mm):
        r = ops(i, mm)
        if len(mm["w"].stars) > 6: r = [o for o in r if o[0] != "add"]
        if mm["w"].binaries is not None: r = [o for o in r if o[0] != "add"]
        return r

    def canon(i, mm): return (world.canon(i)[0], mm["units"], mm["origin"])
    explore.bfs((c, m), enabled, apply_, canon, check, part, max_depth=depth - (first is not None), start_desc=start)
    part.traces += 1
    part.outcome(wn, units, origin, str(first))


def replay(case):
    s = case["start"]; w = worlds()[s["world"]]; c = w.build(s["units"], s["origin"])
    m = dict(units=s["units"], origin=s["origin"], w=w, bad=[], draws=draws(len(w.stars), False))
    T = lambda o: tuple(tuple(x) if isinstance(x, list) else x for x in o)
    seq = ([s["first"]] if s.get("first") else []) + list(case["ops"])
    try:
        for o in seq:
            with common.quiet(): c, m = apply_(T(o), c, m)
            b = check(c, m, T(o), seq)
            if b: return [common.V(k, msg, case) for k, msg in b]
        return []
    except Exception as e: return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]


def run(ctx):
    items = []
    for wn in worlds():                           # every outcome of the draws, one operation deep
        for u in (NOA if ctx.thorough or wn in ("w5", "w5b") else ["pckms", "nbody"]):
            for g in ORIGINS: items.append((wn, u, g, 1, None, True))
    w = worlds()["w5"]
    for wn in (("w5", "rot", "w5b", "scaled") if ctx.thorough else ("w5", "w5b")):
        for u, g in ([(u, g) for u in ("pckms", "nbody", "kpcgyr", "galpy") for g in ORIGINS] if ctx.thorough else [(u, g) for u in ("pckms", "nbody", "kpcgyr", "galpy") for g in ORIGINS]):
            m = dict(units=u, origin=g, draws=draws(5, False), w=worlds()[wn])
            for f in ops(None, m):
                if f[0] == "add" and worlds()[wn].binaries is not None: continue
                items.append((wn, u, g, 3 if ctx.thorough else 2, f, False))
    ctx.pmap(one, items)
    ctx.bounds = dict(worlds=list(worlds()), units=NOA, origins=ORIGINS, sequence_length=3 if ctx.thorough else 2, random_outcomes="all 2^n selections (single operations), two complementary ones in sequences")
    ctx.assumptions = ["gravitational constants of the unit systems agree to 4e-3"]
    ctx.explanation = "BFS over sequences of rescaling operations and conversions on the real cluster; random draws are an enumerated input"
