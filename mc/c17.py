"""C17  coordinate transforms: every lattice position (axes, poles, planes and the origin included) x every
lattice velocity x argument form, directly, there and back, and through every chain of frames; and the
coordinates of clusters with stars in such places, in every unit system and origin."""
import itertools
import numpy as np
import clustertools as ct
from clustertools.util import coordinates as C
from . import common, world, oracle
from .world import UNITS, ORIGINS

NOA = [u for u in UNITS if u != "amuse"]
PV, VV = (-2.0, -0.3, 0.0, 1.1, 1e3), (-1.5, 0.0, 0.7)
POS = [p for p in itertools.product(PV, repeat=3)]
VEL = [v for v in itertools.product(VV, repeat=3)]
SUNS = [dict(), dict(ro=8.0, vo=220.0, zo=0.025, solarmotion=[-11.1, 12.24, 7.25]), dict(ro=8.4, vo=242.0, zo=0.0, solarmotion=[0.0, 5.0, 1.0]), dict(ro=7.7, vo=225.0, solarmotion=[-9.0, 14.0, 6.0])]


def sph(P, V):
    """spherical coordinates and the matrix of unit vectors (r, phi, theta)"""
    x, y, z = P; R = np.hypot(x, y); r = np.sqrt(x * x + y * y + z * z)
    phi = np.arctan2(y, x); th = np.arctan2(R, z)
    B = np.array([[np.cos(phi) * np.sin(th), np.sin(phi) * np.sin(th), np.cos(th)], [-np.sin(phi), np.cos(phi), 0.0], [np.cos(phi) * np.cos(th), np.sin(phi) * np.cos(th), -np.sin(th)]])
    return np.array([r, phi, th] + list(B @ V))


def cyl(P, V):
    x, y, z = P; phi = np.arctan2(y, x); B = np.array([[np.cos(phi), np.sin(phi), 0], [-np.sin(phi), np.cos(phi), 0], [0, 0, 1.0]])
    v = B @ V
    return np.array([np.hypot(x, y), phi, z, v[0], v[1], v[2]])


ANG = {"sphere": (1, 2), "cyl": (1,)}
TO = {"sphere": ("cart_to_sphere", "sphere_to_cart", sph), "cyl": ("cart_to_cyl", "cyl_to_cart", cyl)}


def near(g, e, kind=None, rel=1e-9):
    g, e = np.array([np.broadcast_to(np.asarray(a, float), np.shape(e[i])) for i, a in enumerate(g)]), np.asarray(e, float)
    if g.shape != e.shape or not np.isfinite(g).all(): return False
    for i in range(6):
        d = g[i] - e[i]
        if kind and i in ANG[kind]:
            d = (d + np.pi) % (2 * np.pi) - np.pi; s = 1.0
        else: s = np.maximum(np.abs(e[:3]).max(0) if i < 3 else 3.0, 1e-9)
        if np.any(np.abs(d) > rel * s + 1e-12): return False
    return True


def lattice(item, part):
    kind, pos, form = item
    fwd, back, ref = getattr(C, TO[kind][0]), getattr(C, TO[kind][1]), TO[kind][2]
    case = dict(lattice=[kind, list(pos), form])
    A = np.array([list(pos) + list(v) for v in VEL]).T
    E = np.array([ref(a[:3], a[3:]) for a in A.T]).T
    runs = [tuple(a.copy() for a in A)] if form == "array" else [tuple(np.array([q]) for q in a) for a in A.T] if form == "one" else [tuple(float(q) for q in a) for a in A.T] if form == "float" else [tuple(np.float64(q) for q in a) for a in A.T]
    for k, a in enumerate(runs):
        part.states += len(np.atleast_1d(a[0])); part.transitions += 2 * len(np.atleast_1d(a[0]))
        e = E if form == "array" else E[:, k:k + 1] if form == "one" else E[:, k]; src = A if form == "array" else A[:, k:k + 1] if form == "one" else A[:, k]
        keep = [np.copy(q) for q in a]
        try:
            with common.quiet(): g = fwd(*a); b = back(*[np.copy(q) if form in ("array", "one") else float(q) for q in g])
        except Exception as ex: part.violation("%s fails" % TO[kind][0], "%s: %s" % (case, common.exc_text(ex)), case); return
        if len(g) != 6 or not near(g, e, kind): part.violation(TO[kind][0], "%s: %s instead of %s" % (case, g, e), case); return
        if kind == "sphere" and (np.any(np.asarray(g[2]) < 0) or np.any(np.asarray(g[2]) > np.pi)): part.violation("polar angle out of range", "%s: %s" % (case, g[2]), case)
        if not near(b, src): part.violation("%s of %s is not the start" % (TO[kind][1], TO[kind][0]), "%s: %s instead of %s" % (case, b, src), case); return
        s2 = np.asarray(g[3]) ** 2 + np.asarray(g[4]) ** 2 + np.asarray(g[5]) ** 2
        if not common.close(s2, (src[3:] ** 2).sum(0), 1e-9, 1e-12, scale=3.0): part.violation("speed changed by %s" % TO[kind][0], "%s: %s" % (case, s2), case)
        if form == "array":
            if any(not np.array_equal(p, q) for p, q in zip(keep, a)): part.violation("%s changes its arguments" % TO[kind][0], str(case), case)
            h = [np.copy(q) for q in g]
            for q in g[3:]: q += 1.0                         # results are the caller's own
            if any(not np.array_equal(p, q) for p, q in zip(keep, a)): part.violation("%s hands back its arguments" % TO[kind][0], str(case), case)
            part.outcome(kind, np.round(h[0], 6).tobytes())
    part.traces += 1


def chain(item, part):
    """cart -> f1 -> cart -> f2 ... : the phase-space points return"""
    kinds, = item
    A = np.array([p + v for p in POS for v in VEL[::5]]).T
    b = tuple(a.copy() for a in A)
    with common.quiet():
        for k in kinds: b = getattr(C, TO[k][1])(*[np.copy(q) for q in getattr(C, TO[k][0])(*b)])
    part.states += 1; part.transitions += 2 * len(kinds) * A.shape[1]; part.traces += 1
    if not near(b, A, rel=1e-8): part.violation("coordinates do not return", "%s" % (kinds,), dict(chain=list(kinds)))


def sky(item, part):
    """phase-space points on the sky for several suns, against galpy given the same point"""
    si, k = item
    s = SUNS[si]; w = world.World([(1.0,) + (0,) * 6], **s)
    P = [p for p in itertools.product((-9.0, -1.2, 3.0, 12.0), (-7.0, 0.0, 2.5), (-4.0, 0.0, 1.3))]; V = [(-150., 80., 20.), (10., 220., -5.), (60., -100., 170.)]
    A = np.array([p + V[(i + k) % 3] for i, p in enumerate(P)]).T
    o = w._orbit(A[:3].T, A[3:].T)
    e = np.array([o.ra(), o.dec(), o.dist(), o.pmra(), o.pmdec(), o.vlos()])
    case = dict(sky=[si, k])
    part.states += A.shape[1]; part.transitions += 2 * A.shape[1]; part.traces += 1
    with common.quiet():
        g = np.array(C.cart_to_sky(*[a.copy() for a in A], **s)); one = np.array([np.ravel(np.array(C.cart_to_sky(*[float(q) for q in a], **s), float)) for a in A.T[::5]]).T
    if not common.close(g, e, 1e-7): part.violation("cart_to_sky", "%s: %s instead of %s" % (case, g, e), case)
    if one.shape != e[:, ::5].shape or not common.close(one, e[:, ::5], 1e-7): part.violation("cart_to_sky of one point", str(case), case)


def special():
    """stars at the centre, on the axes and in the planes of the centred frame"""
    rows = [(1.0 + 0.1 * i,) + p + v for i, (p, v) in enumerate(zip([(0, 0, 0), (2., 0, 0), (-2., 0, 0), (0, 3., 0), (0, -1., 0), (0, 0, 1.5), (0, 0, -2.5), (1., 1., 0), (-1., 0, 2.), (0, -1., -1.), (1.2, -0.7, 0.4)],
                                                               [(1., 2., -1.)] + [VEL[(7 * j + 3) % 27] for j in range(10)]))]
    return {"centred": dict(stars=rows, centre=(0,) * 6), "gc on x": dict(stars=rows, centre=(0,) * 6, gc=(8.0, 0, 0, 0, 200., 0)), "off": dict(stars=rows, ro=8.0, vo=220.0, zo=0.01, zmbar=40., rbar=3.)}


def cluster(item, part):
    wn, u, g = item
    w = world.World(**special()[wn]); case = dict(cluster=list(item))
    with common.quiet(): c = w.build(u, g)
    L, Vf = (1.0, 1.0) if u == "amuse" else w.factors(u)[:2]
    X, V = w.xyz(g)
    for name, kind in (("sphere_coords", "sphere"), ("cyl_coords", "cyl")):
        part.states += 1; part.transitions += len(X)
        e = np.array([TO[kind][2](x, v) for x, v in zip(X, V)]).T
        if g == "centre" and wn == "off": pass
        e[0] /= L; e[3:] /= Vf
        if kind == "cyl": e[2] /= L
        try:
            with common.quiet(): r = [np.asarray(world.num(q), float) for q in getattr(ct, name)(c)]
        except Exception as ex: part.violation("%s fails" % name, "%s: %s" % (case, common.exc_text(ex)), case); continue
        bad = []
        for i in range(6):
            d = r[i] - e[i]; s = np.abs(e[i]).max() + 1e-12
            if i in ANG[kind]: d = (d + np.pi) % (2 * np.pi) - np.pi; s = 1.0
            # the direction of a star at rest in the origin, or on the polar axis to rounding, is arbitrary
            R = np.hypot(X[:, 0], X[:, 1]) if kind == "cyl" or i in (1, 4) else np.sqrt((X ** 2).sum(1)); sure = R > 1e-6
            if i in (0,) or (kind == "cyl" and i in (2, 5)): sure = np.ones(len(d), bool)
            if not np.isfinite(r[i]).all() or np.any(np.abs(d[sure]) > 2e-6 * s): bad.append(i)
        if bad: part.violation("%s of the stars" % name, "%s: components %s: %s instead of %s" % (case, bad, [r[i] for i in bad], [e[i] for i in bad]), case)
        v2 = sum(r[i] ** 2 for i in (3, 4, 5)); e2 = (V ** 2).sum(1) / Vf ** 2
        if not common.close(v2, e2, 1e-6): part.violation("%s changes speeds" % name, "%s: %s not %s" % (case, v2, e2), case)
    part.traces += 1; part.outcome(wn, u, g)


def replay(case):
    p = common.Part()
    for k, f in (("lattice", lattice), ("chain", chain), ("sky", sky), ("cluster", cluster)):
        if k in case: f((tuple(case["chain"]),) if k == "chain" else tuple(tuple(a) if isinstance(a, list) else a for a in case[k]), p)
    return p.violations


def run(ctx):
    ctx.pmap(lattice, [(k, p, f) for k in TO for p in POS for f in ("array", "one", "float", "np.float64")], chunk=20)
    ctx.pmap(chain, [(t,) for n in range(1, 7 if ctx.thorough else 4) for t in itertools.product(TO, repeat=n)])
    ctx.pmap(sky, [(i, k) for i in range(len(SUNS)) for k in range(3)])
    ctx.pmap(cluster, [(w, u, g) for w in special() for u in UNITS for g in ORIGINS], chunk=4)
    ctx.bounds = dict(positions="%d lattice points" % len(POS), velocities="%d lattice velocities" % len(VEL), forms=["array", "one", "float", "np.float64"], suns=len(SUNS), chains="up to %d conversions" % (6 if ctx.thorough else 3), clusters=list(special()), units=UNITS, origins=ORIGINS)
    ctx.assumptions = ["galpy's sky projection of one phase-space point is right"]
    ctx.explanation = "full product of lattice positions and velocities enumerated, all chains of frames to the stated length"
