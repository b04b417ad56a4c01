"""C12  the orbit of a cluster is one physical orbit: however it is given (any units, any cluster
state), stored, turned into orbit objects, or followed through time, in any sequence."""
import copy, itertools
import numpy as np
import clustertools as ct
from galpy.potential import MWPotential2014, PlummerPotential
from galpy.orbit import Orbit
from . import common, world, explore, oracle
from .world import UNITS, ORIGINS, KMS_TO_PCMYR
from .c01 import check_cart

NOA = [u for u in UNITS if u != "amuse"]
Q = ("x", "y", "z", "vx", "vy", "vz")
SKYQ = ("ra", "dec", "dist", "pmra", "pmdec", "vlos")
STARS = [(1.0, 30.0, -8.0, 4.0, 1.0, -2.0, 0.5), (0.7, -55.0, 21.0, -10.0, -1.4, 0.8, 0.3), (1.2, 11.0, 62.0, 7.0, 0.6, 1.9, -1.1), (0.4, -4.0, -90.0, -33.0, 0.2, -0.6, 1.7)]


def worlds():
    W = lambda **k: world.World(STARS, **k)
    return {"std": W(zmbar=900., rbar=20.), "solar8": W(ro=8.0, vo=220., zo=0.025, solarmotion=(-11.1, 12.24, 7.25), gc=(-2., 9., 3., 150., 60., -40.), zmbar=3.7, rbar=5.), "still": W(centre=(0,) * 6, gc=(8.0, 0.4, 0.2, 3., 240., 1.))}


def POT(w):  return MWPotential2014
def CPOT(w): return PlummerPotential(amp=3.e-6, b=0.02)


def T(w, t):
    """Myr -> galpy time"""
    return t / w.factors("galpy")[3]


def point(w, X, V): return w._orbit(X, V)      # kpc, km/s


def six(o, ts=None, sky=False):
    names = SKYQ if sky else Q
    return np.array([np.squeeze(getattr(o, n)() if ts is None else getattr(o, n)(ts)) for n in names], float)


def follow(w, X, V, t, pot, sky=False):
    o = point(w, X, V)
    ts = np.linspace(0, T(w, t), 1001); o.integrate(ts, pot)
    return six(o, ts[-1], sky)


def conv(w, six_, units, sky=False):
    """kpc, km/s -> units"""
    if sky: return np.asarray(six_, float)
    L, Vf, M, _ = w.factors(units); s = np.array(six_, float)
    s[:3] *= 1000. / L; s[3:] /= Vf
    return s


def plain(vals):
    """numbers (pc, km/s for AMUSE quantities)"""
    return np.array([np.squeeze(np.asarray(world.num(v), float)) for v in vals], float)


def same(got, exp, rel=1e-6):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if got.shape != exp.shape: return False
    a = np.abs(exp[:3]).max() * rel; b = max(np.abs(exp[3:6]).max() * rel, 1e-12)
    return bool((np.abs(got[:3] - exp[:3]) <= a).all() and (np.abs(got[3:6] - exp[3:6]) <= b).all())


# ---------------------------------------------------------------- giving an orbit
def give(w, gc, tphys, ou):
    """(six values, time) of the orbit in ounits"""
    if ou == "radec": return list(six(point(w, gc[:3], gc[3:]), None, True)), tphys / 1000.
    v = conv(w, gc, "pckms" if ou == "amuse" else ou); t = tphys / w.factors("pckms" if ou == "amuse" else ou)[3]
    if ou == "amuse":
        u = world.u
        return [x | u.parsec for x in v[:3]] + [x | u.kms for x in v[3:]], t | u.Myr
    return list(v), t


GCS = [np.array([5.0, -3.0, 1.5, -50.0, 180.0, 20.0]), np.array([-0.7, 12.0, -4.0, 90.0, -30.0, 110.0])]


def given(item, part):
    wn, u, o, ou, time, init, gi, form = item
    case = dict(kind="given", item=list(item))
    w = worlds()[wn].copy(); gc = GCS[gi]
    try:
        with common.quiet():
            c = w.build(u if u != "radec" else "kpckms", "cluster" if u == "radec" else o)
            if u == "radec": c.to_sky()
            vals, t = give(w, gc, 777.0, ou)
            if form == "array": vals = [np.array(v) if ou != "amuse" else v for v in vals]
            if form == "int": vals = [int(round(v)) for v in vals]; gc = np.array(vals, float) * np.array([w.factors(ou)[0] / 1000.] * 3 + [w.factors(ou)[1]] * 3)
            keep = [np.copy(v) if ou != "amuse" else v * 1.0 for v in vals]
            c.add_orbit(*vals, ounits=None if ou == u and init else ou, initialize=init, **(dict(tphys=t) if time else {}))
    except Exception as e:
        part.violation("add_orbit %s -> %s fails" % (ou, u), "%s: %s" % (case, common.exc_text(e)), case); return
    part.states += 1; part.transitions += 1; part.traces += 1
    w.gc = gc.copy()
    if time: w.tphys = 777.0
    if u == "radec":
        e = six(point(w, gc[:3], gc[3:]), None, True)
        for n in (["ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc"], ["xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"]):
            g = plain([getattr(c, a) for a in n])
            if not same(g, e): part.violation("orbit given in %s to a cluster in radec" % ou, "%s: %s instead of %s" % (case, g, e), case)
    else:
        g = plain([getattr(c, a + "gc") for a in Q]); e = conv(w, gc, "pckms" if u == "amuse" else u)
        if not same(g, e): part.violation("orbit given in %s to a cluster in %s" % (ou, u), "%s: %s instead of %s" % (case, g, e), case)
        r = float(world.num(c.rgc)); er = np.sqrt((e[:3] ** 2).sum())
        if not common.close([r], [er], 1e-6): part.violation("rgc for orbit in %s to %s" % (ou, u), "%s: %r instead of %r" % (case, r, er), case)
    t = float(world.num(c.tphys)); et = w.tphys / w.factors("pckms" if u == "amuse" else u)[3]
    if not common.close([t], [et], 1e-6): part.violation("time given in %s to a cluster in %s" % (ou, u), "%s: %r instead of %r" % (case, t, et), case)
    if any(not np.array_equal(np.asarray(world.num(a)), np.asarray(world.num(b))) for a, b in zip(vals, keep)): part.violation("add_orbit changes its arguments", str(case), case)
    if init:
        e = np.concatenate([gc]); g = six(c.orbit)
        if not same(g, e): part.violation("orbit object given in %s to a cluster in %s" % (ou, u), "%s: %s instead of %s" % (case, g, e), case)
    part.outcome("given", u, ou)


# ---------------------------------------------------------------- sequences
def tval(w, u, t):
    if u == "amuse": return t | world.u.Myr
    return t / w.factors(u)[3]


def ops(c, m, full=True):
    o = []
    u = m["units"]
    for a in ("pckms", "nbody", "kpcgyr", "WDunits", "galpy"):
        if a != u: o.append(("units", a))
    for g in ORIGINS:
        if g != m["origin"]: o.append(("origin", g))
    for ou in ("kpckms", "radec", "galpy"): o.append(("give", ou))
    o += [("init", False, "m"), ("init", True, "f"), ("inits", "m"), ("inits", "f")]
    o += [("interp", 30.0, "m"), ("interp", -12.0, "m"), ("interp", 30.0, "f"), ("interp", 20.0, "fc"), ("interp", 30.0, "oldf"), ("interp", -12.0, "oldm")]
    o += [("interps", 9.0, "m"), ("interps", 9.0, "f"), ("interps", -5.0, "oldf"), ("interps", 9.0, "oldm")]
    if u != "amuse": o += [("path", 15.0, False, False), ("path", 15.0, True, False), ("path", 15.0, False, True), ("path", None, False, False), ("match", 1.5, False), ("match", 1.5, True)]
    return o


def gcpos(w, fc):
    X = w.gc[:3].copy(); V = w.gc[3:].copy()
    if fc: X += w.centre[:3] / 1000.; V += w.centre[3:]
    return X, V


def fname(new, old):
    """the old spelling when the package still has it"""
    return getattr(ct, old, None) or getattr(ct, new)


def apply_(op, c, m):
    m = dict(m); w = m["w"] = m["w"].copy(); m["bad"] = bad = []
    k = op[0]; u = m["units"]; ru = "pckms" if u == "amuse" else u
    def exp(name, got, e, rel=1e-6):
        if not same(got, e, rel): bad.append((name, "%s instead of %s" % (got, e)))
    if k == "units": getattr(c, "to_" + op[1])(); m["units"] = op[1]
    elif k == "origin": getattr(c, "to_" + op[1])(); m["origin"] = op[1]
    elif k == "give":
        gc = GCS[1]; vals, _ = give(w, gc, 0, op[1])
        if m["origin"] == "galaxy":         # giving a new orbit moves nobody: stars stay where they are in the Galaxy
            w.stars[:, 1:4] += 1000. * (w.gc - gc)[:3]; w.stars[:, 4:7] += (w.gc - gc)[3:]
        w.gc = gc.copy(); c.add_orbit(*vals, ounits=op[1])
    elif k == "init":
        o = c.initialize_orbit(from_centre=op[1]) if op[2] == "m" else ct.initialize_orbit(c, from_centre=op[1])
        exp("initialize_orbit" + " from_centre" * op[1], six(o), np.concatenate(gcpos(w, op[1])))
        if op[2] == "m" and not np.array_equal(six(c.orbit), six(o)): bad.append(("stored orbit", ""))
        exp("sky of the orbit", six(o, None, True), six(point(w, *gcpos(w, op[1])), None, True))
    elif k == "inits":
        o = c.initialize_orbits() if op[1] == "m" else ct.initialize_orbits(c)
        X, V = w.xyz(m["origin"]); e = np.column_stack([X / 1000., V]).T
        exp("initialize_orbits", six(o), e)
    elif k == "interp":
        fc = op[2] == "fc"; X, V = gcpos(w, fc); e = follow(w, X, V, op[1], POT(w)); ec = conv(w, e, ru); t = tval(w, u, op[1])
        if op[2] == "m": g = c.interpolate_orbit(pot=POT(w), tfinal=t, nt=11)
        elif op[2] == "oldm": g = c.orbit_interpolate(pot=POT(w), tfinal=t, nt=11)
        elif op[2] == "oldf": g = fname("interpolate_orbit", "orbit_interpolate")(c, pot=POT(w), tfinal=t, nt=11)
        else: g = ct.interpolate_orbit(c, pot=POT(w), tfinal=t, nt=11, from_centre=fc)
        if g is not None: exp("interpolate_orbit " + op[2], plain(g), ec, 1e-5)
        if op[2] in ("m", "oldm"): w.gc = e.copy()
    elif k == "interps":
        gal = m["origin"] == "galaxy"; pot = POT(w) if gal else CPOT(w); t = tval(w, u, op[1])
        X, V = w.xyz(m["origin"]); e = np.array([follow(w, X[i] / 1000., V[i], op[1], pot) for i in range(len(X))]).T
        if op[2] == "m": g = c.interpolate_orbits(pot=pot, tfinal=t, nt=11)
        elif op[2] == "oldm": g = c.orbits_interpolate(pot=pot, tfinal=t, nt=11)
        elif op[2] == "oldf": g = fname("interpolate_orbits", "orbits_interpolate")(c, pot=pot, tfinal=t, nt=11)
        else: g = ct.interpolate_orbits(c, pot=pot, tfinal=t, nt=11)
        if g is not None: exp("interpolate_orbits " + op[2], plain(g), conv(w, e, ru), 1e-5)
        if op[2] in ("m", "oldm"):
            if gal:
                w.gc = follow(w, w.gc[:3], w.gc[3:], op[1], pot)
            off = np.zeros(6)
            if m["origin"] == "centre": off = w.centre.copy()
            elif gal: off = -w.gc * np.array([1000.] * 3 + [1.] * 3)
            w.stars[:, 1:4] = 1000. * e[:3].T + off[:3]; w.stars[:, 4:7] = e[3:].T + off[3:]
    elif k == "path":
        nt = 21; X, V = gcpos(w, op[2]); t = op[1] and tval(w, u, op[1]); tk = {} if t is None else dict(tfinal=t)
        if t is None: op = ("path", 100.0) + tuple(op[2:])          # the documented default
        r = c.orbital_path(nt=nt, **tk, pot=POT(w), from_centre=op[2], skypath=op[3])
        te = np.linspace(-op[1], op[1], nt)
        e = np.array([follow(w, X, V, a, POT(w), op[3]) if abs(a) > 1e-9 else six(point(w, X, V), None, op[3]) for a in te]).T
        g = plain(r[1:7])
        if not common.close(plain([r[0]])[0], te / w.factors(ru)[3], 1e-6, scale=op[1] / w.factors(ru)[3]): bad.append(("orbital_path times", "%s instead of %s" % (r[0], te / w.factors(ru)[3])))
        exp("orbital_path" + " sky" * op[3], g, conv(w, e, ru, op[3]), 1e-5)
        if getattr(c, "xpath", None) is None or not np.array_equal(plain([c.xpath])[0], g[0]): bad.append(("stored path", ""))
    elif k == "match":
        nt = 41; sky = op[2]; t = tval(w, u, op[1]); X, V = gcpos(w, False)
        te = np.linspace(-op[1], op[1], nt)
        P = np.array([follow(w, X, V, a, POT(w), sky) if abs(a) > 1e-9 else six(point(w, X, V), None, sky) for a in te]).T
        XG, VG = w.xyz("galaxy")
        S = six(point(w, XG / 1000., VG), None, True)[:3] if sky else (XG / 1000.).T
        d = S[:, :, None] - P[:3][:, None, :]
        dr = np.sqrt((d[:2] ** 2).sum(0)) if sky else np.sqrt((d ** 2).sum(0))
        i = dr.argmin(1)
        ts, dp, dq = c.orbital_path_match(tfinal=t, nt=nt, pot=POT(w), skypath=sky)
        L = 1.0 if sky else w.factors(ru)[0] / 1000.; tf = w.factors(ru)[3]
        if not common.close(np.asarray(ts, float), te[i] / tf, 1e-6, scale=op[1] / tf): bad.append(("matched times" + " sky" * sky, "%s instead of %s" % (ts, te[i] / tf)))
        if not common.close(np.abs(np.asarray(dq, float)), dr.min(1) / L, 1e-5, scale=dr.max() / L * 1e-2): bad.append(("distance from the path" + " sky" * sky, "%s instead of %s" % (dq, dr.min(1) / L)))
        ds = np.sqrt((np.diff(P[:2 if sky else 3]) ** 2).sum(0)); s = np.insert(np.cumsum(ds), 0, 0); s -= s[nt // 2]
        if not common.close(np.asarray(dp, float), s[i] / L, 1e-6, scale=2e4 * s.max() / L): bad.append(("distance along the path" + " sky" * sky, "%s instead of %s" % (dp, s[i] / L)))
        if not sky:
            Lz = np.cross(P[:3].T[i], P[3:].T[i]); sg = ((S.T - P[:3].T[i]) * Lz).sum(1)
            if not np.array_equal(np.sign(sg), np.sign(np.asarray(dq, float))): bad.append(("side of the path", "%s instead of %s" % (np.sign(dq), np.sign(sg))))
    return c, m


def check(c, m, op, h):
    bad = list(m["bad"])
    rel = 2e-6 if not any(o and o[0].startswith("interp") for o in (h or [])) else 2e-5
    bad += check_cart(c, m["w"], m["units"], m["origin"], rel) if c.units != "radec" else []
    if not bad and op is not None and op[0] in ("give", "interp", "interps"):
        if op[0] == "interps" and op[2] in ("m", "oldm"):
            L = m["w"].factors("pckms" if m["units"] == "amuse" else m["units"])[0]; r = oracle.O(m["w"], m["origin"]).r() / L
            if not common.close(np.asarray(world.num(c.r), float), r, 1e-5): bad.append(("radii after interpolate_orbits", "%s instead of %s" % (c.r, r)))
    return bad


def seq(item, part):
    wn, units, origin, depth, first = item
    w = worlds()[wn]
    with common.quiet(): c = w.build(units, origin)
    start = dict(world=wn, units=units, origin=origin)
    m = dict(units=units, origin=origin, w=w, bad=[])
    if first is not None:
        try:
            with common.quiet(): c, m = apply_(first, c, m)
            b = check(c, m, first, [first])
        except Exception as e:
            if not common.in_repo(e): raise
            b = [("%s fails (%s)" % (first[0] + " " + str(first[-1]), type(e).__name__), common.exc_text(e))]
        for key, msg in b: part.violation(key, "%s after %s: %s" % (start, first, msg), dict(start=start, ops=[first]))
        part.transitions += 1
        if b: return
    start["first"] = first
    explore.bfs((c, m), ops, apply_, lambda i, mm: (world.canon(i, ("orbit", "orbits"))[0], mm["units"], mm["origin"]), check, part, max_depth=depth - (first is not None), start_desc=start)
    part.traces += 1; part.outcome(wn, units, origin, str(first))


def sky(item, part):
    """the same questions asked of a cluster on the sky"""
    wn, what, t, g, fc = item
    case = dict(kind="sky", item=list(item))
    w = worlds()[wn]; P = MWPotential2014
    with common.quiet():
        c = w.build("kpckms", "cluster"); c.to_sky()
        if g != "sky": getattr(c, "to_" + g)()
    part.states += 1; part.transitions += 1; part.traces += 1
    bad = []; GX, GV = gcpos(w, fc); k = {} if not fc else dict(from_centre=True); skip = False
    X, V = w.xyz("galaxy"); nt = 11; te = np.linspace(-t, t, nt)
    def track(sk): return np.array([follow(w, GX, GV, a, P, sk) if abs(a) > 1e-9 else six(point(w, GX, GV), None, sk) for a in te]).T
    before = {a: np.copy(getattr(c, a)) for a in ("x", "y", "z", "vx", "vy", "vz", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc")}
    try:
        with common.quiet():
            if what == "init": got = six(c.initialize_orbit(**k)); e = np.concatenate([GX, GV])
            elif what == "inits": got = six(c.initialize_orbits()); e = np.column_stack([X / 1000., V]).T
            elif what in ("interp", "interpm"):
                got = plain((c.interpolate_orbit if what == "interpm" else lambda **q: ct.interpolate_orbit(c, **q))(pot=P, tfinal=t / 1000., nt=nt, **k)); e = follow(w, GX, GV, t, P, True)
                if what == "interpm":
                    g2 = plain([c.ra_gc, c.dec_gc, c.dist_gc, c.pmra_gc, c.pmdec_gc, c.vlos_gc])
                    if not same(g2, e, 1e-5): bad.append(("sky position of the cluster after interpolate_orbit", "%s instead of %s" % (g2, e)))
            elif what in ("interps", "interpsm"):
                got = plain((c.interpolate_orbits if what == "interpsm" else lambda **q: ct.interpolate_orbits(c, **q))(pot=P, tfinal=t / 1000., nt=nt)); e = np.array([follow(w, X[i] / 1000., V[i], t, P, True) for i in range(len(X))]).T
            elif what in ("path", "flatpath"):
                sk = what == "path"
                r = c.orbital_path(tfinal=t / 1000., nt=nt, pot=P, skypath=sk, **k)
                got = plain(r[1:7]); e = track(sk)
                if not common.close(np.asarray(r[0], float), te / 1000., 1e-6, scale=abs(t) / 1000.): bad.append(("path times", str(r[0])))
            elif what in ("match", "flatmatch"):
                sk = what == "match"; skip = True
                ts, dp, dq = ct.orbital_path_match(c, tfinal=t / 1000., nt=nt, pot=P, skypath=sk, **k)
                Q_ = track(sk); S = six(point(w, X / 1000., V), None, True)[:3] if sk else (X / 1000.).T
                d = S[:, :, None] - Q_[:3][:, None, :]; dr = np.sqrt((d[:2 if sk else 3] ** 2).sum(0)); i = dr.argmin(1)
                ang = (lambda v: v) if sk else lambda v: np.degrees(np.arctan2(v, six(point(w, w.gc[:3], w.gc[3:]), None, True)[2]))        # lengths are degrees on the sky
                if not common.close(np.asarray(ts, float), te[i] / 1000., 1e-6, scale=abs(t) / 1000.): bad.append(("matched times on the sky", "%s instead of %s" % (ts, te[i] / 1000.)))
                if not common.close(np.abs(np.asarray(dq, float)), ang(dr.min(1)), 1e-5, scale=dr.max() * 1e-2): bad.append(("distance from the path on the sky", "%s instead of %s" % (dq, dr.min(1))))
                s_ = np.insert(np.cumsum(np.sqrt((np.diff(Q_[:2 if sk else 3]) ** 2).sum(0))), 0, 0); s_ -= s_[nt // 2]
                if not common.close(np.asarray(dp, float), ang(s_[i]), 1e-6, scale=2e4 * s_.max()): bad.append(("distance along the path on the sky", "%s instead of %s" % (dp, s_[i])))
        if not skip and not same(got, e, 1e-5): bad.append((what + " on the sky", "%s instead of %s" % (got, e)))
        if what not in ("interpm", "interpsm"):
            d = [a for a in before if not common.close(np.asarray(getattr(c, a), float), before[a], rel=1e-6, scale=max(1e-6, np.max(np.abs(before[a]))))]
            if d or (c.units, c.origin) != ("radec", g): bad.append((what + " on the sky changes the cluster", "%s %s %s" % (d, c.units, c.origin)))
    except Exception as ex:
        if not common.in_repo(ex): raise
        bad.append((what + " on the sky fails", common.exc_text(ex)))
    for k, msg in bad: part.violation(k, "%s: %s" % (case, msg), case)
    part.outcome("sky", what, g, fc)


def zero(item, part):
    """following an orbit for no time leaves the cluster and the stars where they are"""
    wn, u, g, what, how = item; w = worlds()[wn]; case = dict(kind="zero", item=list(item))
    with common.quiet(): c = w.build(u, g)
    part.states += 1; part.transitions += 1; part.traces += 1
    if what == "cluster": e = w.gc.copy()
    else:
        X, V = w.xyz(g); e = np.column_stack([X / 1000., V]).T
    pot = POT(w) if what == "cluster" or g == "galaxy" else CPOT(w)
    def go():
        with common.quiet():
            o = c if how == "m" else ct
            f = getattr(o, "interpolate_orbit" if what == "cluster" else "interpolate_orbits")
            return plain(f(*(() if how == "m" else (c,)), pot=pot, tfinal=0.0, nt=5))
    try: r = common.killable(go, (), 20)
    except (common.Hang, RuntimeError) as ex: part.violation("following an orbit for no time", "%s: %s" % (case, ex), case); return
    if not same(r, conv(w, e, u), 1e-6): part.violation("position after no time", "%s: %s instead of %s" % (case, r, conv(w, e, u)), case)
    part.outcome(*item)


DEFAULTS = dict(interpolate_orbit=12000., interpolate_orbits=12000., orbital_path=100.)


def default(item, part):
    """an orbit followed for no given time is followed for the documented one, 12 Gyr (0.1 Gyr for a path)"""
    wn, u, g, name, how = item; w = worlds()[wn]; case = dict(kind="default", item=list(item))
    part.states += 1; part.transitions += 2; part.traces += 1
    r = []
    for t in (None, tval(w, u, DEFAULTS[name])):
        with common.quiet(): c = w.build(u, g)
        pot = POT(w) if name != "interpolate_orbits" or g == "galaxy" else CPOT(w)
        kw = dict(pot=pot, nt=21); kw.update({} if t is None else dict(tfinal=t))
        try:
            with common.quiet(), common.limit(60): q = getattr(c, name)(**kw) if how == "m" else getattr(ct, name)(c, **kw)
        except Exception as e: part.violation("%s without a time" % name, "%s: %s" % (case, common.exc_text(e)), case); return
        if name == "orbital_path":
            q = [c.tpath, c.xpath, c.ypath, c.zpath] if how == "m" else q[:4]
        r.append(plain(q))
    if not same(r[0], r[1], 1e-6): part.violation("%s without a time" % name, "%s: %s instead of %s" % (case, r[0], r[1]), case)
    part.outcome(*item)


def replay(case):
    p = common.Part()
    if case.get("kind") == "default": default(tuple(case["item"]), p); return p.violations
    if case.get("kind") == "given": given(tuple(case["item"]), p); return p.violations
    if case.get("kind") == "zero": zero(tuple(case["item"]), p); return p.violations
    if case.get("kind") == "sky": sky(tuple(case["item"]), p); return p.violations
    s = case["start"]; w = worlds()[s["world"]]; c = w.build(s["units"], s["origin"]); m = dict(units=s["units"], origin=s["origin"], w=w, bad=[])
    h = ([s["first"]] if s.get("first") else []) + list(case["ops"])
    try:
        for o in h:
            with common.quiet(): c, m = apply_(tuple(o), c, m)
            b = check(c, m, tuple(o), h)
            if b: return [common.V(k, msg, case) for k, msg in b]
    except Exception as e: return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]
    return []


def run(ctx):
    g = []
    for wn in (("std", "solar8", "still") if ctx.thorough else ("solar8",)):
        for u in UNITS + ["radec"]:
            for ou in UNITS + ["radec"]:
                for o in (ORIGINS if u != "radec" else ("sky",)):
                    for time, init in itertools.product((True, False), repeat=2):
                        for gi, form in ((0, "float"), (1, "array"), (0, "int")) if ctx.thorough or (o in ("centre", "sky") and time == init) else ((1, "float"),):
                            if form == "int" and ou in ("amuse", "radec", "galpy", "nbody"): continue
                            g.append((wn, u, o, ou, time, init, gi, form))
    ctx.pmap(given, g, chunk=10)
    items = []
    for wn in worlds():
        for u in UNITS:
            for o in ORIGINS:
                if ctx.thorough or wn == "std" or (u in ("nbody", "pcmyr") and o != "cluster"):
                    items.append((wn, u, o, 1, None))
    st = [("std", u, o) for u in NOA for o in ORIGINS] if ctx.thorough else [("std", "pckms", "galaxy"), ("std", "kpcgyr", "centre")]
    for wn, u, o in st + ([("solar8", "pcmyr", "galaxy"), ("solar8", "nbody", "cluster")] if ctx.thorough else []):
        for f in ops(None, dict(units=u, origin=o)): items.append((wn, u, o, 2, f))
    ctx.pmap(seq, items)
    sk = [(k, g, fc) for k in ("init", "inits", "interp", "interpm", "interps", "interpsm", "path", "flatpath", "match", "flatmatch") for g in ("sky", "cluster", "centre") for fc in (False, True)
          if not (fc and k in ("inits", "interpm", "interps", "interpsm")) and not (g != "sky" and k in ("inits", "interps", "interpsm"))]     # no stellar orbits relative to a position on the sky
    ctx.pmap(sky, [(wn, k, t, g, fc) for wn in worlds() for k, g, fc in sk for t in (20.0, -35.0)], chunk=2)
    ctx.pmap(zero, [(wn, u, g, what, how) for wn in (list(worlds()) if ctx.thorough else ["std"]) for u in NOA for g in ORIGINS for what in ("cluster", "stars") for how in "mf"], chunk=2)
    ctx.pmap(default, [("std", u, g, name, how) for u in UNITS for g in ORIGINS for name in DEFAULTS for how in "mf" if not (u == "amuse" and name == "orbital_path")], chunk=4)
    ctx.bounds = dict(worlds=list(worlds()), units=UNITS + ["radec"], origins=ORIGINS + ["sky"], sequence_length=2)
    ctx.assumptions = ["galpy integrates orbits correctly; the AMUSE form of orbital paths is not claimed"]
    ctx.explanation = "full product of (units given x units held) for orbits; BFS over sequences of orbit operations and conversions, against physical orbits integrated apart"
