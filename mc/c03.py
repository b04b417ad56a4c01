"""C03  sky coordinates.  Every history of unit changes, origin changes, sky
transforms (three tangent-plane conventions) and data changes (stars added,
cluster orbit replaced, orbit objects initialised): whenever the cluster is
labelled radec/sky its numbers are the sky coordinates of the *current*
phase-space content, offsets are taken about the right point, and leaving the
sky restores the physical positions, velocities, centre and orbit."""
import copy
import numpy as np
from galpy.orbit import Orbit
from . import common, world, explore
from .world import POS, VEL
from .c01 import check_cart

METHODS = [None, "orthographic", "VandeVen"]
SKYN = ("ra", "dec", "dist", "pmra", "pmdec", "vlos")
NEW = [(0.33, 2.6, 1.9, 0.4, 1.4, -0.7, 0.9), (1.2, -3.9, -0.8, -1.1, 0.2, 1.9, -0.2)]
GC2 = (-2.0, 9.0, 0.7, 77.0, 140.0, -35.0)


def worlds():
    return {
        "w5": world.world5(),
        "nocentre": world.world5(centre=(0, 0, 0, 0, 0, 0)),
        "solar8": world.world5(ro=8.0, vo=220.0, zo=0.025, solarmotion=(-10.0, 11.0, 7.0)),
        "far": world.world5(gc=(-31.0, 14.0, -22.0, 12.0, -66.0, 120.0)),
        "one": world.World(world.STARS5[1:2]),
    }


def wrap(d):
    return (np.asarray(d, float) + 180.0) % 360.0 - 180.0


def offsets(s, method, which):
    """offsets from the reference point (catalogued position or true centre)"""
    suf = "gc" if which == "cluster" else "c"
    ra, dec = np.radians(s["x"]), np.radians(s["y"])
    ra0, dec0 = np.radians(s["x" + suf]), np.radians(s["y" + suf])
    d = ra - ra0
    if method in ("orthographic", "VandeVen"):
        x = np.degrees(np.cos(dec) * np.sin(d))
        y = np.degrees(np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * np.cos(d))
    else:
        x = wrap(s["x"] - s["x" + suf]) * np.cos(dec0)
        y = s["y"] - s["y" + suf]
    if method == "orthographic":
        vx = s["vx"] * np.cos(d) - s["vy"] * np.sin(dec) * np.sin(d) - s["vx" + suf]
        vy = (s["vx"] * np.sin(dec0) * np.sin(d)
              + s["vy"] * (np.cos(dec) * np.cos(dec0) + np.sin(dec) * np.sin(dec0) * np.cos(d))) - s["vy" + suf]
    else:
        vx, vy = s["vx"] - s["vx" + suf], s["vy"] - s["vy" + suf]
    return dict(x=x, y=y, z=s["z"] - s["z" + suf], vx=vx, vy=vy, vz=s["vz"] - s["vz" + suf])


_SKY = {}


def check(c, w, m):
    if c.units != "radec":
        if c.origin not in world.ORIGINS or c.units not in world.UNITS:
            return [("label", "units=%r origin=%r" % (c.units, c.origin))]
        bad = check_cart(c, w, c.units, c.origin, rel=1e-5)
        return bad
    key = (w.stars.tobytes(), w.gc.tobytes(), w.centre.tobytes(), w.ro, w.vo)
    if key not in _SKY:
        _SKY[key] = w.sky()
    s = _SKY[key]
    bad = []
    L = {"x": 1e-7, "y": 1e-7, "z": 1e-7, "vx": 1e-7, "vy": 1e-7, "vz": 1e-6}
    if c.origin == "sky":
        e = {n: s[n] for n in POS + VEL}
    elif c.origin in ("cluster", "centre"):
        e = offsets(s, m["method"], c.origin)
    else:
        return [("label", "units radec with origin %r" % c.origin)]
    for n in POS + VEL:
        if not common.close(getattr(c, n), e[n], rel=0, abs_=3e-7 if n in ("x", "y") else 3e-6):
            bad.append(("%s in radec/%s (%s)" % (n, c.origin, m["method"] if c.origin != "sky" else "-"), "%s=%r expected %r" % (n, getattr(c, n), e[n])))
    cs = ("c", "gc"), ("", "_gc", "_c")
    if not m["centre"]:
        cs = ("gc",), ("", "_gc")
    for n in [a + b for a in POS + VEL for b in cs[0]] + ["m", "tphys"] + [a + b for a in SKYN for b in cs[1]]:
        if not common.close(np.asarray(getattr(c, n), float), s[n], rel=0, abs_=1e-5):
            bad.append(("%s in radec" % n, "%s=%r expected %r" % (n, getattr(c, n), s[n])))
    return bad[:3]


def alphabet(units, methods, mutate):
    o = []
    for t in units:
        o.append(("units", t))
    for me in methods:
        o.append(("to_radec", me))
        o.append(("to_sky", me))
        o.append(("origin", "cluster", me))
        o.append(("origin", "centre", me))
    o += [("origin", "galaxy"), ("to_origin", "sky"), ("to_units_radec",), ("save",), ("return",)]
    if mutate:
        o += [("add_stars",), ("add_orbit",), ("init_orbit",), ("init_orbits",)]
    return o


def enabled(alpha, c, m):
    out = []
    for o in alpha:
        if o[0] == "return" and m["saved"] is None:
            continue
        if o[0] == "add_stars" and (m["added"] or (c.units == "radec" and c.origin != "sky")):
            continue
        if o[0] == "add_orbit" and (m["moved"] or (c.units == "radec" and (m["centre"] or c.origin != "sky"))):
            continue
        if not m["centre"] and c.units == "radec" and o[:2] == ("origin", "centre"):
            continue
        if o[0] == "init_orbits" and c.units == "radec" and c.origin != "sky":
            continue
        out.append(o)
    return out


def sky_to_star(s, gc, w):
    """a star (mass first) in pc, km/s relative to gc from its sky coordinates"""
    o = Orbit(list(s), radec=True, ro=w.ro, vo=w.vo, zo=w.zo, solarmotion=list(w.solarmotion))
    x = np.array([o.x(), o.y(), o.z()]).ravel(); v = np.array([o.vx(), o.vy(), o.vz()]).ravel()
    return np.concatenate([(x - gc[:3]) * 1000.0, v - gc[3:]])


def moved(w, absolute):
    """the orbit is replaced; stars held in galactocentric/sky coordinates stay where they are in the Galaxy"""
    w = w.copy(); new = np.array(GC2)
    if absolute:
        w.stars = np.array(w.stars, float)
        w.stars[:, 1:4] += (w.gc[:3] - new[:3]) * 1000.0
        w.stars[:, 4:7] += w.gc[3:] - new[3:]
    w.gc = new
    return w


def apply_(op, c, m, w0):
    m = dict(m)
    k = op[0]
    exp = None
    before = (c.units, c.origin)
    if k == "units":
        c.to_units(op[1]); exp = (op[1], None)
    elif k == "to_radec":
        c.to_radec(centre_method=op[1]); exp = ("radec", None)
    elif k == "to_units_radec":
        c.to_units("radec"); exp = ("radec", None)
    elif k == "to_sky":
        c.to_sky(centre_method=op[1]); exp = ("radec", "sky")
    elif k == "to_origin":
        c.to_origin("sky"); exp = ("radec", "sky")
    elif k == "origin":
        u0 = c.units
        if op[1] == "galaxy":
            c.to_galaxy(); exp = (None, "galaxy")
        else:
            getattr(c, "to_" + op[1])(centre_method=op[2]); exp = (u0, op[1])
    elif k == "save":
        c.save_cluster(); m["saved"] = (c.units, c.origin)
    elif k == "return":
        c.return_cluster(); exp = m["saved"]
    elif k == "add_stars":
        w2 = m["w"].copy(); w2.stars = np.array(NEW)
        d = w2.sky() if c.units == "radec" else w2.cart(c.units, c.origin)
        m["w"] = m["w"].copy(); m["w"].stars = np.vstack([m["w"].stars, NEW])
        c.add_stars(d["x"], d["y"], d["z"], d["vx"], d["vy"], d["vz"], d["m"])
        m["added"] = True
    elif k == "add_orbit":
        m["w"] = w2 = moved(m["w"], c.origin in ("galaxy", "sky"))
        d = w2.sky() if c.units == "radec" else w2.cart(c.units, c.origin)
        c.add_orbit(d["xgc"], d["ygc"], d["zgc"], d["vxgc"], d["vygc"], d["vzgc"])
        m["moved"] = True
    elif k == "init_orbit":
        c.initialize_orbit()
    elif k == "init_orbits":
        c.initialize_orbits()
    # offsets are (re)computed when the cluster arrives at a sky-plane origin;
    # the convention in force then (the last one given) is the one that counts
    if c.units != "radec":
        m["centre"] = True
    if not (before == (c.units, c.origin) and c.units == "radec") or k in ("return",):
        m["method"] = c.centre_method
    m["exp"] = exp
    return c, m


def checkfull(c, m, w0):
    bad = []
    e = m.get("exp")
    if e is not None:
        if e[0] is not None and c.units != e[0]:
            bad.append(("requested units not reached", "units %r, requested %r" % (c.units, e[0])))
        if e[1] is not None and c.origin != e[1]:
            bad.append(("requested origin not reached", "origin %r, requested %r" % (c.origin, e[1])))
    return bad or check(c, m["w"], m)


def start(item):
    wn, units, origin, nb6 = item[:4]
    w = worlds()[wn]
    with common.quiet():
        if units == "radec":
            c, w = build_sky(w, origin)
        else:
            c = w.build(units, origin, nbody6=nb6)
    return w, c, dict(saved=None, added=False, moved=False, method=None, exp=None, w=w, centre=units != "radec")


MISSING = {"skyall": (), "skyfirst": (), "skydist": (2,), "skykin": (3, 4, 5), "skyvlos": (2, 5), "skypos": (0, 1, 2)}


def build_sky(w, variant):
    """a cluster entered directly in sky coordinates; missing columns are given as zeros and taken from the orbit"""
    w = w.copy(); w.centre = np.zeros(6)
    s = w.sky()
    six = np.array([s[n] for n in SKYN]); g = [s[n + "_gc"] for n in SKYN]
    given = six.copy()
    for i in MISSING[variant]:
        six[i] = g[i]; given[i] = 0.0
    if MISSING[variant]:
        st = np.array(w.stars, float)
        for k in range(len(st)):
            st[k, 1:7] = sky_to_star(six[:, k], w.gc, w)
        w.stars = st
    from clustertools import StarCluster
    c = StarCluster(w.tphys / 1000.0, units="radec", origin="sky", ro=w.ro, vo=w.vo, zo=w.zo, solarmotion=list(w.solarmotion))
    c.rbar, c.zmbar, c.vbar, c.tbar = w.rbar, w.zmbar, w.vbar, w.tbar
    if variant == "skyfirst":
        c.add_orbit(*g)
    c.add_stars(*given, w.stars[:, 0].copy(), sortstars=True)
    if variant != "skyfirst":
        c.add_orbit(*g)
    return c, w


def one(item, part):
    wn, units, origin, nb6, alphaunits, methods, mutate, depth = item
    w, c, m0 = start(item)
    alpha = alphabet(alphaunits, methods, mutate)
    desc = dict(world=wn, units=units, origin=origin, nb6=nb6)

    def chk(impl, m, op, h):
        part.outcome(wn, impl.units, impl.origin, m["method"], m["added"], m["moved"])
        return checkfull(impl, m, w)

    def canon(impl, m):
        return (world.canon(impl)[0], m["saved"], m["added"], m["moved"], m["centre"])

    done = explore.bfs((c, m0), lambda i, m: enabled(alpha, i, m), lambda op, i, m: apply_(op, i, m, w),
                       canon, chk, part, max_depth=depth, max_states=20000, start_desc=desc)
    part.count("fixpoints_reached", int(done)); part.count("starts")


def replay(case):
    s = case["start"]
    w, c, m = start((s["world"], s["units"], s["origin"], s["nb6"]))
    try:
        for o in case["ops"]:
            c, m = apply_(tuple(o), c, m, w)
        return [common.V(k, msg, case) for k, msg in checkfull(c, m, w)]
    except Exception as e:
        return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]


def run(ctx):
    t = ctx.thorough
    items = []
    for origin in world.ORIGINS:
        for nb6 in (False, True):
            items.append(("w5", "pckms", origin, nb6, ["pckms"], METHODS, True, 5 if t else 3))
            items.append(("w5", "kpckms", origin, nb6, ["kpckms"], METHODS[:1], True, 6 if t else 4))
    for wn in worlds():
        for units in world.UNITS:
            for origin in world.ORIGINS:
                if not t and wn != "w5" and origin != "cluster":
                    continue
                items.append((wn, units, origin, True, [units], METHODS, False, 5 if t else 3))
    for v in MISSING:
        for wn in ("w5", "solar8") if not t else list(worlds()):
            items.append((wn, "radec", v, False, ["kpckms", "nbody"], METHODS, True, 4 if t else 3))
    ctx.bounds = dict(sky_starts=list(MISSING), depth="3-4 quick, 5-6 thorough", methods=METHODS, worlds=list(worlds()))
    ctx.pmap(one, items)
    ctx.explanation = "bounded-depth BFS over sky transforms, unit/origin changes and data changes; oracle: galpy sky coordinates of the reference phase-space content"
    ctx.assumptions = ["galpy's own galactocentric<->sky transform is trusted", "tangent-plane formulas as documented for the three conventions"]
