"""C04  derived quantities (radii, speeds, total/mean mass, extents, 3D and
projected orderings, half-mass / 10% / half-light radii) describe the current
contents after every history of operations."""
import numpy as np
from . import common, world, explore
from .world import UNITS, ORIGINS, POS, VEL

EXTRA = [(0.33, 2.6, 1.9, 0.4, 1.4, -0.7, 0.9), (1.2, -3.9, -0.8, -1.1, 0.2, 1.9, -0.2)]


def worlds():
    return {
        "w5": world.world5(),
        "sse": world.world5(sse=world.SSE5),
        "two": world.World(world.STARS5[:2]),
        "one": world.World(world.STARS5[2:3]),
        # order by r and by rpro differ from each other and between all three origins
        "skew": world.World([(1.0, 0.2, 0.1, 3.0, .1, .2, .3), (0.8, 1.5, -1.2, 0.1, -.4, .1, .2), (1.4, -2.2, 0.4, -0.2, .3, -.3, .1),
                             (0.6, 0.4, 0.5, -4.0, .2, .1, -.2)], centre=(1.1, -0.9, -2.2, .1, .2, .3), sse=world.SSE5[:4]),
    }


def fl(v):
    return np.asarray(world.num(v), float)


def lagr(r, m, f):
    """smallest radius whose enclosed mass reaches f of the total"""
    o = np.argsort(r, kind="stable")
    cs = np.cumsum(m[o])
    return r[o][np.nonzero(cs >= f * np.sum(m) * (1 - 1e-12))[0][0]]


def lagr_ok(got, r, m, f, rel=1e-8):
    """tolerant: the value is the radius at which the cumulative mass crosses f"""
    got = float(got)
    tot = np.sum(m)
    s = np.max(r) * rel + 1e-300
    below = np.sum(m[r < got - s])
    upto = np.sum(m[r <= got + s])
    return upto >= f * tot * (1 - 1e-9) and below < f * tot * (1 + 1e-9) and np.any(np.abs(r - got) <= s)


def check_derived(c, sorted_=True, rel=1e-8):
    bad = []
    x, y, z, vx, vy, vz, m = [fl(getattr(c, n)) for n in ("x", "y", "z", "vx", "vy", "vz", "m")]
    r, rp = np.sqrt(x * x + y * y + z * z), np.hypot(x, y)
    v, vp = np.sqrt(vx * vx + vy * vy + vz * vz), np.hypot(vx, vy)
    exp = dict(r=r, rpro=rp, v=v, vpro=vp, mtot=m.sum(), mmean=m.mean(), rmean=r.mean(), rmax=r.max(),
               rmeanpro=rp.mean(), rmaxpro=rp.max())
    for n, e in exp.items():
        g = fl(getattr(c, n))
        if not common.close(g, e, rel=rel):
            bad.append(("%s stale or wrong" % n, "%s=%r, from the current contents %r" % (n, g, e)))
    if int(c.ntot) != len(m):
        bad.append(("ntot", "ntot=%r with %d stars" % (c.ntot, len(m))))
    if not sorted_:
        return bad
    for n, rad in (("rorder", r), ("rproorder", rp)):
        o = getattr(c, n)
        if o is None or sorted(np.asarray(o).tolist()) != list(range(len(m))):
            bad.append(("%s not a permutation" % n, "%s=%r" % (n, o)))
        elif np.any(np.diff(rad[o]) < -rel * rad.max()):
            bad.append(("%s does not sort" % n, "%s=%r radii %r" % (n, o, rad)))
    for n, rad, wt, f in (("rm", r, m, .5), ("r10", r, m, .1), ("rmpro", rp, m, .5), ("r10pro", rp, m, .1)):
        g = getattr(c, n)
        if g is None or not lagr_ok(fl(g), rad, wt, f):
            bad.append(("%s wrong" % n, "%s=%r, radii %r masses %r" % (n, g, rad, wt)))
    if len(np.asarray(c.lum)) == len(m):
        lum = fl(c.lum)
        for n, rad, f in (("rh", r, .5), ("rh10", r, .1), ("rhpro", rp, .5), ("rh10pro", rp, .1)):
            g = getattr(c, n)
            if g is None or not lagr_ok(fl(g), rad, lum, f):
                bad.append(("%s wrong" % n, "%s=%r, radii %r lum %r" % (n, g, rad, lum)))
    return bad[:4]


def alphabet(units, full):
    o = [("units", t) for t in units] + [("origin", t) for t in ORIGINS] + [("save",), ("return",)]
    if full:
        o += [("radec",), ("sky",), ("add_stars",), ("edit",), ("virialize",), ("com",), ("unsorted", "galaxy"),
              ("unsorted", "centre"), ("noanalyze", "pcmyr"), ("analyze",), ("analyse",), ("key_params",), ("rlag",), ("energies",), ("sub",), ("sse",)]
    return o


def enabled(alpha, c, m):
    out = []
    for o in alpha:
        if o[0] == "return" and not m["saved"]: continue
        if o[0] == "add_stars" and (m["added"] >= 2 or c.units in ("radec", "amuse") or len(c.kw) > 0): continue
        if o[0] in ("edit", "virialize", "energies", "rlag", "com", "sub", "sse", "noanalyze") and c.units in ("radec", "amuse"): continue
        if o[0] == "edit" and m["edits"] >= 2: continue
        if o[0] == "virialize" and (m["vir"] or c.ntot < 2): continue
        if o[0] == "energies" and (c.ntot < 2 or m["vir"]): continue
        if o[0] == "sse" and (m["sse"] or len(c.kw) or m["added"]): continue
        if o[0] == "unsorted" and c.units == "radec": continue
        out.append(o)
    return out


def apply_(op, c, m):
    m = dict(m)
    k = op[0]
    if k == "units": c.to_units(op[1]); m["fresh"] = True
    elif k == "origin": getattr(c, "to_" + op[1])()
    elif k == "unsorted": getattr(c, "to_" + op[1])(sortstars=False); m["sorted"] = False
    elif k == "noanalyze": c.to_pcmyr(analyze=False); m["fresh"] = False
    elif k in ("analyze", "analyse", "key_params"): getattr(c, k)(); m["fresh"] = m["sorted"] = True
    elif k == "save": c.save_cluster(); m["saved"] = (c.units, c.origin, m["sorted"])
    elif k == "return":
        c.return_cluster(); m["fresh"] = m["sorted"] = True
    elif k == "radec": c.to_radec(); m["fresh"] = True
    elif k == "sky": c.to_sky(); m["fresh"] = True
    elif k == "add_stars":
        e = EXTRA[m["added"]]
        L, V, M = world.world5().factors(c.units)[:3]
        f = lambda a: np.array([a])
        c.add_stars(f(e[1] / L), f(e[2] / L), f(e[3] / L), f(e[4] / V), f(e[5] / V), f(e[6] / V), f(e[0] / M), sortstars=True)
        m["added"] += 1; m["fresh"] = m["sorted"] = True
    elif k == "edit":                     # the user edits the arrays and re-analyses
        c.x = c.x * 1.0; i = m["edits"] % c.ntot
        c.x[i], c.y[i], c.z[i] = -2.7 * c.z[i] + 0.3 * c.x[i], 0.4 * c.x[i], 1.9 * c.y[i]
        c.m = np.roll(c.m, 1)
        c.analyze(); m["edits"] += 1; m["fresh"] = m["sorted"] = True
    elif k == "virialize": c.virialize(); m["vir"] = True; m["fresh"] = True
    elif k == "com":                      # re-centre on the centre of mass
        c.to_cluster(); c.find_centre_of_mass(); c.to_centre(); m["sorted"] = m["fresh"] = True
    elif k == "rlag": c.rlagrange(nlagrange=3); c.rlagrange(nlagrange=3, projected=True)
    elif k == "energies": c.energies()
    elif k == "sub": __import__("clustertools").sub_cluster(c, rmax=float(np.median(c.r)))
    elif k == "sse":
        c.add_sse(np.ones(c.ntot), np.linspace(-1.3, 1.1, c.ntot)[::-1], np.zeros(c.ntot)); c.analyze()
        m["sse"] = True; m["fresh"] = m["sorted"] = True
    return c, m


def check(c, m, op):
    """`sorted`: orderings are promised unless the last moves said sortstars=False"""
    bad = []
    if m["fresh"]:
        srt = m["sorted"] and c.units != "radec"
        bad += check_derived(c, sorted_=srt)
    if not bad:                            # and an explicit analyze() always brings everything up to date
        import copy
        d = copy.deepcopy(c)
        with common.quiet():
            d.analyze()
        bad += [("after analyze(): " + k, s) for k, s in check_derived(d)]
    return bad


def start(wn, units, origin):
    w = worlds()[wn]
    with common.quiet():
        c = w.build(units, origin)
    return c, dict(saved=None, added=0, edits=0, vir=False, sse=False, fresh=True, sorted=True)




def one(item, part):
    wn, units, origin, alphaunits, full, depth = item
    c, m0 = start(wn, units, origin)
    alpha = alphabet(alphaunits, full)
    desc = dict(world=wn, units=units, origin=origin)

    def chk(impl, m, op, h):
        part.outcome(wn, impl.units, impl.origin, tuple(np.asarray(impl.rorder).tolist()), m["added"], m["edits"])
        return check(impl, m, op)

    def canon(impl, m):
        return (world.canon(impl)[0], tuple(sorted((k, str(v)) for k, v in m.items())))

    done = explore.bfs((c, m0), lambda i, m: enabled(alpha, i, m), apply_, canon, chk, part,
                       max_depth=depth, max_states=60000, start_desc=desc)
    part.count("fixpoints_reached", int(done)); part.count("starts")


def replay(case):
    s = case["start"]
    c, m = start(s["world"], s["units"], s["origin"])
    try:
        for o in case["ops"]:
            c, m = apply_(tuple(o), c, m)
        return [common.V(k, msg, case) for k, msg in check(c, m, None)]
    except Exception as e:
        return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]


def run(ctx):
    t = ctx.thorough
    items = []
    for wn in worlds():
        for origin in ORIGINS:
            items.append((wn, "pckms", origin, ["kpckms"], True, (5 if wn in ("skew", "w5") else 4) if t else 3))
            items.append((wn, "nbody", origin, ["pckms"], False, 6 if t else 5))
        for units in UNITS:
            items.append((wn, units, "cluster", [units], False, 6 if t else 5))
            items.append((wn, units, "cluster", [units], True, 3 if t else 2))
    ctx.bounds = dict(depth="3-5 quick, 4-6 thorough", worlds=list(worlds()))
    ctx.pmap(one, items)
    ctx.explanation = ("bounded BFS over conversions, origin changes, data edits, recentring, stellar evolution data, save/return and "
                       "read-only analysis; after every transition every derived quantity is recomputed from the arrays")
    ctx.assumptions = ["orderings are compared by the order they impose (ties free)", "in sky coordinates only definitions, not orderings, are required between calls"]
