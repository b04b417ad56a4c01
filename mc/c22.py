"""C22  named Galactic clusters: every entry of the two catalogues x spellings x source x units x origin, each cluster
compared star by star with the model its catalogue row describes and with the orbit galpy has for that name."""
import itertools, os
import numpy as np
import clustertools as ct
from galpy.orbit import Orbit
from . import common, world
from .world import POS, VEL
from .c19 import ones, same_stars, labels, orbit_of, mk_orbit, ALL

UN = [u for u in world.UNITS if u not in ("amuse", "nbody")]
CASES = ("exact", "upper", "lower", "title")
NOORBIT = {"KO1", "KO2", "2MSGC01", "2MSGC02", "ESONASC06", "GLIMPSE01", "GLIMPSE02"}   # galpy asks the network
_cat = {}


def catalogues():
    """(de Boer rows by upper-case name, Harris rows, alternate name -> primary)"""
    if not _cat:
        d = os.path.join(os.path.dirname(ct.__file__), "io", "data")
        rows = lambda f, skip: [l.split() for l in open(os.path.join(d, f)).read().split("\n")[skip:] if l.strip()]
        deb = {r[0].upper(): dict(name=r[0], W=float(r[1]), g=float(r[3]), rt=float(r[5]), M=float(r[7])) for r in rows("deBoer2019.dat", 1)}
        har = {r[0].upper(): dict(name=r[0], alt=r[1], M=float(r[2]), rc=float(r[3]), rh=float(r[4]), rt=float(r[5])) for r in rows("harris2010.dat", 2)}
        _cat.update(deb=deb, har=har, alt={v["alt"].upper(): k for k, v in har.items() if v["alt"] != "na"})
    return _cat


def spell(name, how): return dict(exact=name, upper=name.upper(), lower=name.lower(), title=name.title())[how]


def model(key, source):
    """limepy model of the catalogue row which answers (name, source); None: no such cluster"""
    from limepy import limepy
    from clustertools.io.limepydf import c_to_w0
    cat = catalogues(); s = source.lower()
    if s in ("default", "deboer") and key in cat["deb"]:
        r = cat["deb"][key]; return limepy(r["W"], r["g"], M=r["M"], rt=r["rt"]), r, "deboer"
    if s in ("default", "harris") and key in cat["har"]:
        r = cat["har"][key]; c = np.log10(r["rt"] / r["rc"])
        return limepy(float(c_to_w0(c)), 1.0, M=r["M"], rt=r["rt"]), r, "harris"
    return None, None, None


def virial(s, n):
    """G-free |U| and virial radius of the sampled stars: M^2 / (2 sum_{i<j} m_i m_j / r_ij)"""
    X = np.column_stack([s.x, s.y, s.z]); m = np.asarray(s.m, float); u = 0.0
    for i in range(n): u += np.sum(m[i] * m[i + 1:] / np.sqrt(np.sum((X[i + 1:] - X[i])**2, axis=1)))
    return m.sum()**2 / (2.0 * u)


def named(item, part):
    from limepy import sample
    which, how, source, units, origin, num, orb = item
    case = dict(kind="named", item=list(item)); cat = catalogues()
    key = cat["alt"].get(which.upper(), which.upper())
    with common.quiet(), common.limit(200):
        mod, row, kind = model(key, source)
        kw = {} if source == "default" else dict(source=source)
        n = 0 if mod is None else 12 if num == "N" else 9
        if mod is None: kw["N"] = 12
        elif num == "N": kw["N"] = 12
        elif num == "both": kw.update(N=9, mbar=3.0)
        else: kw["mbar"] = row["M"] / 9.4
        o6 = None; opts = {}
        if orb: o6 = [3.0, -4.0, 1.0, 20.0, 150.0, -30.0]; opts = dict(orbit=mk_orbit(o6, 8.0, 220.0))
        try: c = ct.load_cluster("limepy", gcname=spell(which, how), units=units, origin=origin, citation=False, **kw, **opts)
        except Exception as e:
            part.violation("named cluster: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
        part.states += 1; part.transitions += 1; part.traces += 1; part.outcome("named", kind, how, source, units, origin, num, orb)
        if mod is None:
            if c.ntot != 0 or len(np.atleast_1d(c.x)): part.violation("named cluster: stars for an unknown name", "%s: %d stars" % (case, c.ntot), case)
            return
        s = sample(mod, N=n)
        if not orb:
            o = Orbit.from_name(row["name"], ro=ct.util.constants.solar_ro, vo=ct.util.constants.solar_vo, solarmotion=ct.util.constants.solar_motion)
            o6 = [float(getattr(o, k)()) for k in ("x", "y", "z", "vx", "vy", "vz")]
    if c.ntot != n: part.violation("named cluster: number of stars", "%s: ntot=%r expected %d" % (case, c.ntot, n), case); return
    labels(c, "limepy", units, origin, "named cluster", part, case)
    w = ones()
    if units == "nbody":
        w.zmbar = row["M"]; w.rbar = virial(s, n); w.vbar = 0.06557 * np.sqrt(w.zmbar / w.rbar); w.tbar = w.rbar / (1.023 * w.vbar)
        for k in ("zmbar", "rbar", "vbar"):
            if not common.close(getattr(c, k), getattr(w, k), 2e-3): part.violation("named cluster: N-body scale %s" % k, "%s: %r expected %r" % (case, getattr(c, k), getattr(w, k)), case)
        for k in ("zmbar", "rbar", "vbar", "tbar"): setattr(w, k, float(getattr(c, k)))
    if units == "radec":
        w2 = world.World(np.column_stack([s.m, s.x, s.y, s.z, s.vx, s.vy, s.vz]), gc=o6, centre=(0,) * 6)
        e = w2.sky(); exp = {k: np.atleast_1d(e[k]) for k in ALL}
        for k in POS + VEL:
            if not common.close(world.num(getattr(c, k + "gc")), e[k + "gc"], 1e-6): part.violation("named cluster: position on the sky", "%s: %sgc=%s expected %s" % (case, k, getattr(c, k + "gc"), e[k + "gc"]), case); return
    else:
        f = w.factors(units)
        exp = {k: np.array(getattr(s, k), float) / (f[0] if k in POS else f[1] if k in VEL else f[2]) for k in ALL}
        if origin == "galaxy":
            for i in range(3):
                exp[POS[i]] = exp[POS[i]] + o6[i] * 1000. / f[0]; exp[VEL[i]] = exp[VEL[i]] + o6[3 + i] / f[1]
        if not common.close(orbit_of(c, w), o6, 1e-6): part.violation("named cluster: orbit", "%s: %s expected %s" % (case, orbit_of(c, w), o6), case)
        if not common.close(c.mtot * f[2], row["M"], 1e-6): part.violation("named cluster: mass", "%s: %r expected %r" % (case, c.mtot * f[2], row["M"]), case)
    same_stars(c, exp, np.arange(1, n + 1), "named cluster", part, case, rel=1e-6)
    if not orb:
        q = c.orbit
        if q is None or q == -1: part.violation("named cluster: no galpy orbit", str(case), case)
        else:
            got = [float(getattr(q, k)()) for k in ("x", "y", "z", "vx", "vy", "vz")]
            if not common.close(got, o6, 1e-9): part.violation("named cluster: galpy orbit", "%s: %s expected %s" % (case, got, o6), case)


def king(item, part):
    """the King model chosen for a concentration has that concentration (limepy's own solution)"""
    from limepy import limepy
    from clustertools.io.limepydf import c_to_w0
    r = catalogues()["har"][item[0]]; case = dict(kind="king", item=list(item))
    with common.quiet(), common.limit(60):
        c = np.log10(r["rt"] / r["rc"]); m = limepy(float(c_to_w0(c)), 1.0, M=r["M"], rt=r["rt"])
    if abs(np.log10(m.rt / m.r0) - c) > 4e-3: part.violation("King model of another concentration", "%s: c=%r model %r" % (case, c, np.log10(m.rt / m.r0)), case)
    part.states += 1; part.transitions += 1; part.traces += 1; part.outcome("king", item[0])


KINDS = dict(named=named, king=king)


def tup(v): return tuple(tup(x) for x in v) if isinstance(v, list) else v


def dispatch(item, part): KINDS[item[0]](item[1], part)


def replay(case):
    p = common.Part(); KINDS[case["kind"]](tup(case["item"]), p); return p.violations


def run(ctx):
    t = ctx.thorough; cat = catalogues()
    have = [v["name"] for k, v in cat["har"].items() if k not in NOORBIT]
    alts = [v["alt"] for k, v in cat["har"].items() if k not in NOORBIT and v["alt"] != "na"]
    names = have + [v["name"] for k, v in cat["deb"].items() if v["name"] not in have] + alts
    J = []
    # every name, spelling and source in the default units
    for nm, how, src in itertools.product(names, CASES, ("default", "deboer", "deBoer", "harris", "Harris")):
        if how != "exact" and spell(nm, how) == nm: continue
        if not t and (how == "title" or src in ("deBoer", "Harris")) : continue
        J.append(("named", (nm, how, src, "pckms", "cluster", "N", False)))
    # units, origins, ways of giving the number of stars, own orbit: for a name of every kind
    kinds = ["NGC104", "47Tuc", "PAL5", "PAL7", "ic1276", "M22", "AM1", "NGC6752"]
    if t: kinds = kinds + names[::7]
    for nm, src, (u, o), num, orb in itertools.product(kinds, ("default", "harris"), [(u, o) for u in UN + ["nbody"] for o in ("cluster", "galaxy")] + [("radec", "sky")], ("N", "mbar", "both"), (False, True)):
        if u == "nbody" and o == "galaxy" and not t: continue
        if u == "radec" and orb: continue
        J.append(("named", (nm, "exact", src, u, o, num, orb)))
    for nm in ("", "na", "NA", "NGC", "NGC1", "M", "47", "Tuc", "PAL", "notacluster"):
        for src in ("default", "deboer", "harris"): J.append(("named", (nm, "exact", src, "pckms", "cluster", "N", False)))
    J += [("king", (k,)) for k in cat["har"]]
    ctx.pmap(dispatch, J, chunk=6)
    ctx.bounds = dict(names=len(names), spellings=list(CASES), units=UN + ["nbody", "radec"], stars=12, cases=len(J))
    ctx.assumptions = ["limepy's models and seeded sampler, galpy's table of Galactic clusters and the shipped catalogue files are trusted",
                       "the seven clusters galpy can only resolve over the network are not covered: " + ", ".join(sorted(NOORBIT))]
    ctx.explanation = "finite product of catalogue entries, spellings, sources, units, origins and options enumerated completely on the real loader, each cluster compared star by star with the model of its catalogue row"
