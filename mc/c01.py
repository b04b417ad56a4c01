"""C01  unit conversions are path independent.
Explicit-state search: every sequence (any length, to fixpoint) of unit
conversions, from every unit system x origin, on the real StarCluster; after
every transition every dimensional attribute is compared with the reference
model (physical numbers / unit factors)."""
import numpy as np
from clustertools import StarCluster
from . import common, world, explore
from .world import UNITS, ORIGINS, POS, VEL

NAMES = [a + s for s in ("", "c", "gc") for a in POS + VEL] + ["m", "tphys"]
LEN = [a + s for s in ("", "c", "gc") for a in POS]


def check_cart(c, w, units, origin, rel=2e-6):
    bad = []
    if c.units != units:
        bad.append(("units label", "units is %r, expected %r" % (c.units, units)))
        return bad
    if c.origin != origin:
        bad.append(("origin label", "origin is %r, expected %r" % (c.origin, origin)))
        return bad
    exp = w.cart(units, origin)
    L, Vf, M, T = w.factors(units)
    for n in NAMES:
        got = getattr(c, n)
        if units == "amuse" and not isinstance(got, world.Quantity):
            bad.append(("amuse %s unit-less" % n, "%s is a bare number in AMUSE units" % n))
            continue
        got = world.num(got)
        e = exp[n]
        # errors are measured against the size of what was added/subtracted
        if n in POS:
            sc = max(np.max(np.abs(e)), 1e-3 / L)
        elif n in VEL:
            sc = max(np.max(np.abs(e)), 1e-3 / Vf)
        else:
            f = T if n == "tphys" else M if n == "m" else L if n in LEN else Vf
            sc = max(np.max(np.abs(e)), 1e-3 / f)
        if not common.close(np.asarray(got, float), e, rel=rel, scale=sc):
            bad.append(("value of %s in %s" % (n, units), "%s = %r, expected %r (units %s origin %s)" % (n, got, e, units, origin)))
            if len(bad) > 3:
                break
    if w.binaries is not None:
        bad += check_binaries(c, w)
    return bad


def check_binaries(c, w):
    """separations, periods and component masses read in the units `bunits` names"""
    b = np.array(w.binaries, float)
    au_pc = 648000.0 / np.pi                     # au per pc
    day = 365.25 * (w.rbar * au_pc) ** 1.5 / np.sqrt(w.zmbar)   # N-body time unit
    fs = {"audays": (1.0, 1.0, 1.0), "sudays": (1.0 / (1.495978707e8 / 6.957e5), 1.0, 1.0),
          "nbody": (w.rbar * au_pc, day, w.zmbar)}.get(c.bunits)
    if fs is None:
        return [("binary unit label", "bunits is %r" % (c.bunits,))]
    bad = []
    for n, col, f in (("pb", 6, fs[1]), ("semi", 7, fs[0]), ("m1", 8, fs[2]), ("m2", 9, fs[2])):
        got = np.asarray(getattr(c, n), float)
        if not common.close(got, b[:, col] / f, rel=1e-6):
            bad.append(("binary %s in %s" % (n, c.bunits), "%s = %r, expected %r (bunits %s)" % (n, got, b[:, col] / f, c.bunits)))
    return bad


def worlds():
    w5 = world.world5()
    return {
        "w5": w5,
        "scaled1": world.world5(zmbar=1.0, rbar=1.0),
        "solar8": world.world5(ro=8.0, vo=220.0, zbar=0) if False else world.world5(ro=8.0, vo=220.0, zo=0.025, solarmotion=(-10.0, 11.0, 7.0)),
        "t0": world.World(world.STARS5[:2], tphys=0.0, centre=(0, 0, 0, 0, 0, 0)),
        "bin": world.world5(binaries=world.BIN2, ids=[1, 3, 5, 6, 7]),
        "one": world.World(world.STARS5[2:3], gc=(0.9, 7.7, -2.2, 111.0, -30.0, 44.0)),
        "sse": world.world5(sse=world.SSE5),
    }


def ops_all():
    o = []
    for t in UNITS:
        o.append(("to", t, True))
        o.append(("to", t, False))
        o.append(("to_units", t))
    o += [("save",), ("return",)]
    return o


def apply_(op, c, m):
    m = dict(m)
    if op[0] == "to":
        getattr(c, "to_" + op[1])(analyze=op[2])
        m["units"] = op[1]
    elif op[0] == "to_units":
        c.to_units(op[1])
        m["units"] = op[1]
    elif op[0] == "bin":
        getattr(c, "to_" + op[1])()
        m["bin"] = op[1]
    elif op[0] == "save":
        c.save_cluster()
        m["saved"] = (m["units"], m["origin"])
    elif op[0] == "return":
        c.return_cluster()
        m["units"], m["origin"] = m["saved"]
    return c, m


def one(item, part):
    wn, units, origin, full = item
    w = worlds()[wn]
    with common.quiet():
        c = w.build(units, origin)
    model = dict(units=units, origin=origin, saved=None)
    alphabet = ops_all()
    if not full:
        alphabet = [o for o in alphabet if o[0] == "to"]
    if w.binaries is not None:
        alphabet += [("bin", "audays"), ("bin", "sudays")]

    def ops(impl, m):
        return [o for o in alphabet if not (o[0] == "return" and m["saved"] is None)]

    def check(impl, m, op, h):
        part.outcome(wn, m["units"], m["origin"])
        bad = check_cart(impl, w, m["units"], m["origin"])
        if op is not None and op[0] == "bin" and impl.bunits != op[1]:
            bad.append(("binary unit label", "bunits is %r after to_%s" % (impl.bunits, op[1])))
        return bad

    def canon(impl, m):
        return (world.canon(impl)[0], m["units"], m["origin"], m["saved"])

    done = explore.bfs((c, model), ops, apply_, canon, check, part, max_states=6000,
                       start_desc=dict(world=wn, units=units, origin=origin))
    part.count("fixpoints_reached", int(done))
    part.count("starts")

    # the same without any deep copy or state merging: every history of length <= 2 replayed from scratch
    base = [o for o in alphabet if o[0] in ("to", "bin")]
    for h in explore.all_histories(base, 2):
        with common.quiet():
            c = w.build(units, origin)
        m = dict(units=units, origin=origin, saved=None)
        try:
            with common.quiet():
                for o in h:
                    c, m = apply_(o, c, m)
        except Exception as e:
            if not common.in_repo(e):
                raise
            part.violation("exception %s in %s" % (type(e).__name__, explore.opname(o)), "after %s: %s" % (h, common.exc_text(e)),
                           dict(start=dict(world=wn, units=units, origin=origin), ops=h))
            continue
        part.traces += 1
        part.transitions += len(h)
        for k, msg in check_cart(c, w, m["units"], m["origin"]):
            part.violation(k, "start %s/%s/%s after %s: %s" % (wn, units, origin, h, msg),
                           dict(start=dict(world=wn, units=units, origin=origin), ops=h))


def components(item, part):
    """positions, velocities and masses of the components of binaries, given with the stars"""
    units, to = item
    w = world.world5(); F, G = w.factors(units), w.factors(to)
    case = dict(components=list(item))
    with common.quiet():
        c = StarCluster(10., units=units, origin="cluster")
        c.add_nbody6(zmbar=w.zmbar, rbar=w.rbar, vbar=w.vbar, tbar=w.tbar)
        c.add_orbit(*w.gc, ounits="kpckms")
        s = w.stars / np.array([F[2]] + [F[0]] * 3 + [F[1]] * 3)
        c.add_stars(*s.T[1:].copy(), s[:, 0].copy(), nb=2)
    part.states += 1; part.traces += 1; part.outcome("components", units, to)
    names = [n + k for k in "12" for n in ("xb", "yb", "zb", "vxb", "vyb", "vzb", "mb")]
    was = {n: np.array(getattr(c, n), float) for n in names}
    with common.quiet(): c.to_units(to)
    part.transitions += 1
    for n in names:
        i = 2 if n[0] == "m" else 1 if n[0] == "v" else 0
        got = np.asarray(getattr(c, n), float)
        if common.close(got, was[n] * F[i] / G[i], rel=2e-6): continue
        if np.array_equal(got, was[n]): part.violation("components of binaries are not converted", "%s given in %s is still %s in %s" % (n, units, got, to), case)
        else: part.violation("components of binaries", "%s: %s in %s, given as %s in %s" % (n, got, to, was[n], units), case)


def replay(case):
    if "components" in case:
        p = common.Part(); components(case["components"], p); return p.violations
    s = case["start"]
    w = worlds()[s["world"]]
    c = w.build(s["units"], s["origin"])
    m = dict(units=s["units"], origin=s["origin"], saved=None)
    out = []
    try:
        for o in case["ops"]:
            c, m = apply_(tuple(o), c, m)
        for k, msg in check_cart(c, w, m["units"], m["origin"]):
            out.append(common.V(k, msg, case))
    except Exception as e:
        out.append(common.V("exception %s" % type(e).__name__, common.exc_text(e), case))
    return out


def run(ctx):
    items = []
    for wn in worlds():
        for units in UNITS:
            for origin in ORIGINS:
                full = wn == "w5" or ctx.thorough
                if not ctx.thorough and wn != "w5" and origin != "cluster":
                    continue
                items.append((wn, units, origin, full))
    ctx.bounds = dict(unit_systems=UNITS, origins=ORIGINS, worlds=list(worlds()), sequence_length="unbounded (fixpoint)",
                      stateless_depth=2)
    ctx.pmap(one, items)
    U = [u for u in UNITS if u != "amuse"]
    ctx.pmap(components, [(a, b) for a in U for b in U])
    if ctx.counters.get("fixpoints_reached", 0) != ctx.counters.get("starts", 0):
        ctx.exhaustive = False
    ctx.explanation = ("states are canonical forms of the whole object (all attributes rounded to 6 digits, saved "
                       "units/origin included); every conversion is taken from every state until no new state appears")
    ctx.assumptions = ["unit definitions: 1 km/s = 1.022712165045695 pc/Myr; galpy's mass/time units; WDunits mass 222288.4543 Msun",
                       "one small world per row; conversions act element-wise, so array length adds nothing"]
