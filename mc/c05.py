"""C05  looking at a cluster does not change it: analysis, output and plotting calls
leave every star attribute, the units, the origin, the stored state and the radial
orderings as they found them."""
import copy, os
import numpy as np
from . import common, world, calls, oracle, explore
from .world import UNITS, ORIGINS
import clustertools as ct

# attributes a call may fill in or refresh: pure caches / documented results
CACHE = {"_mcw", "indx"}
SKY = ("orbit", "orbits") + tuple(a + b for a in ("ra", "dec", "dist", "pmra", "pmdec", "vlos") for b in ("", "_gc", "_c"))
NOAMUSE = tuple(u for u in UNITS if u != "amuse")
RESULT = {}     # per method name: attributes documented as stored by the method


def flat(v):
    """numpy view of an attribute (AMUSE quantities: number), or None"""
    if world.HAVE_AMUSE and isinstance(v, world.Quantity):
        try: return np.asarray(v.number, float), str(v.unit)
        except Exception: return np.asarray(v.number), str(v.unit)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return np.asarray(world.num(v), float), "object"
        return v, ""
    if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
        return np.asarray(float(v)), ""
    return None


def same(a, b):
    if a is b: return True
    fa, fb = flat(a), flat(b)
    if (fa is None) != (fb is None): return False
    if fa is None:
        try: return world._canon(a) == world._canon(b)
        except Exception: return True
    if fa[0].shape != fb[0].shape or fa[1] != fb[1]: return False
    if fa[0].dtype.kind == "f" or fb[0].dtype.kind == "f":
        return common.close(fb[0], fa[0], rel=1e-8)
    return bool(np.array_equal(fa[0], fb[0]))


def diff(before, after, allow=()):
    out = []
    for k in sorted(set(before) | set(after)):
        if k in CACHE or k in allow: continue
        if k[0] == "_" and (k not in before or k not in after): continue
        if k not in before: out.append("+" + k)
        elif k not in after: out.append("-" + k)
        elif not same(before[k], after[k]): out.append(k)
    return out


def snap(c):
    return {k: copy.deepcopy(v) for k, v in vars(c).items() if k != "_mcw"}


class Op:
    def __init__(self, name, fn, allow=(), units=None, origins=None, frame="asis"):
        self.name, self.fn, self.allow, self.units, self.origins, self.frame = name, fn, tuple(allow), units, origins, frame


def ops(full):
    out = []
    for c in calls.registry(full):
        out.append(Op(c.name, lambda k, w, c=c: c.fn(k, oracle.O(w, c.eff(k.origin))), SKY if c.name == "sky_coords" else (), c.units, c.origins, c.frame))
    rep = ("all",)
    for c in calls.registry(False):
        if c.name.split("_")[0] in ("rho", "m", "sigv", "beta", "alpha", "eta", "v", "v2", "vcirc") and " " not in c.name: pass
    P = []
    for n in ("rho_prof", "m_prof", "sigv_prof", "beta_prof", "v_prof", "v2_prof", "vcirc_prof", "alpha_prof", "eta_prof"):
        for kw in (dict(), dict(projected=True), dict(normalize=True)):
            k = dict(kw, plot=True, nrad=4)
            if n in ("alpha_prof", "eta_prof"): k["nmass"] = 3
            P.append(Op("%s plot %s" % (n, "".join(kw)), lambda c, w, n=n, k=k: getattr(ct, n)(c, **k)))
    for c in calls.fits():
        out.append(Op(c.name, lambda k, w, c=c: c.fn(k, oracle.O(w, c.eff(k.origin))), (), c.units, c.origins, c.frame))
    for p in (False, True):
        P.append(Op("rcore plot" + " projected" * p, lambda c, w, p=p: ct.rcore(c, projected=p, mfrac=.25, plot=True), units=NOAMUSE))
        P.append(Op("rcore isothermal" + " projected" * p, lambda c, w, p=p: ct.rcore(c, projected=p, mfrac=.25, method="isothermal")))
    P.append(Op("virial_radius plot", lambda c, w: ct.virial_radius(c, method="critical_density", overdens=2e7, plot=True), units=NOAMUSE))
    P.append(Op("tapered plot", lambda c, w: ct.tapered_mass_function(c, nmass=5, kwmax=15, plot=True), units=NOAMUSE))
    P.append(Op("rtidal plot", lambda c, w: ct.rtidal(c, pot=oracle.POT, plot=True), units=NOAMUSE))
    P.append(Op("rlimiting plot", lambda c, w: ct.rlimiting(c, pot=oracle.POT, nrad=5, plot=True), units=NOAMUSE))
    P.append(Op("mass_function plot", lambda c, w: ct.mass_function(c, nmass=4, kwmax=15, plot=True), units=NOAMUSE))
    P.append(Op("eta_function plot", lambda c, w: ct.eta_function(c, nmass=4, kwmax=15, plot=True), units=NOAMUSE))
    P.append(Op("starplot", lambda c, w: ct.starplot(c, do_centre=False), units=NOAMUSE))
    P.append(Op("skyplot", lambda c, w: ct.skyplot(c, do_centre=False), SKY, units=NOAMUSE))
    P.append(Op("snapout", lambda c, w: ct.snapout(c, "o.dat"), units=NOAMUSE))
    P.append(Op("snapout energies", lambda c, w: ct.snapout(c, "o.dat", energies=True), units=NOAMUSE))
    P.append(Op("snapout radec", lambda c, w: ct.snapout(c, "o.dat", radec=True), SKY, units=NOAMUSE))
    P.append(Op("sseout", lambda c, w: ct.sseout(c, "o.dat"), units=NOAMUSE))
    P.append(Op("fortout", lambda c, w: ct.fortout(c, "o.dat"), units=NOAMUSE))
    P.append(Op("gyrout", lambda c, w: ct.gyrout(c, "o.dat"), units=NOAMUSE))
    P.append(Op("sub_cluster", lambda c, w: ct.sub_cluster(c, indx=np.arange(c.ntot) % 2 == 0), units=NOAMUSE))
    P.append(Op("overlap", lambda c, w: ct.overlap_cluster(c, c), units=NOAMUSE) if hasattr(ct, "overlap_cluster") else None)
    P.append(Op("subset", lambda c, w: c.subset(mmin=np.median(c.m)), units=NOAMUSE))
    P.append(Op("initialize_orbit", lambda c, w: ct.initialize_orbit(c), units=NOAMUSE))
    P.append(Op("initialize_orbits", lambda c, w: ct.initialize_orbits(c), units=NOAMUSE))
    P.append(Op("initialize_orbit centre", lambda c, w: ct.initialize_orbit(c, from_centre=True), units=NOAMUSE))
    P.append(Op("orbital_path", lambda c, w: ct.orbital_path(c, pot=oracle.POT, nt=20, tfinal=0.05 / w.factors(c.units if c.units != "amuse" else "pckms")[3]), units=NOAMUSE))
    P.append(Op("tail_path", lambda c, w: ct.tail_path(c, pot=oracle.POT, nt=20, dt=0.05 / w.factors(c.units if c.units != "amuse" else "pckms")[3]), units=NOAMUSE))
    out += [p for p in P if p]
    return out


def mk(w, units, origin, saved):
    if origin == "sky":
        with common.quiet():
            c = calls.build(w, "kpckms", "galaxy"); c.to_sky()
    else:
        c = calls.build(w, units, origin)
    if saved == 3:                          # the centre has not been looked for yet
        z = (0 * c.x[0], 0 * c.vx[0])
        with common.quiet():
            c.xc, c.yc, c.zc, c.vxc, c.vyc, c.vzc = [z[0]] * 3 + [z[1]] * 3
            c.energies()
    elif saved:
        with common.quiet():
            c.energies(); c.save_cluster()
        if saved == 2:                      # saved elsewhere: what is stored is not the current state
            with common.quiet():
                c.to_pckms(); c.to_centre() if c.origin != "centre" else c.to_galaxy()
    c._mcw = w
    return c


def legal(op, units, origin):
    if op.units is not None and units not in op.units: return False
    if op.origins is not None and origin not in op.origins and not (origin == "sky" and op.frame != "asis"): return False
    return True


def one(item, part):
    units, origin, saved, full, unsorted = item
    import matplotlib.pyplot as plt
    w = oracle.W30()
    c0 = mk(w, units, origin, saved)
    if unsorted:
        c0.rorder, c0.rorder_origin = None, None
    before = snap(c0)
    for op in ops(full):
        if not legal(op, c0.units, c0.origin) or (saved == 3 and "isothermal" in op.name) or (op.name == "snapout energies" and not saved): continue
        c = copy.deepcopy(c0); c._mcw = w
        part.transitions += 1; part.traces += 1
        case = dict(units=units, origin=origin, saved=saved, full=full, unsorted=unsorted, op=op.name)
        for rep in (1, 2):
            try:
                with common.quiet(), common.limit(120): op.fn(c, w)
            except Exception as e:
                part.violation("%s raised in %s/%s" % (op.name, units, origin), "%s: %s" % (case, common.exc_text(e)), case); break
            d = diff(before, vars(c), op.allow)
            if d:
                part.violation("%s changes %s" % (op.name, ",".join(d)), "%s (call %d): changed %s: %s" % (
                    case, rep, d, [(k, str(before.get(k))[:80], str(vars(c).get(k))[:80]) for k in [x.lstrip("+-") for x in d][:4]]), case); break
        part.outcome(op.name, units, origin, saved)
        plt.close("all")
        part.states += 1


def replay(case):
    p = common.Part()
    one((case["units"], case["origin"], case["saved"], case["full"], case["unsorted"]), p)
    return [v for v in p.violations if v.case["op"] == case["op"]]


def run(ctx):
    t = ctx.thorough
    calls.warm()
    uo = [(u, o) for u in UNITS for o in ORIGINS] + [("radec", "sky")]
    items = [(u, o, s, t, False) for u, o in uo for s in (0, 1)] + [(u, o, 3, t, False) for u in (UNITS if t else ['pckms', 'galpy', 'amuse']) for o in ('galaxy', 'cluster')]
    if t: items += [(u, o, s, t, x) for u, o in uo for s, x in ((2, False), (0, True))]
    ctx.pmap(one, items)
    ctx.bounds = dict(units=UNITS, origins=ORIGINS, calls=len(ops(t)))
    ctx.explanation = "every read-only call, twice, at every (units, origin), with and without a stored state: every attribute of the object compared before and after"
