"""C20  calling an analysis as a method of the cluster is calling the function on it: the same value for the
same arguments and defaults (projected defaulting to StarCluster.projected), remembered in the documented
attribute, nothing else changed, and not disturbed by the analyses called afterwards; and every operation
does the same to the cluster as a method and as a function."""
import copy
import numpy as np
import clustertools as ct
from galpy.orbit import Orbit
from . import common, world, calls, oracle
from .world import UNITS, ORIGINS
from .c05 import diff, same, snap

POT = oracle.POT
MM = ("mmin", "mmax")
NOAMUSE = tuple(u for u in UNITS if u != "amuse")
ENERGY = ("kin", "pot", "etot", "ektot", "ptot", "qv", "qvir")


class M:
    """attrs: where the method leaves its result, in order; pick: which of the function's values it returns"""
    def __init__(self, name, attrs, opts, pick=None, allow=(), pro=True, units=UNITS, origins=ORIGINS, ret=True, rel=1e-9):
        self.name, self.attrs, self.opts, self.pick, self.allow, self.pro = name, attrs, opts, pick, tuple(allow), pro
        self.units, self.origins, self.ret, self.rel = units, origins, ret, rel


def selections(base, full):
    """option forms for the calls that take a selection of stars"""
    out = [lambda c, o: dict(), lambda c, o: dict(base)]
    keys = ["all", "rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "npop", "kw", "kwhi", "indx", "mix", "mixi"]
    for k in keys:
        out.append(lambda c, o, k=k: dict(dict(base, kwmax=15), **(calls.scaled(c, calls._subargs(c, o, k)) if c.units != "amuse" else calls._subargs(c, o, k))))
    out.append(lambda c, o: dict(base, kwmax=15, emin=float(np.sort(world.num(c.etot))[5]), emax=float(np.sort(world.num(c.etot))[-5])))
    return out


def K(**kw): return lambda c, o: dict(kw)


def tf(c, t=0.02):
    return t * 1000. / calls.lens(c)[3]


def methods(full=False):
    idx = lambda n: np.arange(n) % 3 != 1
    sel = lambda **b: selections(b, full)
    mc = lambda c, o: dict(nmass=4, kwmax=15, mcorr=0.4 + 0.5 * ((np.arange(c.ntot) * .618) % 1.))
    path = dict(units=NOAMUSE, pro=False)
    R = [
        M("relaxation_time", ("trelax",), [K(), K(coulomb=.11), K(method="spitzer"), lambda c, o: dict(rad=calls.rad_arg(c, 1.3)), lambda c, o: dict(rad=calls.rad_arg(c, 2.), coulomb=.2)]),
        M("half_mass_relaxation_time", ("trh",), [K(), K(coulomb=.11)]),
        M("core_relaxation_time", ("trc",), [K(), K(coulomb=.11)]),
        M("energies", ("kin", "pot"), [K(), K(specific=False), K(full=False), lambda c, o: dict(softening=.7 / calls.lens(c)[0]), lambda c, o: dict(specific=False, full=False, softening=.2 / calls.lens(c)[0])], allow=ENERGY),
        M("energies", ("kin", "pot"), [lambda c, o: dict(ids=np.array([2, 9, 21])), lambda c, o: dict(i_d=np.array([2, 9])), lambda c, o: dict(ids=idx(c.ntot)), lambda c, o: dict(ids=7), lambda c, o: dict(ids=np.array([21, 4]), specific=False, softening=.7 / calls.lens(c)[0])], allow=ENERGY),
        M("closest_star", ("dclosest",), [K()]),
        M("closest_star", ("dclosest", "argclosest"), [K(argument=True)]),
        M("rlagrange", ("rn",), [K(), K(nlagrange=4)]),
        M("virial_radius", ("rv",), [K(), K(full=False), K(method="critical_density", overdens=2e7), K(method="critical_density", overdens=2e6, H=50., Om=.4, nrad=7), K(method="critical_density", overdens=2e7, bintype="fix") if full else K(method="inverse_distance")]),
        M("mass_function", ("alpha",), sel(nmass=4) + [mc, K(nmass=3, kwmax=15, bintype="fix")], pick=(3,), allow=MM),
        M("tapered_mass_function", ("alpha",), [K(nmass=5, kwmax=15), K(nmass=6, kwmax=15, npop=1), lambda c, o: dict(nmass=5, kwmax=15, mcorr=0.4 + 0.5 * ((np.arange(c.ntot) * .618) % 1.)), K(nmass=5), K(nmass=5, kwmax=15, mmin=1e9)], pick=(5,), allow=MM),
        M("eta_function", ("eta",), sel(nmass=4), pick=(2,), allow=MM),
        M("meq_function", ("meq",), sel(nmass=4), pick=(2,), allow=MM),
        M("ckin", ("ck",), [K(), K(nmass=2, kwmax=15), K(nmass=2, kwmax=15, npop=1), lambda c, o: dict(nmass=2, kwmax=15, indx=np.arange(c.ntot) % 6 != 1), lambda c, o: dict(nmass=2, kwmax=15, mmin=np.sort(c.m)[3] if c.units != "amuse" else o.m[np.argsort(o.m)[3]])]),
        M("rcore", ("rc",), [K(), K(nneighbour=4), K(method="isothermal", mfrac=.25), K(method="isothermal", mfrac=.3)]),
        M("rtidal", ("rt",), [K(pot=POT), K(pot=POT, rtiterate=3, rtconverge=.999), lambda c, o: dict(pot=POT, indx=idx(c.ntot)), K(pot=POT, rgc=6.), K(pot=POT, rgc=6., zgc=1.), K(pot=POT, from_centre=True)], pro=False),
        M("rlimiting", ("rl",), [K(pot=POT), K(pot=POT, nrad=5), K(pot=POT, rgc=6.), K(pot=POT, rgc=6., zgc=1.), K(pot=POT, nrad=6, from_centre=True)]),
        M("initialize_orbit", ("orbit",), [K(), K(from_centre=True), K(ro=8.4, vo=230., zo=0.01, solarmotion=[-10., 5., 3.])], **path),
        M("initialize_orbits", ("orbits",), [K(), K(ro=8.4, vo=230., zo=0.01, solarmotion=[-10., 5., 3.])], **path),
        M("orbital_path", ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), [lambda c, o, k=k: dict(k, pot=POT, nt=9, tfinal=tf(c)) for k in (dict(), dict(from_centre=True), dict(skypath=True))], allow=("orbit",), **path),
        M("orbital_path", ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath", "orbit"), [lambda c, o: dict(pot=POT, nt=9, tfinal=tf(c), initialize=True)], ret=7, **path),
        M("orbital_path_match", ("tstar", "dprog", "dpath"), [lambda c, o, k=k: dict(k, pot=POT, nt=21, tfinal=tf(c)) for k in (dict(), dict(from_centre=True), dict(to_path=True), dict(do_full=True))], allow=("orbit",), **path),
        M("to_tail", ("x_tail", "y_tail", "z_tail", "vx_tail", "vy_tail", "vz_tail"), [K()], allow=("r_tail", "v_tail"), ret=0, **path),
        M("tail_path", ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), [lambda c, o, k=k: dict(k, pot=POT, no=40, nt=5, ntail=6, tfinal=tf(c, .2)) for k in (dict(), dict(bintype="num"), dict(from_centre=True))], allow=("orbit",), **path),
        M("tail_path_match", ("tstar", "dprog", "dpath"), [lambda c, o, k=k: dict(k, pot=POT, no=40, nt=5, ntail=6, tfinal=tf(c, .2)) for k in (dict(), dict(to_path=True), dict(do_full=True))], allow=("orbit",), **path),
        M("subset", ("indx",), [], pro=False),
    ]
    return R


def build(units, origin, pro):
    w = oracle.W30()
    c = calls.build(w, units, origin)
    n = c.ntot
    with common.quiet():
        e = np.sin(1. + np.arange(n))
        c.add_energies(2. + e, -3. + np.cos(np.arange(n)))
    c.projected = pro
    c._mcw = w
    return c


def flatres(v):
    return list(v) if isinstance(v, tuple) else [v]


def six(o): return np.array([np.atleast_1d(f(use_physical=False)) for f in (o.x, o.y, o.z, o.vx, o.vy, o.vz)])


def eq(a, b, rel):
    if isinstance(a, Orbit) or isinstance(b, Orbit):
        return isinstance(a, Orbit) and isinstance(b, Orbit) and np.allclose(six(a), six(b), rtol=rel, atol=1e-13) and (a._ro, a._vo, a._zo) == (b._ro, b._vo, b._zo)
    na, nb = world.num(a), world.num(b)
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)) or (world.HAVE_AMUSE and isinstance(a, world.Quantity)):
        if world.HAVE_AMUSE and isinstance(a, world.Quantity) != isinstance(b, world.Quantity): return False
        if world.HAVE_AMUSE and isinstance(a, world.Quantity) and str(a.unit) != str(b.unit): return False
    na, nb = np.asarray(na, float), np.asarray(nb, float)
    return na.shape == nb.shape and (np.array_equal(na, nb, equal_nan=True) or bool(np.allclose(na, nb, rtol=rel, atol=0, equal_nan=True)) or common.close(na, nb, rel=rel))


def show(v): return str(v)[:90].replace("\n", " ")


def call_fn(m, c, kw, pro):
    k = dict(kw)
    if m.pro: k.setdefault("projected", pro)
    r = flatres(getattr(ct, m.name)(c, **k))
    if m.pick is not None: r = [r[i] for i in m.pick]
    return r


def masked(c, kw):
    """mask of the stars asked for by ids"""
    ids = kw.get("ids", kw.get("i_d"))
    if ids is None: return None
    ids = np.atleast_1d(ids)
    return ids if ids.dtype == bool else np.isin(c.id, ids)


def attempt(m, c, kw, kind, pro=None):
    try:
        with common.quiet(), common.limit(120):
            if kind == "method": return flatres(getattr(c, m.name)(**kw)), None
            return call_fn(m, c, kw, pro), None
    except Exception as e:
        return None, common.exc_text(e)


def one(item, part):
    import matplotlib.pyplot as plt
    units, origin, pro, mi, full = item
    m = methods(full)[mi]
    if units not in m.units or origin not in m.origins: return
    c0 = build(units, origin, pro)
    o = oracle.O(c0._mcw, origin)
    before = snap(c0)
    for k, opt in enumerate(m.opts):
        for given in ((None, False, True) if m.pro else (None,)):
            if given is not None and not full and k > 1 and given == pro: continue
            case = dict(item=list(item), name=m.name, opt=k, given=given)
            part.states += 1; part.transitions += 2; part.traces += 1
            c1, c2 = copy.deepcopy(c0), copy.deepcopy(c0)
            c1._mcw = c2._mcw = c0._mcw
            kw = opt(c1, o)
            if given is not None: kw["projected"] = given
            label = "%s(%s) in %s/%s, projected=%s" % (m.name, ", ".join("%s=%s" % (a, show(b)) for a, b in kw.items() if a != "pot"), units, origin, pro)
            want, e2 = attempt(m, c2, copy.copy(kw), "function", pro)
            got, e1 = attempt(m, c1, copy.copy(kw), "method")
            plt.close("all")
            V = lambda key, msg: part.violation("%s: %s" % (m.name, key), "%s: %s" % (label, msg), case)
            if e2 is not None and e1 is not None and k == 0 and not kw: part.count("neither " + m.name); continue      # not defined for so small a cluster: neither form gives a result
            if e2 is not None or e1 is not None:
                V("fails as %s" % ("method" if e1 else "function"), "method: %s, function: %s" % (e1, e2)); continue
            part.outcome(m.name, k, given, pro, origin)
            # the function leaves the cluster alone
            d = diff(before, vars(c2), ("orbit", "orbits") if m.allow == ("orbit",) or m.name.startswith("initialize") else ())
            d = [x for x in d if x.lstrip("+-") in m.attrs]
            if d: V("function sets " + ",".join(d), "calling the function changed %s" % d)
            # the method gives the same
            nret = len(m.attrs) if m.ret is True else m.ret
            if nret:
                if len(got) != nret: V("number of values", "%d values, want %d" % (len(got), nret)); continue
                for a, g, e in zip(m.attrs, got, want):
                    if not eq(g, e, m.rel): V("method and function differ", "method %s, function %s (%s)" % (show(g), show(e), a)); break
            # and it is remembered
            mask = masked(c1, kw)
            for a, e in zip(m.attrs, want):
                s = getattr(c1, a, None)
                if s is None: V("not remembered", "%s is not set" % a); break
                if mask is not None:
                    s = np.asarray(world.num(s), float)
                    if s.shape != mask.shape or not eq(s[mask], np.atleast_1d(np.asarray(world.num(e), float)), m.rel) or np.any(s[~mask] != 0): V("remembered", "%s is %s, want %s at the stars asked for" % (a, show(s), show(e))); break
                elif not eq(s, e, m.rel): V("remembered", "%s is %s, want %s" % (a, show(s), show(e))); break
            if m.name == "energies" and units != "amuse" and not eq(np.asarray(c1.etot), np.asarray(c1.kin) + np.asarray(c1.pot), 1e-9): V("etot", "etot is not kin+pot")
            if m.name == "to_tail":
                for q, abc in (("r_tail", ("x_tail", "y_tail", "z_tail")), ("v_tail", ("vx_tail", "vy_tail", "vz_tail"))):
                    if not eq(getattr(c1, q), np.sqrt(sum(np.asarray(getattr(c1, b)) ** 2 for b in abc)), 1e-9): V(q, "%s is not the length" % q)
            d = [x for x in diff(before, vars(c1), m.attrs + m.allow) if x.lstrip("+-") not in m.attrs + m.allow]
            if d: V("method changes " + ",".join(d), "also changed %s" % d)
    part.sample(dict(method=m.name, units=units, origin=origin, options=len(m.opts)))


def pairs(item, part):
    """A then B: B is what it would have been, A is still remembered"""
    import matplotlib.pyplot as plt
    units, origin, pro, ai, full = item
    ms = methods(full)
    A = ms[ai]
    if units not in A.units or not A.opts: return
    c0 = build(units, origin, pro)
    o = oracle.O(c0._mcw, origin)
    first = lambda m: m.opts[1] if m.name in ("mass_function", "eta_function", "meq_function", "ckin") else m.opts[0]
    ca = copy.deepcopy(c0); ca._mcw = c0._mcw
    ra, ea = attempt(A, ca, first(A)(ca, o), "method")
    if ea: return
    rem = {a: copy.deepcopy(getattr(ca, a)) for a in A.attrs}
    for bi, B in enumerate(ms):
        if units not in B.units or not B.opts: continue
        case = dict(pair=list(item), a=A.name, b=B.name, bi=bi)
        part.states += 1; part.transitions += 1; part.traces += 1
        c1 = copy.deepcopy(ca); c1._mcw = c0._mcw
        c2 = copy.deepcopy(c0); c2._mcw = c0._mcw
        kw = first(B)(c2, o)
        want, e2 = attempt(B, c2, copy.copy(kw), "method"); got, e1 = attempt(B, c1, copy.copy(kw), "method")
        plt.close("all")
        label = "%s then %s in %s/%s, projected=%s" % (A.name, B.name, units, origin, pro)
        V = lambda key, msg: part.violation("%s after %s: %s" % (B.name, A.name, key), "%s: %s" % (label, msg), case)
        if e2: continue
        if e1: V("fails", e1); continue
        part.outcome("pair", A.name, B.name)
        if B.ret:
            for g, e in zip(got, want):
                if not eq(g, e, 1e-7): V("differs", "%s, alone %s" % (show(g), show(e))); break
        for a in A.attrs:
            if a in B.attrs + B.allow: continue
            if not (eq(getattr(c1, a, None), rem[a], 1e-9) if getattr(c1, a, None) is not None else False): V("forgets", "%s of %s is %s, was %s" % (a, A.name, show(getattr(c1, a, None)), show(rem[a])))


OPS = [("to_pckms", ()), ("to_kpckms", ()), ("to_pcmyr", ()), ("to_kpcgyr", ()), ("to_nbody", ()), ("to_galpy", ()), ("to_WDunits", ()), ("to_amuse", ()), ("to_radec", ()),
       ("to_centre", ()), ("to_center", ()), ("to_cluster", ()), ("to_galaxy", ()), ("to_sky", ())] + \
      [(n, (("sortstars", False),)) for n in ("to_centre", "to_center", "to_cluster", "to_galaxy", "to_sky")] + \
      [(n, (("analyze", False),)) for n in ("to_pckms", "to_kpckms", "to_pcmyr", "to_kpcgyr", "to_galpy", "to_nbody", "to_WDunits", "to_amuse")] + \
      [("to_units", (("units", u),)) for u in UNITS] + [("to_origin", (("origin", q),)) for q in ORIGINS] + \
      [("to_origin", (("origin", q), ("sortstars", False))) for q in ORIGINS] + \
      [(n, (("centre_method", cm),)) for n in ("to_cluster", "to_centre", "to_sky") for cm in ("orthographic", "VandeVen")]


def opform(item, part):
    """an operation as a method and as a function: the same cluster afterwards; then the same again"""
    units, origin, full = item
    for pro in (False, True):
        if units == "radec":
            c0 = build("kpckms", "galaxy", pro)
            with common.quiet(): c0.to_sky()
        else: c0 = build(units, origin, pro)
        for k, (name, kw) in enumerate(OPS):
            if "centre_method" in dict(kw) and units != "radec": continue
            case = dict(op=list(item), k=k, name=name, pro=pro)
            part.states += 1; part.transitions += 2; part.traces += 1
            c1, c2 = copy.deepcopy(c0), copy.deepcopy(c0)
            r = []
            for f, c in ((lambda c: getattr(c, name)(**dict(kw)), c1), (lambda c: getattr(ct, name)(c, **dict(kw)), c2)):
                try:
                    with common.quiet(), common.limit(60): f(c)
                    r.append(None)
                except Exception as e: r.append(common.exc_text(e))
            label = "%s(%s) in %s/%s, projected=%s" % (name, dict(kw), units, origin, pro)
            if r[0] != r[1]: part.violation("%s: method and function differ" % name, "%s: method %s, function %s" % (label, r[0], r[1]), case); continue
            if r[0]: continue                                                     # not possible here, as either
            part.outcome("op", name, units, origin)
            d = diff(vars(c1), vars(c2), ("orbit", "orbits"))
            if d: part.violation("%s: method and function differ" % name, "%s: %s" % (label, [(x, show(vars(c1).get(x.lstrip("+-"))), show(vars(c2).get(x.lstrip("+-")))) for x in d[:4]]), case)


def replay(case):
    p = common.Part()
    if "item" in case:
        one(tuple(case["item"]), p)
        return [v for v in p.violations if v.case["opt"] == case["opt"] and v.case["given"] == case["given"]]
    if "pair" in case:
        pairs(tuple(case["pair"]), p)
        return [v for v in p.violations if v.case["bi"] == case["bi"]]
    opform(tuple(case["op"]), p)
    return [v for v in p.violations if v.case["k"] == case["k"] and v.case["pro"] == case["pro"]]


def run(ctx):
    t = ctx.thorough
    calls.warm()
    n = len(methods(t))
    us = UNITS if t else ("pckms", "kpckms", "nbody", "galpy", "amuse")
    ctx.pmap(one, [(u, o, p, i, t) for i in range(n) for u in us for o in ORIGINS for p in (False, True)])
    ctx.pmap(pairs, [(u, o, p, i, t) for i in range(n) for u in (("pckms", "kpckms", "galpy", "nbody") if t else ("kpckms",)) for o in (ORIGINS if t else ("galaxy", "cluster")) for p in ((False, True) if t else (True,))])
    ctx.pmap(opform, [(u, o, t) for u in UNITS for o in ORIGINS] + [("radec", "sky", t)])
    ctx.bounds = dict(units=list(us), origins=ORIGINS, methods=n, options=sum(len(m.opts) for m in methods(t)), operations=len(OPS))
    ctx.explanation = ("every analysis method x option form x projected (StarCluster.projected, given, not given) x (units, origin), against the function of the same name on an identical cluster; "
                       "every ordered pair of methods; every operation as method and function, whole object compared")
    ctx.assumptions = ["where neither form is defined for so small a cluster with the default arguments, nothing is compared"]
