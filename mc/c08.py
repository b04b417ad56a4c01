"""C08  selections: subset / sub_cluster pick exactly the stars meeting every given
criterion (bounds inclusive), carry all their data along, and touch neither the
parent nor the caller's arguments."""
import copy, itertools
import numpy as np
from . import common, world, calls, oracle, c05
import clustertools as ct
from clustertools import StarCluster

N = 14
CRIT = ("rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "kw", "npop", "indx", "emin", "emax")
STAR = ("x", "y", "z", "vx", "vy", "vz", "m", "m0", "id", "npop", "kw", "logl", "logr", "lum", "ep", "ospin", "kin", "pot", "etot", "r", "v", "rpro", "vpro")
SKYS = ("ra", "dec", "dist", "pmra", "pmdec", "vlos")
BSE = ("id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2", "eb")
META = ("units", "origin", "tphys", "rbar", "zmbar", "vbar", "tbar", "_ro", "_vo", "_zo", "_solarmotion", "bunits", "xc", "yc", "zc", "vxc", "vyc", "vzc",
        "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "rbar_au", "rbar_su", "tbar_days", "projected", "centre_method", "ctype")
METASKY = tuple(a + b for a in SKYS for b in ("_gc", "_c"))
STARTS = [("pckms", "cluster"), ("kpckms", "galaxy"), ("nbody", "centre"), ("galpy", "cluster"), ("radec", "sky"), ("pckms", "centre")]


def mk(units, origin):
    w = oracle.W30(N, ro=8.0, vo=220., zo=0.02)
    w.ids = (np.arange(N) * 7) % 101 + 3
    w.binaries = [(w.ids[a], w.ids[b], 1, 2, 0, .3 + .01 * a, 100. + a, .5 + .1 * a, .6, .4, .1, .2, .3, .4) for a, b in ((0, 1), (3, 4), (8, 2))]
    with common.quiet():
        c = w.build("kpckms" if units == "radec" else units, "galaxy" if units == "radec" else origin, nbody6=True)
        c.npop = np.asarray(w.npop).copy(); c.m0 = c.m * 1.3 + .1
        c.ep, c.ospin = np.arange(N) * .5 + 1, np.arange(N) * .25 + 2
        c.energies()
        e = np.linspace(-3., 2., N); e[N // 2] = 0.0          # bound, exactly marginal and unbound stars
        c.add_energies(np.abs(c.kin), np.array(e - np.abs(c.kin)), e)
        if units == "radec": c.to_sky()
    c._mcw = w
    return c, w


def values(c, pro, variant="own"):
    """bounds, each exactly equal to some star's value; or all zero; or all so wide that every star passes"""
    if variant == "zero":
        return dict(rmin=0., rmax=0., mmin=0., mmax=0., vmin=0., vmax=0., kw=(0, 0), npop=0, indx=np.arange(N) % 4 != 2, emin=0., emax=0.)
    if variant == "wide":
        return dict(rmin=-1., rmax=1e9, mmin=-1, mmax=1e9, vmin=-1., vmax=1e9, kw=(0, 15), npop=2, indx=np.ones(N, bool), emin=-1e9, emax=1e9)
    r, v = (c.rpro, c.vpro) if pro else (c.r, c.v)
    q = lambda a, k: np.sort(a)[k]
    mask = np.arange(N) % 4 != 2
    return dict(rmin=q(r, 2), rmax=q(r, N - 3), mmin=q(c.m, 1), mmax=q(c.m, N - 2), vmin=q(v, 1), vmax=q(v, N - 3), kw=(1, 3), npop=1, indx=mask, emin=q(c.etot, 1), emax=q(c.etot, N - 2))


def args_of(combo, vals):
    kw, mask = {}, None
    for k in combo:
        if k == "kw": kw["kwmin"], kw["kwmax"] = vals["kw"]
        elif k == "indx": mask = vals["indx"].copy(); kw["indx"] = mask
        else: kw[k] = vals[k]
    return kw, mask


def want(c, combo, vals, pro):
    r, v = (c.rpro, c.vpro) if pro else (c.r, c.v)
    s = np.ones(N, bool)
    for k in combo:
        b = vals[k]
        if k == "rmin": s &= r >= b
        elif k == "rmax": s &= r <= b
        elif k == "mmin": s &= c.m >= b
        elif k == "mmax": s &= c.m <= b
        elif k == "vmin": s &= v >= b
        elif k == "vmax": s &= v <= b
        elif k == "kw": s &= (c.kw >= b[0]) & (c.kw <= b[1])
        elif k == "npop": s &= c.npop == b
        elif k == "indx": s &= b
        elif k == "emin": s &= c.etot >= b
        elif k == "emax": s &= c.etot <= b
    return s


def verify_sub(c, s, sel):
    """compare a sub cluster with the parent's selected data"""
    bad = []
    if s.ntot != sel.sum(): return [("number of stars", "%d want %d" % (s.ntot, sel.sum()))]
    if not sel.any(): return []
    for a in STAR + (SKYS if c.origin == "sky" else ()):
        p = getattr(c, a)
        if np.size(p) != N: continue
        if not c05.same(np.asarray(p)[sel], np.asarray(getattr(s, a))): bad.append(("attribute " + a, "%s want %s" % (getattr(s, a), np.asarray(p)[sel])))
    ids = set(np.asarray(c.id)[sel].tolist())
    rows = np.array([a in ids or b in ids for a, b in zip(c.id1, c.id2)], bool)
    for a in BSE:
        if not c05.same(np.asarray(getattr(c, a))[rows], np.asarray(getattr(s, a))): bad.append(("binary attribute " + a, "%s want %s" % (getattr(s, a), np.asarray(getattr(c, a))[rows])))
    for a in META + (METASKY if c.origin == "sky" else ()):
        if not c05.same(getattr(c, a, None), getattr(s, a, None)): bad.append(("cluster attribute " + a, "%s want %s" % (getattr(s, a, None), getattr(c, a, None))))
    if s.nb != rows.sum() or s.ns != s.ntot - s.nb: bad.append(("counts", "nb %s ns %s of %d, %d binaries" % (s.nb, s.ns, s.ntot, rows.sum())))
    if not common.close(s.mtot, c.m[sel].sum(), rel=1e-9): bad.append(("mtot", ""))
    o = np.argsort(c.r[sel], kind="stable"); ms = np.cumsum(c.m[sel][o])
    if not common.close(s.rm, c.r[sel][o][ms >= .5 * ms[-1] * (1 - 1e-12)][0], rel=1e-9): bad.append(("half mass radius", ""))
    if not np.array_equal(c.r[sel][s.rorder], np.sort(c.r[sel])): bad.append(("ordering", ""))
    return bad


def case_subset(c, snap0, combo, pro, part, case, full, variant="own"):
    vals = values(c, pro, variant); kw, mask = args_of(combo, vals); sel = want(c, combo, vals, pro)
    kw0 = copy.deepcopy(kw)
    part.transitions += 1; part.traces += 1
    with common.quiet():
        got = c.subset(projected=pro, **kw)
    if not (isinstance(got, np.ndarray) and got.shape == (N,) and np.array_equal(got.astype(bool), sel)):
        part.violation("subset %s" % ",".join(combo), "%s: got %s want %s" % (case, got, sel), case)
    if mask is not None and not np.array_equal(mask, kw0["indx"]): part.violation("caller's mask changed by subset", str(case), case)
    if not full: return
    if not sel.any():
        with common.quiet(): s = ct.sub_cluster(c, projected=pro, **kw)
        if s.ntot != 0: part.violation("sub_cluster of nothing", "%s: %d stars" % (case, s.ntot), case)
        return
    with common.quiet(): s = ct.sub_cluster(c, projected=pro, **kw)
    part.transitions += 1
    for k, m in verify_sub(c, s, sel): part.violation("sub_cluster " + k, "%s: %s" % (case, m), case)
    if mask is not None and not np.array_equal(mask, kw0["indx"]): part.violation("caller's mask changed by sub_cluster", str(case), case)
    d = c05.diff(snap0, vars(c))
    if d: part.violation("parent changed: " + ",".join(d), str(case), case)
    part.outcome(tuple(np.nonzero(sel)[0]))
    return s, sel


def moves(c):
    return ["to_pckms", "to_galaxy", "to_centre", "to_sky", "to_nbody", "to_audays"] if c.origin != "sky" else ["to_galaxy", "to_cluster", "to_centre"]


def one(item, part):
    (units, origin), pro, size, lo, hi, full = item
    c, w = mk(units, origin); snap0 = c05.snap(c)
    combos = list(itertools.combinations(CRIT, size))[lo:hi] if size is not None else [x for k in range(len(CRIT) + 1) for x in itertools.combinations(CRIT, k)][lo:hi]
    for combo in combos:
        if units == "radec" and any(k in combo for k in ("rmin", "rmax")) and not pro: pass
        case = dict(units=units, origin=origin, pro=pro, combo=list(combo), kind="select")
        try: case_subset(c, snap0, combo, pro, part, case, True)
        except Exception as e: part.violation("selection raised", "%s: %s" % (case, common.exc_text(e)), case)
        part.states += 1
        if len(combo) in (1, 2):
            for var in ("zero", "wide"):
                try: case_subset(c, snap0, combo, pro, part, dict(case, variant=var), True, var)
                except Exception as e: part.violation("selection raised", "%s %s: %s" % (case, var, common.exc_text(e)), dict(case, variant=var))
                part.states += 1
    part.sample(dict(units=units, origin=origin, projected=pro, combos=[list(x) for x in combos[:3]]))


def hist(item, part):
    """a selection, then every move on the sub cluster: same numbers as moving the parent; parent untouched; selection of a selection"""
    (units, origin), combo, depth = item
    c, w = mk(units, origin); snap0 = c05.snap(c)
    vals = values(c, False); kw, mask = args_of(combo, vals); sel = want(c, combo, vals, False)
    case0 = dict(units=units, origin=origin, combo=list(combo), kind="hist")
    with common.quiet(): s0 = ct.sub_cluster(c, **kw)
    if not sel.any(): return
    def rec(s, p, h):
        for mv in moves(p):
            s2, p2 = copy.deepcopy(s), copy.deepcopy(p)
            part.transitions += 1; case = dict(case0, h=h + [mv])
            try:
                with common.quiet():
                    getattr(s2, mv)(); getattr(p2, mv)()
            except Exception as e:
                part.violation("%s raised on a sub cluster" % mv, "%s: %s" % (case, common.exc_text(e)), case); continue
            bad = False
            for a in ("x", "y", "z", "vx", "vy", "vz", "m"):
                if not common.close(getattr(s2, a), getattr(p2, a)[sel], rel=1e-7): bad = True; part.violation("%s after %s differs from the parent's" % (a, mv), str(case), case)
            for a in ("xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "tphys", "semi", "pb", "m1"):
                pv = np.asarray(getattr(p2, a), float)
                if a in ("semi", "pb", "m1"): ids = set(np.asarray(p2.id)[sel].tolist()); pv = pv[np.array([x in ids or y in ids for x, y in zip(p2.id1, p2.id2)], bool)]
                if not common.close(getattr(s2, a), pv, rel=1e-7, abs_=1e-12): bad = True; part.violation("%s after %s differs from the parent's" % (a, mv), "%s: %s want %s" % (case, getattr(s2, a), pv), case)
            part.states += 1
            if len(h) + 1 < depth and not bad: rec(s2, p2, h + [mv])
    rec(s0, c, [])
    # moving the sub cluster in place must not reach into the parent
    with common.quiet():
        s0.m *= 2; s0.x += 5; s0.kw += 1; s0.ecc *= 3; s0.to_kpckms() if s0.origin != "sky" else s0.to_galaxy()
    d = c05.diff(snap0, vars(c))
    if d: part.violation("changing a sub cluster changed the parent: " + ",".join(d), str(case0), case0)
    # selection of a selection
    for combo2 in itertools.combinations(("rmax", "mmin", "kw", "npop", "emax"), 2):
        kw2, _ = args_of(combo2, vals)
        with common.quiet():
            s1 = ct.sub_cluster(c, **args_of(combo, vals)[0]); s2 = ct.sub_cluster(s1, **kw2)
        both = sel & want(c, combo2, vals, False); part.transitions += 1
        for k, m in verify_sub(c, s2, both): part.violation("selection of a selection: " + k, "%s then %s: %s" % (combo, combo2, m), dict(case0, combo2=list(combo2)))

RN = 140
SCALES = [dict()] + [dict(k, **{f: True for f in fl}) for k in (dict(reset_nbody=True), dict(reset_nbody_mass=True), dict(reset_nbody_radii=True), dict(reset_nbody_mass=True, reset_nbody_radii=True))
                     for fl in ((), ("reset_rvirial",), ("reset_rvirial", "reset_projected"))]
PICK = {"all": None, "most": lambda i: i % 9 != 4, "half": lambda i: i % 2 == 0}


def resets(item, part):
    """a sub cluster whose centre and / or N-body scaling is found anew: same stars at the same physical places and speeds, the centre and the
    scaling those of the selected stars alone, everything else as in the parent"""
    units, origin, pick, centre, kw, full = item
    case = dict(units=units, origin=origin, pick=pick, centre=centre, kw=kw, full=full, kind="reset")
    w = oracle.W30(RN, ro=8.0, vo=220., zo=0.02, rbar=1.7)
    w.stars[:, 1:4] += (0.2, -0.15, 0.1)
    i = np.arange(RN); sel = np.ones(RN, bool) if PICK[pick] is None else PICK[pick](i)
    sub = copy.deepcopy(w); sub.stars = w.stars[sel]; sub.ids = i[sel]; w.ids = i
    sub.sse = None if w.sse is None else np.asarray(w.sse)[sel]
    part.transitions += 1; part.states += 1; part.traces += 1
    try:
        with common.quiet():
            c = w.build("kpckms" if units == "radec" else units, "galaxy" if units == "radec" else origin, nbody6=True)
            if units == "radec": c.to_sky()
            snap0 = c05.snap(c); f0 = w.factors("kpckms" if units == "radec" else units)
            s = ct.sub_cluster(c, indx=sel.copy(), reset_centre=centre, **kw)
    except Exception as e:
        part.violation("sub_cluster with resets raised", "%s: %s" % (case, common.exc_text(e)), case); return
    d = c05.diff(snap0, vars(c))
    if d: part.violation("parent changed: " + ",".join(d), str(case), case)
    if (s.units, s.origin, s.ntot) != (c.units, c.origin, sel.sum()):
        part.violation("units, origin or size of a sub cluster with resets", "%s: %s" % (case, (s.units, s.origin, s.ntot)), case); return
    if not np.array_equal(np.sort(s.id), np.sort(np.asarray(c.id)[sel])): part.violation("stars of a sub cluster with resets", str(case), case); return
    # the scaling the sub cluster carries
    got = [float(getattr(s, a)) for a in ("zmbar", "rbar", "vbar", "tbar")]
    with common.quiet():
        g = copy.deepcopy(s); g.to_galaxy(sortstars=False); g.to_pckms()
        gal = np.column_stack([np.asarray(getattr(g, a), float) for a in world.POS + world.VEL])
        cen = np.array([float(getattr(g, a)) for a in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc")]); off = np.array([float(getattr(g, a)) for a in ("xc", "yc", "zc", "vxc", "vyc", "vzc")])
        h = copy.deepcopy(s); h.to_galaxy(); h.to_centre(); h.to_pckms()
        cc = np.column_stack([np.asarray(getattr(h, a), float) for a in world.POS + world.VEL])
    X, V = sub.xyz("galaxy"); true = np.column_stack([X, V]); order = np.argsort(np.asarray(s.id)); o2 = np.argsort(np.asarray(sub.ids))
    tol = 1e-5 if units == "radec" else 1e-6
    if not common.close(gal[order], true[o2], tol, abs_=2e-4): part.violation("stars moved by the resets", "%s: off by %s" % (case, np.abs(gal[order] - true[o2]).max(0)), case)
    if not common.close(cc[order], true[o2] - cen - off, tol, abs_=2e-4): part.violation("centre frame of a sub cluster with resets", "%s: off by %s" % (case, np.abs(cc[order] - true[o2] + cen + off).max(0)), case)
    # its centre
    fr = "cluster" if origin in ("cluster", "centre") else "galaxy"
    if centre:
        want = oracle.O(sub, fr).cod_harfst(100, np.zeros(6), 0.1 * f0[0])
        have = off if fr == "cluster" else cen
        if not common.close(have, want, 1e-6, abs_=2e-4): part.violation("centre found for a sub cluster", "%s: %s want %s" % (case, have, want), case)
    p = copy.deepcopy(c)
    with common.quiet(): p.to_galaxy(); p.to_pckms()
    if not (centre and fr == "galaxy"):
        for a, k in zip(("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"), range(6)):
            if not common.close(cen[k], float(getattr(p, a)), 1e-7, abs_=1e-6): part.violation("orbit of a sub cluster with resets", "%s: %s %s" % (case, a, cen), case)
    if not centre:
        for a, k in zip(("xc", "yc", "zc", "vxc", "vyc", "vzc"), range(6)):
            if not common.close(off[k], float(getattr(p, a)), 1e-6, abs_=2e-4): part.violation("centre offset of a sub cluster with resets", "%s: %s %s" % (case, a, off), case)
    if not common.close(float(g.tphys), float(p.tphys), 1e-6): part.violation("time of a sub cluster with resets", "%s: %s Myr want %s" % (case, g.tphys, p.tphys), case)
    for a in ("_ro", "_vo", "_zo", "ctype", "bunits"):
        if not c05.same(getattr(c, a), getattr(s, a)): part.violation("cluster attribute %s of a sub cluster with resets" % a, str(case), case)
    # its scaling
    mass = kw.get("reset_nbody") or kw.get("reset_nbody_mass"); radii = kw.get("reset_nbody") or kw.get("reset_nbody_radii")
    z0, r0 = w.zmbar, w.rbar
    if mass or radii:
        base = true[o2] - cen - (0 if origin == "cluster" else off)
        m = sub.stars[o2, 0]; q = oracle.O(sub, "galaxy"); q.m, q.X, q.V = m, base[:, :3], base[:, 3:]
        q.x, q.y, q.z = q.X.T; q.vx, q.vy, q.vz = q.V.T
        z = m.sum() if mass else z0
        pro = bool(kw.get("reset_projected"))
        r = r0 if not radii else q.rvir(pro) if kw.get("reset_rvirial") else 4. / 3. * q.lagr(0.5)
        v = 0.06557 * np.sqrt(z / r); e = [z, r, v, r / (1.0227 * v)]
    else: e = [w.zmbar, w.rbar, w.vbar, w.tbar]
    if not (common.close(got, e, 1e-3) and common.close(got[:2], e[:2], 1e-5)): part.violation("N-body scaling of a sub cluster", "%s: %s want %s" % (case, got, e), case)
    if units == "nbody" and not common.close(float(s.mtot) * got[0], sub.stars[:, 0].sum(), 1e-6): part.violation("N-body masses of a sub cluster with resets", "%s: %s x %s" % (case, s.mtot, got[0]), case)
    part.outcome((units, origin, pick, centre, tuple(sorted(kw)), tuple(np.round(got, 9))))
    part.sample(case)



def components(item, part):
    """components of binaries given with the stars"""
    units, origin = item
    with common.quiet():
        c = StarCluster(10., units=units, origin=origin)
        c.add_stars(*(np.sin(1. + np.arange(42)).reshape(6, 7) + 2.), m=np.arange(7) + 1., nb=2)
        s = ct.sub_cluster(c)
    part.states += 1; part.traces += 1; part.outcome("components", item)
    for n in [a + k for k in "12" for a in ("xb", "yb", "zb", "vxb", "vyb", "vzb", "mb")]:
        a, b = np.asarray(getattr(c, n)), np.asarray(getattr(s, n))
        if np.array_equal(a, b): continue
        if len(b) == 0: part.violation("components of binaries are not carried", "%s of all stars of a cluster in %s: none, it has %d" % (n, item, len(a)), dict(kind="components", item=list(item)))
        else: part.violation("components of binaries", "%s of all stars of a cluster in %s: %s want %s" % (n, item, b, a), dict(kind="components", item=list(item)))


def overlap(item, part):
    """the stars of one cluster within a distance of any star of another: every distinct tolerance"""
    units, origin, pro, other = item
    case = dict(kind="overlap", item=list(item))
    c, w = mk(units, origin)
    d, _ = mk(units, origin)
    with common.quiet():
        if other == "part": d = ct.sub_cluster(d, mmin=np.sort(d.m)[N // 2])
        elif other == "one": d = ct.sub_cluster(d, indx=np.arange(N) == 4)
        else:
            for a, q in zip("xyz", (.3, -.2, .45)): setattr(d, a, getattr(d, a) * 1.1 + q * np.std(d.x))
            d.analyze()
    D = np.sqrt(sum((np.asarray(getattr(c, a))[:, None] - np.asarray(getattr(d, a))[None]) ** 2 for a in ("xy" if pro else "xyz"))).min(axis=1)
    cut = np.unique(D); scale = np.max(D)
    tols = [t for t in np.concatenate([[.5 * cut[cut > 0][0]], .5 * (cut[1:] + cut[:-1]), [1.5 * scale]]) if np.min(np.abs(D - t)) > 1e-9 * scale]
    sc, sd = c05.snap(c), c05.snap(d)
    for t in tols:
        part.states += 1; part.transitions += 2; part.traces += 2
        want = D < t; part.outcome("overlap", units, origin, pro, other, int(want.sum()))
        with common.quiet(): m = ct.overlap_cluster(c, d, tol=t, projected=pro, return_cluster=False)
        if not np.array_equal(np.asarray(m, bool), want): part.violation("overlap of two clusters", "%s, tolerance %s: %s want %s" % (case, t, np.flatnonzero(m), np.flatnonzero(want)), case)
        if want.any():
            with common.quiet(): s = ct.overlap_cluster(c, d, tol=t, projected=pro)
            for k, msg in verify_sub(c, s, want): part.violation("overlapping stars: " + k, "%s, tolerance %s: %s" % (case, t, msg), case)
    for a, b, n in ((sc, c, "first"), (sd, d, "second")):
        e = c05.diff(a, c05.snap(b))
        if e: part.violation("overlap changes the %s cluster" % n, "%s: %s" % (case, e), case)


def replay(case):
    p = common.Part()
    if case["kind"] == "overlap": overlap(case["item"], p); return p.violations
    if case["kind"] == "components": components(case["item"], p); return p.violations
    if case["kind"] == "select":
        c, w = mk(case["units"], case["origin"])
        try: case_subset(c, c05.snap(c), tuple(case["combo"]), case["pro"], p, case, True, case.get("variant", "own"))
        except Exception as e: p.violation("raised", common.exc_text(e), case)
    elif case["kind"] == "reset": resets((case["units"], case["origin"], case["pick"], case["centre"], case["kw"], case["full"]), p)
    else: hist(((case["units"], case["origin"]), tuple(case["combo"]), 2), p)
    return p.violations


def run(ctx):
    calls.warm()
    t = ctx.thorough
    starts = STARTS if t else STARTS[:3] + STARTS[4:5]
    n = 2 ** len(CRIT); step = 256
    ctx.pmap(one, [(s, pro, None, lo, lo + step, t) for s in starts for pro in (False, True) for lo in range(0, n, step)])
    cs = [()] + [(k,) for k in CRIT] + ([x for x in itertools.combinations(CRIT, 2)] if t else [("rmax", "indx"), ("mmin", "kw")])
    ctx.pmap(hist, [(s, x, 2) for s in starts for x in cs])
    rs = [(u, o) for u in ("pckms", "kpckms", "nbody", "galpy") + (("kpcgyr", "pcmyr", "WDunits") if t else ()) for o in ("centre", "cluster", "galaxy")] + [("radec", "sky")]
    items = [(u, o, k, ce, kw, t) for u, o in rs for k in PICK for ce in (False, True) for kw in SCALES]
    ctx.pmap(resets, items)
    ctx.pmap(overlap, [(u, o, p, x) for u, o in (rs if t else rs[:-1:2]) if u != "radec" for p in (False, True) for x in ("part", "one", "moved")])
    ctx.pmap(components, [(u, o) for u in ("pckms", "kpckms", "nbody", "galpy") for o in ("cluster", "galaxy")])
    ctx.bounds = dict(criteria=CRIT, combinations="all 2^%d" % len(CRIT), starts=starts, stars=N, resets=len(items))
    ctx.explanation = "every combination of selection criteria (bounds equal to a star's own value), 3D and projected; sub clusters then moved through every pair of conversions alongside their parent"
