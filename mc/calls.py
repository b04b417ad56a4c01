"""Registry of the read-only calls (analysis, profiles, coordinates, output):
how to make the call on a real cluster, in which frame it is defined, and what it
must return in physical units."""
import os, copy
import numpy as np
import clustertools as ct
from . import oracle, world, common
from .oracle import POT

L, V_, M, T = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)
V2 = (0, 2, 0, 0); MV2 = (0, 2, 1, 0); D3 = (-3, 0, 1, 0); D2 = (-2, 0, 1, 0); NM = (0, 0, -1, 0); N = (0, 0, 0, 0)
REL = 1e-7
GREL = 4e-3          # where the gravitational constant of the current unit system enters


class Call:
    """frame: 'toc' galaxy->centre, 'tocl' galaxy->cluster, 'asis' current origin"""
    def __init__(self, name, fn, ora, dims, frame="toc", rel=REL, quick=True, origins=("centre", "cluster", "galaxy"),
                 units=None, sets=()):
        self.name, self.fn, self.ora, self.dims, self.frame = name, fn, ora, dims, frame
        self.rel, self.quick, self.origins, self.units, self.sets = rel, quick, origins, units, sets

    def eff(self, origin):
        if origin != "galaxy" or self.frame == "asis": return origin
        return "centre" if self.frame == "toc" else "cluster"

    def legal(self, units, origin):
        return origin in self.origins and (self.units is None or units in self.units)


def lens(c):
    """one (length, velocity, mass) of the units arguments are given in, in pc, km/s, Msun"""
    return c._mcw.factors(c.units if c.units != "amuse" else "pckms")


def phys(res, dims, units, w):
    """plain physical numbers of a returned value"""
    f = w.factors(units)
    out = []
    if not isinstance(res, (tuple, list)) or (len(dims) == 1): res = (res,)
    if len(res) != len(dims):
        raise ValueError("returned %d values instead of %d" % (len(res), len(dims)))
    for v, d in zip(res, dims):
        isq = world.HAVE_AMUSE and isinstance(v, world.Quantity)
        if units == "amuse" and d is not N:
            if isq:
                u = world.u
                base = u.parsec ** d[0] * u.kms ** d[1] * u.MSun ** d[2] * u.Myr ** d[3]
                out.append(np.asarray(v.value_in(base), float))
            else:
                q = world.num(v)
                out.append(np.asarray(q, float))
        else:
            out.append(np.asarray(v, float) * f[0] ** d[0] * f[1] ** d[1] * f[2] ** d[2] * f[3] ** d[3])
    return out


def _subargs(c, o, key):
    """argument alphabet for selections: physical values (same stars in every unit system)"""
    r, v, m = o.r(), o.v(), o.m
    rs, vs, ms = np.sort(r), np.sort(v), np.sort(m)
    n = len(r)
    q = lambda a, f: 0.5 * (a[int(f * n)] + a[int(f * n) + 1])
    return {
        "all": {}, "rmin": dict(rmin=q(rs, .2)), "rmax": dict(rmax=q(rs, .7)), "mmin": dict(mmin=q(ms, .2)),
        "mmax": dict(mmax=q(ms, .75)), "vmin": dict(vmin=q(vs, .15)), "vmax": dict(vmax=q(vs, .8)),
        "npop": dict(npop=1), "kw": dict(kwmin=0, kwmax=1), "kwhi": dict(kwmin=1, kwmax=12),
        "indx": dict(indx=np.arange(n) % 6 != 1),
        "mix": dict(rmax=q(rs, .85), mmin=q(ms, .1), npop=1), "mixi": dict(rmin=q(np.sort(o.r(True)), .1), indx=np.arange(n) % 5 != 2),
    }[key]


def pick(res, idx): return tuple(res[i] for i in idx)


def tapered(res):
    mid, h, dm, A, eA, al, eal, mc, emc, be, ebe = res
    with np.errstate(all="ignore"): fit = A * mid ** al * (1 - np.exp(-(mid / mc) ** be))
    return mid, h, dm, fit, al, mc, be


def rad_arg(c, r): return (r | world.u.pc) if c.units == "amuse" else r / lens(c)[0]


def scaled(c, kw):
    l, v, m, t = lens(c)
    out = {}
    for k, val in kw.items():
        if k in ("rmin", "rmax"): out[k] = val / l
        elif k in ("vmin", "vmax"): out[k] = val / v
        elif k in ("mmin", "mmax"): out[k] = val / m
        elif k == "indx": out[k] = val.copy()
        else: out[k] = val
    return out


def registry(full=False):
    R = []
    add = lambda *a, **k: R.append(Call(*a, **k))
    for p in (False, True):
        s = " projected" if p else ""
        add("rlagrange" + s, lambda c, o, p=p: ct.rlagrange(c, nlagrange=5, projected=p), lambda o, p=p: [o.rlagrange(5, p)], [L])
        add("rlagrange mfrac" + s, lambda c, o, p=p: ct.rlagrange(c, mfrac=0.3, projected=p), lambda o, p=p: [o.lagr(.3, p)], [L])
        add("virial_radius" + s, lambda c, o, p=p: ct.virial_radius(c, projected=p), lambda o, p=p: [o.rvir(p)], [L])
        add("virial_radius loop" + s, lambda c, o, p=p: ct.virial_radius(c, full=False, projected=p), lambda o, p=p: [o.rvir(p)], [L])
        add("virial_radius critical" + s, lambda c, o, p=p: ct.virial_radius(c, method="critical_density", overdens=2e7, projected=p),
            lambda o, p=p: [o.rvir_crit(overdens=2e7, pro=p)], [L])
        add("energies" + s, lambda c, o, p=p: ct.energies(c, projected=p), lambda o, p=p: o.energies(pro=p), [V2, V2], "tocl", GREL)
        add("energies loop" + s, lambda c, o, p=p: ct.energies(c, full=False, projected=p), lambda o, p=p: o.energies(pro=p), [V2, V2], "tocl", GREL)
        add("energies total" + s, lambda c, o, p=p: ct.energies(c, specific=False, projected=p), lambda o, p=p: o.energies(False, pro=p), [MV2, MV2], "tocl", GREL)
        add("closest_star" + s, lambda c, o, p=p: ct.closest_star(c, projected=p), lambda o, p=p: [o.closest(p)[0]], [L], "asis", 1e-6)
        add("closest_star argument" + s, lambda c, o, p=p: ct.closest_star(c, projected=p, argument=True), lambda o, p=p: o.closest(p), [L, N], "asis", 1e-6)
        add("rcore" + s, lambda c, o, p=p: ct.rcore(c, projected=p), lambda o, p=p: [oracle.O(o.w, "centre").rcore(p)], [L])
        add("relaxation_time" + s, lambda c, o, p=p: ct.relaxation_time(c, projected=p), lambda o, p=p: [o.trelax(p)], [T])
        add("half_mass_relaxation_time" + s, lambda c, o, p=p: ct.half_mass_relaxation_time(c, projected=p), lambda o, p=p: [o.trh(p)], [T])
        add("core_relaxation_time" + s, lambda c, o, p=p: ct.core_relaxation_time(c, projected=p), lambda o, p=p: [o.trc(p)], [T])
        add("rlimiting" + s, lambda c, o, p=p: ct.rlimiting(c, pot=POT, nrad=5, projected=p), lambda o, p=p: [o.rlimiting(5, p)], [L])
        for key in (["all", "kw", "rmax", "indx", "mix"] if not full else ["all", "rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "npop", "kw", "kwhi", "indx", "mix", "mixi"]):
            if p and key in ("rmin", "vmin"): continue
            kk = lambda o, key=key: _subargs(None, o, key)
            t = s + " " + key
            # mass function works on the current coordinates
            add("mass_function" + t, lambda c, o, p=p, kk=kk: ct.mass_function(c, nmass=4, projected=p, **dict(dict(kwmax=15), **scaled(c, kk(o)))),
                lambda o, p=p, kk=kk: list(o.mass_function(o.select(p, **kk(o)), 4))[:5], [M, N, NM, N, N, "x", "x"], "asis")
            add("rho_prof" + t, lambda c, o, p=p, kk=kk: ct.rho_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.rho_prof(o.select(p, **kk(o)), 4, p), [L, D2 if p else D3, N])
            add("m_prof" + t, lambda c, o, p=p, kk=kk: ct.m_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.m_prof(o.select(p, **kk(o)), 4, p), [L, M, N])
            add("vcirc_prof" + t, lambda c, o, p=p, kk=kk: ct.vcirc_prof(c, nrad=None, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.vcirc_prof(o.select(p, **kk(o)), p), [L, V_, L, V_], rel=GREL)
            add("sigv_prof" + t, lambda c, o, p=p, kk=kk: ct.sigv_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.stat_prof(o.select(p, **kk(o)), 4, np.std, p), [L, V_])
            add("v_prof" + t, lambda c, o, p=p, kk=kk: ct.v_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.stat_prof(o.select(p, **kk(o)), 4, np.mean, p), [L, V_])
            add("v2_prof" + t, lambda c, o, p=p, kk=kk: ct.v2_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.stat_prof(o.select(p, **kk(o)), 4, lambda q: np.mean(q ** 2), p), [L, V2])
            add("beta_prof" + t, lambda c, o, p=p, kk=kk: ct.beta_prof(c, nrad=4, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.beta_prof(o.select(p, **kk(o)), 4, p), [L, N])
            if key == "all": add("alpha_prof" + t, lambda c, o, p=p, kk=kk: ct.alpha_prof(c, nrad=4, nmass=3, projected=p, aerror=True, **dict(dict(kwmax=15), **scaled(c, kk(o)))),
                lambda o, p=p, kk=kk: o.alpha_prof(o.select(p, **kk(o)), 4, 3, p), [L, N, N, N, N, N, N], rel=1e-6)
            add("eta_function" + t, lambda c, o, p=p, kk=kk: ct.eta_function(c, nmass=4, projected=p, **dict(dict(kwmax=15), **scaled(c, kk(o)))),
                lambda o, p=p, kk=kk: o.eta_function(o.select(p, **kk(o)), 4, p), [M, V_, N, N, "x", "x"], "asis", 1e-6)
            add("eta_prof" + t, lambda c, o, p=p, kk=kk: ct.eta_prof(c, nrad=4, nmass=3, projected=p, **scaled(c, kk(o))),
                lambda o, p=p, kk=kk: o.eta_prof(o.select(p, **kk(o)), 4, 3, p), [L, N, N, N, N, N], rel=1e-6)
        for co in ("r", "phi", "z", "vr", "vphi", "vp", "x", "vx", "y", "vy", "vz", "v") + (() if p else ("theta", "vtheta", "vt")):
            t = s + " " + co
            add("sigv_prof" + t, lambda c, o, p=p, co=co: ct.sigv_prof(c, nrad=4, projected=p, coord=co),
                lambda o, p=p, co=co: o.stat_prof(o.select(p), 4, np.std, p, coord=co), [L, V_])
            add("v_prof" + t, lambda c, o, p=p, co=co: ct.v_prof(c, nrad=4, projected=p, coord=co),
                lambda o, p=p, co=co: o.stat_prof(o.select(p), 4, np.mean, p, coord=co), [L, V_])
            add("v2_prof" + t, lambda c, o, p=p, co=co: ct.v2_prof(c, nrad=4, projected=p, coord=co),
                lambda o, p=p, co=co: o.stat_prof(o.select(p), 4, lambda q: np.mean(q ** 2), p, coord=co), [L, V2])
        add("rho_prof fix" + s, lambda c, o, p=p: ct.rho_prof(c, nrad=4, projected=p, bintype="fix"), lambda o, p=p: o.rho_prof(o.select(p), 4, p, True), [L, D2 if p else D3, N])
        add("m_prof fix" + s, lambda c, o, p=p: ct.m_prof(c, nrad=4, projected=p, bintype="fix"), lambda o, p=p: o.m_prof(o.select(p), 4, p, True), [L, M, N])
        add("m_prof cumulative" + s, lambda c, o, p=p: ct.m_prof(c, nrad=4, projected=p, cumulative=True), lambda o, p=p: o.m_prof(o.select(p), 4, p, cum=True), [L, M, N])
        add("sigv_prof fix" + s, lambda c, o, p=p: ct.sigv_prof(c, nrad=3, projected=p, bintype="fix"), lambda o, p=p: o.stat_prof(o.select(p), 3, np.std, p, True), [L, V_])
        # radii in units of the half-mass radius (projected when the profile is)
        for pl in (False, True):
            t = " normalize" + s + (" plotted" if pl else "")
            kw = dict(projected=p, normalize=True, plot=pl)
            nrm = lambda res, o, p=p: [res[0] / o.lagr(.5, p), *res[1:]]
            add("rho_prof" + t, lambda c, o, kw=kw: ct.rho_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.rho_prof(o.select(p), 4, p), o), [N, D2 if p else D3, N])
            add("m_prof" + t, lambda c, o, kw=kw: ct.m_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.m_prof(o.select(p), 4, p), o), [N, M, N])
            add("vcirc_prof" + t, lambda c, o, kw=kw: pick(ct.vcirc_prof(c, nrad=4, **kw), (0, 1)), lambda o, p=p, nrm=nrm: nrm(o.vcirc_prof(o.select(p), p, 4), o)[:2], [N, V_], rel=GREL)
            add("sigv_prof" + t, lambda c, o, kw=kw: ct.sigv_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.stat_prof(o.select(p), 4, np.std, p), o), [N, V_])
            add("v_prof" + t, lambda c, o, kw=kw: ct.v_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.stat_prof(o.select(p), 4, np.mean, p), o), [N, V_])
            add("v2_prof" + t, lambda c, o, kw=kw: ct.v2_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.stat_prof(o.select(p), 4, lambda q: np.mean(q ** 2), p), o), [N, V2])
            add("beta_prof" + t, lambda c, o, kw=kw: ct.beta_prof(c, nrad=4, **kw), lambda o, p=p, nrm=nrm: nrm(o.beta_prof(o.select(p), 4, p), o), [N, N])
            if key == "all": add("alpha_prof" + t, lambda c, o, kw=kw: ct.alpha_prof(c, nrad=4, nmass=3, kwmax=15, aerror=True, **kw), lambda o, p=p, nrm=nrm: nrm(o.alpha_prof(o.select(p), 4, 3, p), o),
                [N, N, N, N, N, N, N], rel=1e-6)
            add("eta_prof" + t, lambda c, o, kw=kw: ct.eta_prof(c, nrad=4, nmass=3, **kw), lambda o, p=p, nrm=nrm: nrm(o.eta_prof(o.select(p), 4, 3, p), o), [N, N, N, N, N, N], rel=1e-6)
        add("vcirc_prof binned" + s, lambda c, o, p=p: ct.vcirc_prof(c, nrad=4, projected=p), lambda o, p=p: o.vcirc_prof(o.select(p), p, 4), [L, V_, L, V_], rel=GREL)
        add("mass_function fix" + s, lambda c, o, p=p: ct.mass_function(c, nmass=3, projected=p, kwmax=15, bintype="fix"),
            lambda o, p=p: list(o.mass_function(o.select(p), 3, True))[:5], [M, N, NM, N, N, "x", "x"], "asis")
        add("relaxation_time rad" + s, lambda c, o, p=p: ct.relaxation_time(c, rad=rad_arg(c, 1.3), coulomb=0.11, projected=p), lambda o, p=p: [o.trelax(p, .11, 1.3)], [T])
        add("half_mass_relaxation_time coulomb" + s, lambda c, o, p=p: ct.half_mass_relaxation_time(c, coulomb=0.11, projected=p), lambda o, p=p: [o.trh(p, .11)], [T])
        add("core_relaxation_time coulomb" + s, lambda c, o, p=p: ct.core_relaxation_time(c, coulomb=0.11, projected=p), lambda o, p=p: [o.trc(p, .11)], [T])
    add("energies softened", lambda c, o: ct.energies(c, softening=0.7 / lens(c)[0]), lambda o: o.energies(soft=.7), [V2, V2], "tocl", GREL)
    add("energies softened loop", lambda c, o: ct.energies(c, full=False, softening=0.7 / lens(c)[0]), lambda o: o.energies(soft=.7), [V2, V2], "tocl", GREL)
    add("energies ids", lambda c, o: ct.energies(c, ids=np.array([2, 9, 21])), lambda o: o.energies(ids=np.array([2, 9, 21])), [V2, V2], "tocl", GREL)
    add("energies ids total", lambda c, o: ct.energies(c, ids=np.array([2, 9, 21]), specific=False), lambda o: o.energies(False, ids=np.array([2, 9, 21])), [MV2, MV2], "tocl", GREL)
    add("energies ids mask", lambda c, o: ct.energies(c, ids=np.arange(len(o.m)) % 3 == 1), lambda o: o.energies(ids=np.arange(len(o.m)) % 3 == 1), [V2, V2], "tocl", GREL)
    add("energies ids softened", lambda c, o: ct.energies(c, ids=np.array([2, 9, 21]), softening=0.7 / lens(c)[0]), lambda o: o.energies(ids=np.array([2, 9, 21]), soft=.7), [V2, V2], "tocl", GREL)
    for fc in (False, True):
        add("rtidal%s" % (" from_centre" if fc else ""), lambda c, o, fc=fc: ct.rtidal(c, pot=POT, from_centre=fc), lambda o, fc=fc: [o.rtidal(fc)], [L])
        add("rlimiting%s" % (" from_centre" if fc else ""), lambda c, o, fc=fc: ct.rlimiting(c, pot=POT, nrad=5, from_centre=fc), lambda o, fc=fc: [o.rlimiting(5, from_centre=fc)], [L])
    add("rtidal iterate", lambda c, o: ct.rtidal(c, pot=POT, rtiterate=3, rtconverge=.999), lambda o: [o.rtidal(niter=3, conv=.999)], [L])
    add("rtidal indx", lambda c, o: ct.rtidal(c, pot=POT, indx=np.arange(len(o.m)) % 2 == 0), lambda o: [o.rtidal(indx=np.arange(len(o.m)) % 2 == 0)], [L])
    add("find_centre_of_mass", lambda c, o: ct.find_centre_of_mass(c), lambda o: list(o.com()), [L, L, L, V_, V_, V_], "asis")
    add("find_centre_of_density casertano", lambda c, o: ct.find_centre_of_density(c, method="casertano"), lambda o: list(o.cod_casertano()), [L, L, L, V_, V_, V_], "asis", 1e-6)
    add("find_centre_of_density", lambda c, o: ct.find_centre_of_density(c, nsphere=8, rmin=0.05 / lens(c)[0]), lambda o: list(o.cod_harfst(8, rmin=0.05)),
        [L, L, L, V_, V_, V_], "asis", 1e-6)
    add("find_centre mass", lambda c, o: ct.find_centre(c, density=False), lambda o: list(o.com()), [L, L, L, V_, V_, V_], "asis")
    add("find_centre density", lambda c, o: ct.find_centre(c, nsphere=8, rmin=0.05 / lens(c)[0]), lambda o: list(o.cod_harfst(8, rmin=0.05)), [L, L, L, V_, V_, V_], "asis", 1e-6)
    add("sphere_coords", lambda c, o: ct.sphere_coords(c), lambda o: o.spherical(), [L, N, N, V_, V_, V_], "asis", 1e-6)
    add("cyl_coords", lambda c, o: ct.cyl_coords(c), lambda o: o.cylindrical(), [L, N, L, V_, V_, V_], "asis", 1e-6)
    add("sky_coords", lambda c, o: ct.sky_coords(c), lambda o: [o.w.sky()[k] for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")], [N] * 6, "asis", 1e-6, origins=("galaxy",),
        sets=("sky",))
    return R


NOAM = ("pckms", "pcmyr", "kpckms", "kpcgyr", "nbody", "galpy", "WDunits")


def physical(ro=8.9, vo=251.):
    """the potential, set to return physical quantities (with scales of its own)"""
    P = copy.deepcopy(POT)
    oracle.potential.turn_physical_on(P, ro=ro, vo=vo)
    return P


PHYS = physical()


def edges(o, p, k=4):
    """bins of unequal widths whose limits fall between stars, covering all of them; nothing special about their middles"""
    r = np.sort(o.r(p)); n = len(r)
    e = np.array([0.0] + [0.5 * (r[j - 1] + r[j]) for j in (n // 6, n // 3, 2 * n // 3)[:k - 1]] + [1.1 * r[-1]])
    return e[:-1], 0.3 * e[:-1] + 0.7 * e[1:], e[1:]


def options():
    """the remaining options of the analysis functions, at values other than their defaults"""
    R = []
    add = lambda *a, **k: R.append(Call(*a, **k))
    halo = [oracle.potential.LogarithmicHaloPotential(normalize=1.0, q=0.9)]
    corr = lambda n: 0.35 + 0.6 * ((np.arange(n) * 0.618) % 1.0)
    for p in (False, True):
        s = " projected" if p else ""
        for k in (3, 9): add("rcore %d neighbours%s" % (k, s), lambda c, o, p=p, k=k: ct.rcore(c, nneighbour=k, projected=p), lambda o, p=p, k=k: [oracle.O(o.w, "centre").rcore(p, k)], [L])
        for f in (0.2, 0.34): add("rcore isothermal %s%s" % (f, s), lambda c, o, p=p, f=f: ct.rcore(c, method="isothermal", mfrac=f, projected=p), lambda o, p=p, f=f: [oracle.O(o.w, "centre").rcore_iso(f, p)], [L])
        add("virial_radius critical H" + s, lambda c, o, p=p: ct.virial_radius(c, method="critical_density", overdens=3e7, H=55.0, projected=p), lambda o, p=p: [o.rvir_crit(H=55.0, overdens=3e7, pro=p)], [L])
        for k in range(5):
            kw = [dict(rgc=6.0), dict(rgc=6.0, zgc=1.5), dict(zgc=1.5), dict(pot=halo), dict()][k]; lab = ["rgc", "rgc zgc", "zgc", "halo", "physical potential"][k]
            given = dict(dict(pot=POT), **kw) if k < 4 else dict(pot=PHYS)
            if not p: add("rtidal " + lab, lambda c, o, g=given: ct.rtidal(c, **g), lambda o, kw=kw: [o.rtidal(**kw)], [L])
            add("rlimiting " + lab + s, lambda c, o, g=given, p=p: ct.rlimiting(c, nrad=6, projected=p, **g), lambda o, kw=kw, p=p: [o.rlimiting(6, p, **kw)], [L])
        add("mass_function mcorr" + s, lambda c, o, p=p: ct.mass_function(c, nmass=4, kwmax=15, projected=p, mcorr=corr(c.ntot)), lambda o, p=p: list(o.mass_function(o.select(p), 4, corr=corr(o.n)))[:5], [M, N, NM, N, N, "x", "x", "x"], "asis")
        add("mass_function mcorr mmin" + s, lambda c, o, p=p: ct.mass_function(c, nmass=4, kwmax=15, projected=p, mcorr=corr(c.ntot), **scaled(c, _subargs(None, o, "mmin"))),
            lambda o, p=p: list(o.mass_function(o.select(p, **_subargs(None, o, "mmin")), 4, corr=corr(o.n)))[:5], [M, N, NM, N, N, "x", "x", "x"], "asis")
        add("alpha_prof mcorr" + s, lambda c, o, p=p: ct.alpha_prof(c, nrad=4, nmass=3, kwmax=15, projected=p, mcorr=corr(c.ntot), aerror=True, normalize=False), lambda o, p=p: o.alpha_prof(o.select(p), 4, 3, p, corr=corr(o.n)), [L, N, N, N, N, N, N], rel=1e-6)
        bn = lambda c, o, p=p: tuple(e / lens(c)[0] for e in edges(o, p))
        for key in ("all", "mmin", "npop"):
            t = " bins" + s + " " + key; kk = lambda c, o, key=key: scaled(c, _subargs(None, o, key)); sel = lambda o, p=p, key=key: o.select(p, **_subargs(None, o, key))
            add("rho_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.rho_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.rho_prof(sel(o), 4, p, edges=edges(o, p)), [L, D2 if p else D3, N], units=NOAM)
            add("m_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.m_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.m_prof(sel(o), 4, p, edges=edges(o, p)), [L, M, N], units=NOAM)
            add("sigv_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.sigv_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.stat_prof(sel(o), 4, np.std, p, edges=edges(o, p)), [L, V_], units=NOAM)
            add("v_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.v_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.stat_prof(sel(o), 4, np.mean, p, edges=edges(o, p)), [L, V_], units=NOAM)
            add("v2_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.v2_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.stat_prof(sel(o), 4, lambda q: np.mean(q ** 2), p, edges=edges(o, p)), [L, V2], units=NOAM)
            add("beta_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.beta_prof(c, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.beta_prof(sel(o), 4, p, edges=edges(o, p)), [L, N], units=NOAM)
            if key == "all": add("alpha_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.alpha_prof(c, nmass=3, kwmax=15, bins=bn(c, o), projected=p, aerror=True, normalize=False, **kk(c, o)), lambda o, p=p, sel=sel: o.alpha_prof(sel(o), 4, 3, p, edges=edges(o, p)), [L, N, N, N, N, N, N], rel=1e-6, units=NOAM)
            add("eta_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.eta_prof(c, nmass=3, bins=bn(c, o), projected=p, normalize=False, **kk(c, o)), lambda o, p=p, sel=sel: o.eta_prof(sel(o), 4, 3, p, edges=edges(o, p)), [L, N, N, N, N, N], rel=1e-6, units=NOAM)
            add("vcirc_prof" + t, lambda c, o, p=p, bn=bn, kk=kk: ct.vcirc_prof(c, nrad=4, bins=bn(c, o), projected=p, **kk(c, o)), lambda o, p=p, sel=sel: o.vcirc_prof(sel(o), p, 4, edges=edges(o, p)), [L, V_, L, V_], rel=GREL, units=NOAM)
        # selections by energy: a made up energy for every star
        en = lambda n: ((np.arange(n) * 0.7548) % 1.0) * 2 - 1
        def given(f):
            def g(c, o):
                c.etot = en(c.ntot)
                return f(c, o)
            return g
        for t, kw in ((" emin", dict(emin=-0.6)), (" emax", dict(emax=0.45)), (" emin emax", dict(emin=-0.8, emax=0.6))):
            t += s; sel = lambda o, p=p, kw=kw: o.select(p) & (en(o.n) >= kw.get("emin", -9)) & (en(o.n) <= kw.get("emax", 9)); kk = dict(kw, projected=p)
            add("mass_function" + t, given(lambda c, o, kk=kk: ct.mass_function(c, nmass=4, kwmax=15, **kk)), lambda o, sel=sel: list(o.mass_function(sel(o), 4))[:5], [M, N, NM, N, N, "x", "x"], "asis")
            add("tapered_mass_function" + t, given(lambda c, o, kk=kk: pick(ct.tapered_mass_function(c, nmass=5, kwmax=15, **kk), (0, 1, 2))), lambda o, sel=sel: o.mass_function(sel(o), 5)[:3], [M, N, NM], "asis")
            add("eta_function" + t, given(lambda c, o, kk=kk: pick(ct.eta_function(c, nmass=4, kwmax=15, **kk), (0, 1))), lambda o, sel=sel, p=p: o.eta_function(sel(o), 4, p)[:2], [M, V_], "asis")
            add("meq_function" + t, given(lambda c, o, kk=kk: pick(ct.meq_function(c, nmass=4, kwmax=15, **kk), (0, 1))), lambda o, sel=sel, p=p: o.eta_function(sel(o), 4, p)[:2], [M, V_], "asis")
            add("rho_prof" + t, given(lambda c, o, kk=kk: ct.rho_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.rho_prof(sel(o), 4, p), [L, D2 if p else D3, N])
            add("m_prof" + t, given(lambda c, o, kk=kk: ct.m_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.m_prof(sel(o), 4, p), [L, M, N])
            add("sigv_prof" + t, given(lambda c, o, kk=kk: ct.sigv_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.stat_prof(sel(o), 4, np.std, p), [L, V_])
            add("v_prof" + t, given(lambda c, o, kk=kk: ct.v_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.stat_prof(sel(o), 4, np.mean, p), [L, V_])
            add("v2_prof" + t, given(lambda c, o, kk=kk: ct.v2_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.stat_prof(sel(o), 4, lambda q: np.mean(q ** 2), p), [L, V2])
            add("beta_prof" + t, given(lambda c, o, kk=kk: ct.beta_prof(c, nrad=4, **kk)), lambda o, sel=sel, p=p: o.beta_prof(sel(o), 4, p), [L, N])
            add("alpha_prof" + t, given(lambda c, o, kk=kk: pick(ct.alpha_prof(c, nrad=4, nmass=3, kwmax=15, normalize=False, **kk), (0, 1))), lambda o, sel=sel, p=p: o.alpha_prof(sel(o), 4, 3, p)[:2], [L, N], rel=1e-6)
            add("eta_prof" + t, given(lambda c, o, kk=kk: pick(ct.eta_prof(c, nrad=4, nmass=3, normalize=False, **kk), (0, 1))), lambda o, sel=sel, p=p: o.eta_prof(sel(o), 4, 3, p)[:2], [L, N], rel=1e-6)
            add("vcirc_prof" + t, given(lambda c, o, kk=kk: ct.vcirc_prof(c, nrad=None, **kk)), lambda o, sel=sel, p=p: o.vcirc_prof(sel(o), p), [L, V_, L, V_], rel=GREL)
    add("rtidal from_centre iterate indx", lambda c, o: ct.rtidal(c, pot=POT, rtiterate=4, rtconverge=.99, from_centre=True, indx=np.arange(len(o.m)) % 3 != 0), lambda o: [o.rtidal(True, 4, .99, np.arange(len(o.m)) % 3 != 0)], [L])
    return R


def fits():
    """the non-linear fits, on a cluster with partial energy equipartition (well determined minima)"""
    R = []
    add = lambda *a, **k: R.append(Call(*a, **k))
    for p in (False, True):
        s = " projected" if p else ""
        add("meq_function" + s, lambda c, o, p=p: pick(ct.meq_function(c, nmass=4, kwmax=15, projected=p), (0, 1, 2, 4)), lambda o, p=p: o.meq_function(o.select(p), 4, p), [M, V_, M, V_], "asis", 1e-4)
        add("meq_function npop" + s, lambda c, o, p=p: pick(ct.meq_function(c, nmass=3, kwmax=15, npop=1, projected=p), (0, 1, 2, 4)), lambda o, p=p: o.meq_function(o.select(p, npop=1), 3, p), [M, V_, M, V_], "asis", 1e-4)
        for key in ("rmax", "mmin", "indx"):
            kk = lambda c, o, key=key: scaled(c, _subargs(None, o, key)); sel = lambda o, p=p, key=key: o.select(p, **_subargs(None, o, key)); t = s + " " + key
            add("meq_function" + t, lambda c, o, p=p, kk=kk: pick(ct.meq_function(c, nmass=3, kwmax=15, projected=p, **kk(c, o)), (0, 1)), lambda o, p=p, sel=sel: o.eta_function(sel(o), 3, p)[:2], [M, V_], "asis")
            add("tapered_mass_function" + t, lambda c, o, p=p, kk=kk: pick(ct.tapered_mass_function(c, nmass=5, kwmax=15, projected=p, **kk(c, o)), (0, 1, 2)), lambda o, p=p, sel=sel: o.mass_function(sel(o), 5)[:3], [M, N, NM], "asis")
        add("ckin" + s, lambda c, o, p=p: ct.ckin(c, nmass=2, kwmax=15, projected=p), lambda o, p=p: [o.ckin(2, p)], [N], rel=1e-4)
        add("meq_prof" + s, lambda c, o, p=p: ct.meq_prof(c, nrad=4, nmass=3, projected=p), lambda o, p=p: o.meq_prof(o.select(p), 4, 3, p), [L, M, M, M, M, M], rel=1e-4)
        add("tapered_mass_function" + s, lambda c, o, p=p: tapered(ct.tapered_mass_function(c, nmass=5, kwmax=15, projected=p)), lambda o, p=p: o.tapered(o.select(p), 5), [M, N, NM, NM, N, M, N], "asis", 1e-3)
    return R


def build(w, units, origin):
    with common.quiet():
        c = w.build(units, origin)
    c.npop = np.asarray(getattr(w, "npop", np.ones(len(w.stars), int))).copy()
    object.__setattr__(c, "_mcw", w)
    return c


def evaluate(call, c, o, w, units):
    """-> None or a message; physical comparison of the returned values with the oracle"""
    with common.quiet(), common.limit(120):
        res = call.fn(c, o)
        if call.name.endswith("plotted"):
            import matplotlib.pyplot as plt
            plt.close("all")
    dims = [N if d == "x" else d for d in call.dims]
    got = phys(res, dims, units, w)
    want = call.ora(o)
    for i, e in enumerate(want):
        e = np.asarray(e, float)
        if call.name.startswith("sphere") and i in (1, 2) or call.name.startswith("cyl") and i == 1:
            ok = np.all(np.abs(np.angle(np.exp(1j * (got[i] - e)))) < 1e-6)
        else:
            ok = common.close(got[i], e, rel=call.rel)
        if not ok:
            return "value %d: got %s want %s (physical units pc, km/s, Msun, Myr)" % (i, np.array2string(np.asarray(got[i]), precision=8)[:300], np.array2string(e, precision=8)[:300])
    return None


def warm():
    """compile the numba kernels once, before the pool forks"""
    w = oracle.W30(6)
    c = build(w, "pckms", "cluster")
    with common.quiet():
        for a in (dict(), dict(ids=np.array([1, 2]))):
            ct.energies(c, **a)
        ct.virial_radius(c)
