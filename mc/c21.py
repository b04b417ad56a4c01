"""C21  a figure shows what it says: the values returned, the stars, the centre; and drawing it changes nothing that is returned."""
import copy
import os
import re
import shutil
import tempfile
import numpy as np
import clustertools as ct
from galpy import potential
from galpy.util import conversion
from . import common, world, calls, oracle
from .world import UNITS, ORIGINS
from .oracle import POT

PLAIN = tuple(u for u in UNITS if u != "amuse")
TIDY = ("nbody", "pckms", "pcmyr", "kpckms", "kpcgyr", "galpy", "WDunits")


def worlds():
    return {"weq": oracle.WEQ(), "w30": oracle.W30(30), "w30b": oracle.W30(30, gc=(-4.0, 6.0, -2.0, 120., -80., 30.), centre=(-.4, .5, .3, .2, .3, -.4), rbar=0.8)}


class Fig:
    """what is drawn: for every axes its lines (x, y, label), scatter points, limits, labels"""
    def __init__(self):
        import matplotlib.pyplot as plt
        self.axes = []
        self.nfig = len(plt.get_fignums())
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                self.axes.append(dict(lines=[(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label()) for l in ax.lines],
                                      points=[np.asarray(s.get_offsets(), float) for s in ax.collections], xlim=ax.get_xlim(), ylim=ax.get_ylim(),
                                      xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title()))


def draw(fn, c):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        with common.quiet(), common.limit(120): r = fn(c)
        return r, Fig()
    finally:
        plt.close("all")


def same(a, b, rel=1e-9):
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    return a.shape == b.shape and common.close(a, b, rel=rel)


def show(a): return np.array2string(np.atleast_1d(np.asarray(a, float))[:6], precision=7)


# ------------------------------------------------------------------ values returned
class P:
    """a plotted analysis call.  check(fig, res, cluster, w, units) -> message or None; res: plain numbers of what is returned, in
    the units of the figure (those of the cluster; pc, km/s and solar masses for AMUSE)"""
    def __init__(self, name, fn, check, dims, units=TIDY, pair=True):
        self.name, self.fn, self.check, self.dims, self.units = name, fn, check, dims, units


def plain(res, dims, units, w):
    if not isinstance(res, (tuple, list)) or len(dims) == 1: res = (res,)
    if units == "amuse": return calls.phys(tuple(res), dims, units, w)
    return [np.asarray(v, float) for v in res]


NAMES = dict(pckms="pc km/s Msun", pcmyr="pc pc/Myr Msun", kpckms="kpc km/s Msun", kpcgyr="kpc kpc/Gyr Msun", WDunits="kpc kpc/Gyr WDUNITS", nbody="NBODY", galpy="GALPY",
             amuse="pc km/s Msun", radec="degree deg kpc km/s mas/yr Msun")
UNIT = re.compile(r"(?<![A-Za-z])(kpc/Gyr|pc/Myr|kpc/Myr|pc/Gyr|km/s|mas/yr|kpc|pc|Msun|NBODY|GALPY|WDUNITS|degree|deg)(?![A-Za-z])")


def named(f, u, normalized=False, tphys=None):
    """a unit written on an axis is one the values are in, a time in the title the time of the cluster"""
    for a in f.axes:
        for ax in ("xlabel", "ylabel"):
            for t in UNIT.findall(a[ax]):
                if t not in NAMES[u].split(): return "the values are in %s, the %s is %s" % (u, ax, a[ax])
                if normalized and ax == "xlabel": return "radii are in half-mass radii, the label is %s" % a[ax]
        m = re.match(r"^Time = ([-+0-9.]+)$", a["title"])
        if m and tphys is not None and abs(float(m.group(1)) - tphys) > 2e-6 * max(1., abs(tphys)): return "title %s, time of the cluster %r" % (a["title"], tphys)


def curve(f, ax, k, x, y, what):
    if not f.axes or len(f.axes[ax]["lines"]) <= k: return "%s is not drawn" % what
    gx, gy, _ = f.axes[ax]["lines"][k]
    if not same(gx, x): return "%s: drawn at %s, returned %s" % (what, show(gx), show(x))
    if not same(gy, y): return "%s: drawn %s, returned %s" % (what, show(gy), show(y))


def prof(f, res, c, w, u): return curve(f, 0, 0, res[0], res[1], "profile")


def prof_vc(f, res, c, w, u, norm=None):
    m = prof(f, res, c, w, u)
    if m: return m
    x, y = res[0], res[1]
    r = res[2] if norm is None else res[2] / norm
    L = f.axes[0]["lines"]
    if len(L) < 3: return "maximum is not marked"
    if not same(L[1][0], [r, r]): return "vertical mark at %s, radius of the maximum %s" % (show(L[1][0]), show(r))
    if not same(L[2][1], [res[3], res[3]]): return "horizontal mark at %s, maximum %s" % (show(L[2][1]), show(res[3]))


def straight(f, k, x, slope, icpt, what, tol=1e-7):
    """the drawn line k is slope*x+icpt, x(drawn)"""
    if len(f.axes[0]["lines"]) <= k: return "%s is not drawn" % what
    gx, gy, _ = f.axes[0]["lines"][k]
    if not common.close(gy, slope * x(gx) + icpt, rel=tol): return "%s: drawn %s, fit %s" % (what, show(gy), show(slope * x(gx) + icpt))


def prof_ln(rh, ia, ib):
    """values against ln r with the fitted line in ln(r/rm)"""
    def check(f, res, c, w, u):
        m = curve(f, 0, 0, np.log(res[0]), res[1], "profile")
        if m: return m
        r0 = 1.0 if rh == "n" else rh(c)
        return straight(f, 1, lambda x: x - np.log(r0), res[ia], res[ib], "fitted line")
    return check


def massf(f, res, c, w, u):
    return curve(f, 0, 0, res[0], np.log10(res[2]), "mass function") or straight(f, 1, np.log10, res[3], res[5], "fitted line")


def taper(f, res, c, w, u):
    m = curve(f, 0, 0, res[0], np.log10(res[2]), "mass function")
    if m: return m
    x, y, _ = f.axes[0]["lines"][1]
    e = np.log10(res[3] * x ** res[5] * (1. - np.exp(-(x / res[7]) ** res[9])))
    if not common.close(y, e, rel=1e-6): return "fitted line: drawn %s, fit %s" % (show(y), show(e))


def etaf(f, res, c, w, u):
    return curve(f, 0, 0, res[0], np.log10(res[1]), "dispersion") or straight(f, 1, np.log10, res[2], res[4], "fitted line")


def meqf(f, res, c, w, u):
    m = curve(f, 0, 0, res[0], np.log10(res[1]), "dispersion")
    if m: return m
    x, y, _ = f.axes[0]["lines"][1]
    meq, s0 = res[2], res[4]
    e = np.log10(np.where(x <= meq, s0 * np.exp(-.5 * x / meq), s0 * np.exp(-.5) * (np.maximum(x / meq, 1e-30)) ** -.5))
    if not common.close(y, e, rel=1e-6): return "fitted line: drawn %s, fit %s" % (show(y), show(e))


def crossing(pro, density, own=True, level=None):
    """a radius where the density profile crosses a threshold: profile, threshold and radius drawn in the same units"""
    def check(f, res, c, w, u):
        L = f.axes[0]["lines"]
        if len(L) < 3: return "profile, threshold and radius are not all drawn"
        (x, y, _), (tx, ty, _), (rx, ry, _) = L[:3]
        want = density(c, u)
        if want is not None and not (common.close(x, want[0], rel=1e-6) and common.close(y, want[1], rel=1e-6)):
            return "profile drawn at %s: %s, in the units of the figure it is %s: %s" % (show(x), show(y), show(want[0]), show(want[1]))
        if not same(rx, np.full(len(rx), float(res[0])), 1e-7): return "radius drawn at %s, returned %s" % (show(rx), show(res[0]))
        t = ty[0]
        if not same(ty, np.full(len(ty), t)): return "threshold drawn is not one value: %s" % show(ty)
        e = level(c, w, u, x, y) if level else t
        if not common.close(t, e, rel=1e-6): return "threshold drawn at %g, it is %g" % (t, e)
        r = float(res[0])
        if own and x[0] < r < x[-1]:
            p = np.interp(r, x, y)
            if not common.close(p, t, rel=1e-6): return "at the radius drawn (%g) the profile is %g, the threshold drawn %g" % (r, p, t)
    return check


def local(pro):
    """density of the potential around the cluster, in the units of the figure"""
    def level(c, w, u, x, y):
        o = oracle.O(w, "centre")
        k = w.factors(u)
        R, z = o.gal(False)
        rho = potential.evaluateDensities(POT, R, z, use_physical=False) * conversion.dens_in_msolpc3(vo=w.vo, ro=w.ro) * k[0] ** 3 / k[2]
        return rho * (4. * x[-1] / 3. if pro else 1.)
    return level


def critical(c, w, u, x, y):
    return 2e7 * conversion.dens_in_msolpc3(vo=w.vo, ro=w.ro) / conversion.dens_in_criticaldens(vo=w.vo, ro=w.ro, H=70.)


def central(pro):
    return lambda c, w, u, x, y: y[0] / (2. if pro else 3.)


def within(pro):
    """mean density inside the core radius"""
    def level(c, w, u, x, y):
        k = copy.deepcopy(c); k.to_centre()
        rc = k.rcore(mfrac=.2, projected=pro)
        return np.sum(k.m[k.r < rc]) / (4. / 3. * np.pi * rc ** 3)
    return level


def crossing_pc(f, res, c, w, u):
    """the overdensity figure is in pc whatever the units"""
    return crossing(False, lambda c, u: None, False, critical)(f, [float(res[0]) * w.factors(u)[0]], c, w, u)


def circle(fc):
    def check(f, res, c, w, u):
        if not f.axes: return "nothing is drawn"
        m = curve(f, 0, 0, c.x, c.y, "stars")
        if m: return m
        x, y, _ = f.axes[0]["lines"][1]
        cx, cy = mark(c, fc) if c.origin != "centre" else (0., 0.)
        r = np.hypot(x - cx, y - cy)
        if not common.close(r, np.full(len(r), float(res[0])), rel=1e-7): return "circle about (%g, %g) drawn with radius %s, returned %s" % (cx, cy, show(r), show(res[0]))
    return check


def mark(c, com, comp=("x", "y")):
    """orbital position of the cluster (or its centre of mass/density) in the frame the cluster is in"""
    g, k = [getattr(c, q + "gc") for q in comp], [getattr(c, q + "c") for q in comp]
    if c.origin == "galaxy": return [a + (b if com else 0.) for a, b in zip(g, k)]
    if c.origin == "cluster": return [b if com else 0. for b in k]
    return [0. if com else -b for b in k]


def rho(pro, nrad, centre=False, **kw):
    """the density profile in the units of the cluster"""
    def f(c, u):
        k = copy.deepcopy(c)
        if centre: k.to_centre()
        r = ct.rho_prof(k, nrad=nrad, projected=pro, **kw)
        return r[0], r[1]
    return f


def ops():
    A = []
    add = lambda *a, **k: A.append(P(*a, **k))
    N, L, M, V_, T = calls.N, calls.L, calls.M, calls.V_, calls.T
    for p in (False, True):
        for nz in (False, True):
            s = " projected" * p + " normalize" * nz
            R = N if nz else L
            kw = dict(projected=p, normalize=nz, plot=True, nrad=4)
            rh = (lambda c, p=p: oracle_rm(c, p)) if not nz else "n"
            au = TIDY + ("amuse",)
            add("rho_prof" + s, lambda c, kw=kw: ct.rho_prof(c, **kw), prof, [R, calls.D2 if p else calls.D3, N], au)
            add("m_prof" + s, lambda c, kw=kw: ct.m_prof(c, **kw), prof, [R, M, N], au)
            add("m_prof cumulative" + s, lambda c, kw=kw: ct.m_prof(c, cumulative=True, **kw), prof, [R, M, N], au)
            add("sigv_prof" + s, lambda c, kw=kw: ct.sigv_prof(c, **kw), prof, [R, V_], au)
            add("v_prof" + s, lambda c, kw=kw: ct.v_prof(c, **kw), prof, [R, V_], au)
            add("v2_prof" + s, lambda c, kw=kw: ct.v2_prof(c, **kw), prof, [R, calls.V2], au)
            for co in ("r", "vphi", "x", "vz", "v") + (() if p else ("vtheta",)):
                for fn, d in (("sigv_prof", V_), ("v_prof", V_), ("v2_prof", calls.V2)): add(fn + " " + co + s, lambda c, kw=kw, co=co, fn=fn: getattr(ct, fn)(c, coord=co, **kw), prof, [R, d])
            add("beta_prof" + s, lambda c, kw=kw: ct.beta_prof(c, **kw), prof, [R, N], au)
            add("vcirc_prof" + s, lambda c, kw=kw: ct.vcirc_prof(c, **kw), (lambda f, r, c, w, u, p=p: prof_vc(f, r, c, w, u, oracle_rm(c, p))) if nz else prof_vc, [R, V_, L, V_], au)
            add("alpha_prof" + s, lambda c, kw=kw: ct.alpha_prof(c, nmass=3, kwmax=15, **kw), prof_ln(rh, 2, 4), [R, N, N, N, N, N], au)
            add("eta_prof" + s, lambda c, kw=kw: ct.eta_prof(c, nmass=3, **kw), prof_ln(rh, 2, 4), [R, N, N, N, N, N], au)
        s = " projected" * p
        add("mass_function" + s, lambda c, p=p: ct.mass_function(c, nmass=4, kwmax=15, projected=p, plot=True), massf, [N] * 7)
        add("eta_function" + s, lambda c, p=p: ct.eta_function(c, nmass=4, kwmax=15, projected=p, plot=True), etaf, [N] * 6)
        add("rlimiting" + s, lambda c, p=p: ct.rlimiting(c, pot=POT, nrad=5, projected=p, plot=True), crossing(p, rho(p, 5), True, local(p)), [L])
        add("rcore isothermal" + s, lambda c, p=p: ct.rcore(c, method="isothermal", projected=p, mfrac=.2, plot=True), crossing(p, rho(p, 5, True), True, central(p)), [L])
        add("rcore" + s, lambda c, p=p: ct.rcore(c, projected=p, mfrac=.2, plot=True), crossing(p, rho(p, 5, True), False, None if p else within(p)), [L])
        add("virial_radius critical" + s, lambda c, p=p: ct.virial_radius(c, method="critical_density", overdens=2e7, projected=p, plot=True), crossing_pc, [L])
    for fc in (False, True):
        add("rtidal" + " from_centre" * fc, lambda c, fc=fc: ct.rtidal(c, pot=POT, from_centre=fc, plot=True), circle(fc), [L])
    return A


def fitops():
    """the non-linear fits, on the cluster they are well determined on"""
    A = []
    N, L = calls.N, calls.L
    for p in (False, True):
        s = " projected" * p
        A.append(P("meq_function" + s, lambda c, p=p: ct.meq_function(c, nmass=4, kwmax=15, projected=p, plot=True), meqf, [N] * 6))
        A.append(P("tapered_mass_function" + s, lambda c, p=p: ct.tapered_mass_function(c, nmass=5, kwmax=15, projected=p, plot=True), taper, [N] * 11))
        for nz in (False, True):
            rh = (lambda c, p=p: oracle_rm(c, p)) if not nz else "n"
            A.append(P("meq_prof" + s + " normalize" * nz, lambda c, p=p, nz=nz: ct.meq_prof(c, nrad=4, nmass=3, projected=p, normalize=nz, plot=True), prof_ln(rh, 2, 4), [N if nz else L] + [N] * 5))
    return A


def oracle_rm(c, p):
    """half-mass radius about the centre, in the units of the figure"""
    k = copy.deepcopy(c)
    if k.units == "amuse": k.to_pckms()
    r = ct.rlagrange(k, mfrac=.5, projected=p)
    return float(np.atleast_1d(r)[0])


def one(item, part):
    wn, units, origin = item
    w = worlds()[wn]
    c0 = calls.build(w, units, origin)
    for k, op in enumerate(fitops() if wn == "weq" else ops()):
        if units not in op.units: continue
        case = dict(item=list(item), op=op.name)
        part.states += 1; part.transitions += 1; part.traces += 1
        c = copy.deepcopy(c0); c._mcw = w
        label = "%s in %s/%s" % (op.name, units, origin)
        try:
            res, f = draw(op.fn, c)
            msg = op.check(f, plain(res, op.dims, units, w), c, w, units)
            if not msg: msg = named(f, "pckms" if op.check is crossing_pc else units, "normalize" in op.name, None if op.check is crossing_pc else float(world.num(c0.tphys)))
        except Exception as e:
            msg = "raised " + common.exc_text(e)
        part.outcome(op.name)
        if msg: part.violation("%s: figure" % op.name, "%s: %s" % (label, msg), case)


# ------------------------------------------------------------------ as a method
def forms(w, units):
    T = 0.05 / w.factors(units)[3]
    pot = dict(pot=POT)
    return [("rcore", dict(mfrac=.2)), ("rcore", dict(mfrac=.2, method="isothermal", projected=True)), ("rtidal", dict(pot)), ("rtidal", dict(pot, from_centre=True)), ("rlimiting", dict(pot, nrad=5)),
            ("rlimiting", dict(pot, nrad=5, projected=True)), ("virial_radius", dict(method="critical_density", overdens=2e7)), ("mass_function", dict(nmass=4, kwmax=15)),
            ("mass_function", dict(nmass=4, kwmax=15, projected=True)), ("eta_function", dict(nmass=4, kwmax=15)), ("eta_function", dict(nmass=4, kwmax=15, projected=True)),
            ("orbital_path", dict(pot, nt=20, tfinal=T)), ("orbital_path", dict(pot, nt=20, tfinal=T, skypath=True)), ("orbital_path_match", dict(pot, nt=20, tfinal=T)),
            ("orbital_path_match", dict(pot, nt=20, tfinal=T, projected=True)), ("tail_path", dict(pot, no=40, nt=4, tfinal=T)), ("tail_path", dict(pot, no=40, nt=4, tfinal=T, skypath=True)),
            ("tail_path_match", dict(pot, no=40, nt=4, tfinal=T))]


def method(item, part):
    """the method draws what the function draws; and onto the figure there is, when asked to"""
    wn, units, origin = item
    w = worlds()[wn]
    c0 = calls.build(w, units, origin)
    import matplotlib.pyplot as plt
    for name, kw in forms(w, units):
        case = dict(method=list(item), name=name, kw=sorted(k for k in kw))
        part.states += 1; part.transitions += 2; part.traces += 1
        part.outcome("form", name)
        r = []
        for fn in (lambda c: getattr(ct, name)(c, plot=True, **kw), lambda c: getattr(c, name)(plot=True, **kw)):
            c = copy.deepcopy(c0); c._mcw = w
            try: r.append(draw(fn, c)[1])
            except Exception as e: r.append(common.exc_text(e))
        label = "%s(%s) in %s/%s" % (name, kw, units, origin)
        V = lambda msg: part.violation("%s: method and function draw different figures" % name, "%s: %s" % (label, msg), case)
        if isinstance(r[0], str) or isinstance(r[1], str):
            if not (isinstance(r[0], str) and isinstance(r[1], str)): V("function %s, method %s" % tuple(x if isinstance(x, str) else "draws" for x in r))
            continue
        a, b = r
        if len(a.axes) != len(b.axes) or a.nfig != b.nfig: V("%d and %d panels" % (len(a.axes), len(b.axes))); continue
        if not a.axes or not (a.axes[0]["lines"] or a.axes[0]["points"]): V("nothing is drawn"); continue
        for x, y in zip(a.axes, b.axes):
            if len(x["lines"]) != len(y["lines"]) or len(x["points"]) != len(y["points"]): V("%d and %d curves" % (len(x["lines"]), len(y["lines"]))); break
            d = [k for k, (p, q) in enumerate(zip(x["lines"], y["lines"])) if not (same(p[0], q[0]) and same(p[1], q[1]))] + ["points" for p, q in zip(x["points"], y["points"]) if not same(p, q)]
            if d: V("curve %s differs" % d[0]); break
        if name in ("orbital_path", "tail_path", "orbital_path_match", "tail_path_match"):
            def over(c):
                plt.figure(); plt.plot([7., 8.], [9., 10.], label="old")
                return getattr(ct, name)(c, plot=True, overplot=True, **kw)
            try:
                f = draw(over, copy.deepcopy(c0))[1]
                if f.nfig != 1 or len(f.axes[0]["lines"]) != len(a.axes[0]["lines"]) + 1: V("overplot=True: %d figures, %d curves on the one there was" % (f.nfig, len(f.axes[0]["lines"])))
            except Exception as e: V("overplot=True: " + common.exc_text(e))


# ------------------------------------------------------------------ stars
def stars(item, part):
    wn, units, origin = item
    w = worlds()[wn]
    if units == "radec":
        c0 = calls.build(w, "kpckms", "galaxy")
        with common.quiet(): c0.to_sky()
    else: c0 = calls.build(w, units, origin)
    pl = copy.deepcopy(c0)                                      # what is drawn: pc for an AMUSE cluster
    if units == "amuse":
        with common.quiet(): pl.to_pckms()
    tmp = tempfile.mkdtemp(prefix="mc21")
    X = lambda q: np.asarray(getattr(pl, q), float)
    try:
        for coords in ("xyz", "xy", "xz", "yz"):
            for dc in (False, True):
                for over in (False, True):
                    for fname in (None, os.path.join(tmp, "f.png")):
                        for lim in ((None, None), ((-1., 2.), None), ((-1., 2.), (-3., 1.))):
                            if (over or fname) and (lim[0] or dc) or over and fname: continue
                            case = dict(stars=list(item), coords=coords, dc=dc, over=over, fname=bool(fname), lim=lim)
                            part.states += 1; part.transitions += 1; part.traces += 1
                            part.outcome("starplot", coords, dc, over)
                            msg = starcase(copy.deepcopy(c0), pl, X, coords, dc, over, fname, lim, c0)
                            if msg: part.violation("starplot %s%s%s" % (coords, " centre" * dc, " overplot" * over), "starplot(coords=%s, do_centre=%s, overplot=%s, limits %s) in %s/%s: %s" % (coords, dc, over, lim, units, origin, msg), case)
        for coords in ("radec", "pm"):
            for dc in (False, True):
                for over in (False, True):
                    if over and dc: continue
                    case = dict(stars=list(item), sky=coords, dc=dc, over=over)
                    part.states += 1; part.transitions += 1; part.traces += 1
                    part.outcome("skyplot", coords, dc, over)
                    msg = skycase(copy.deepcopy(c0), w, coords, dc, over)
                    if msg: part.violation("skyplot %s%s%s" % (coords, " centre" * dc, " overplot" * over), "skyplot(coords=%s, do_centre=%s, overplot=%s) in %s/%s: %s" % (coords, dc, over, units, origin, msg), case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def starcase(c, pl, X, coords, dc, over, fname, lim, c0):
    import matplotlib.pyplot as plt

    def go(k):
        plt.figure(); plt.plot([7., 8.], [9., 10.], label="old")
        return ct.starplot(k, coords=coords, do_centre=dc, overplot=over, filename=fname, xlim=lim[0], ylim=lim[1])
    try: res, f = draw(go, c)
    except Exception as e: return "raised " + common.exc_text(e)
    if c.units != c0.units or c.origin != c0.origin: return "the cluster is left in %s/%s" % (c.units, c.origin)
    for q in ("x", "y", "z", "vx", "m"):
        if not same(world.num(getattr(c, q)), world.num(getattr(c0, q))): return "%s of the cluster is changed" % q
    if fname:
        if not os.path.exists(fname): return "no file is written"
        os.remove(fname)
    pan = [("x", "z"), ("x", "y")] if coords == "xyz" else [tuple(coords)]
    if over:
        if coords == "xyz": return None                         # two panels cannot go onto one
        if f.nfig != 1: return "%d figures instead of the one there was" % f.nfig
        if len(f.axes[0]["lines"]) != 2: return "%d curves on the figure there was" % len(f.axes[0]["lines"])
        x, y, _ = f.axes[0]["lines"][1]
        return None if same(x, X(pan[0][0])) and same(y, X(pan[0][1])) else "stars drawn at %s, %s" % (show(x), show(y))
    ax = f.axes[1:]
    m = named(f, pl.units, tphys=float(world.num(c0.tphys)))
    if m: return m
    if f.nfig != 2 or len(ax) != len(pan) or len(f.axes[0]["lines"]) != 1: return "does not make a figure of its own"
    for a, (i, j) in zip(ax, pan):
        x, y, _ = a["lines"][0]
        if not (same(x, X(i)) and same(y, X(j))): return "panel %s%s: stars drawn at %s, %s; they are at %s, %s" % (i, j, show(x), show(y), show(X(i)), show(X(j)))
        if (i.upper() not in a["xlabel"]) or (j.upper() not in a["ylabel"]): return "panel %s%s is labelled %s, %s" % (i, j, a["xlabel"], a["ylabel"])
        for l, g in zip(lim, (a["xlim"], a["ylim"])):
            if l is not None and not same(l, g): return "limits %s, asked for %s" % (g, l)
        marks = a["lines"][1:]
        if not dc and marks: return "%d marks" % len(marks)
        if dc and pl.units != "radec":
            for x, y, lab in marks:
                w = mark(pl, lab == "COM", (i, j))
                if not any(common.close([x[0], y[0]], mark(pl, q, (i, j)), rel=1e-9) for q in (False, True)):
                    return "panel %s%s: mark %s at %s, the cluster is at %s and its centre at %s" % (i, j, lab, show([x[0], y[0]]), show(mark(pl, False, (i, j))), show(mark(pl, True, (i, j))))
            if not marks and pl.origin != "centre": return "centre is not marked"


def skycase(c, w, coords, dc, over):
    import matplotlib.pyplot as plt
    u0, o0 = c.units, c.origin

    def go(k):
        plt.figure(); plt.plot([7., 8.], [9., 10.], label="old")
        return ct.skyplot(k, coords=coords, do_centre=dc, overplot=over)
    try: res, f = draw(go, c)
    except Exception as e: return "raised " + common.exc_text(e)
    if (c.units, c.origin) != (u0, o0): return "the cluster is left in %s/%s" % (c.units, c.origin)
    s = w.sky()
    e = (s["ra"], s["dec"]) if coords == "radec" else (s["pmra"], s["pmdec"])
    if over:
        if f.nfig != 1 or len(f.axes[0]["lines"]) != 2: return "%d figures, %d curves" % (f.nfig, len(f.axes[0]["lines"]))
        L = f.axes[0]["lines"][1:]
    else:
        if f.nfig != 2 or len(f.axes) != 2: return "does not make a figure of its own"
        L = f.axes[1]["lines"]
    if not (common.close(L[0][0], e[0], rel=1e-6) and common.close(L[0][1], e[1], rel=1e-6)): return "stars drawn at %s, %s; they are at %s, %s" % (show(L[0][0]), show(L[0][1]), show(e[0]), show(e[1]))
    if dc:
        if len(L) != 2: return "%d marks" % (len(L) - 1)
        k = np.mean(e[0]), np.mean(e[1])
        sd = np.max(np.abs(e[0] - k[0])), np.max(np.abs(e[1] - k[1]))
        if abs(L[1][0][0] - k[0]) > 3 * sd[0] or abs(L[1][1][0] - k[1]) > 3 * sd[1]: return "centre marked at %s, %s; the stars are around %s, %s" % (show(L[1][0]), show(L[1][1]), show(k[0]), show(k[1]))
    elif len(L) != 1: return "%d marks" % (len(L) - 1)


# ------------------------------------------------------------------ orbits and tails
def orbit(item, part):
    wn, units, origin = item
    w = worlds()[wn]
    radec = units == "radec"
    c0 = calls.build(w, "kpckms" if radec else units, "cluster" if radec else origin)
    with common.quiet():
        if radec: c0.to_sky()
        if radec and origin != "sky": getattr(c0, "to_" + origin)()
    g = copy.deepcopy(c0)
    with common.quiet(): g.to_galaxy()
    if radec: units = "kpckms"              # paths of a cluster on the sky are in kpc
    T = 0.05 / w.factors(units)[3]
    S = w.sky()
    for sky in (False, True):
        for fc in (False, True):
            for name, fn in (("orbital_path", lambda c: ct.orbital_path(c, pot=POT, nt=20, tfinal=T, from_centre=fc, skypath=sky, plot=True)),
                             ("tail_path", lambda c: ct.tail_path(c, pot=POT, no=40, nt=4, tfinal=T, from_centre=fc, skypath=sky, plot=True)),
                             ("orbital_path_match", lambda c: ct.orbital_path_match(c, pot=POT, nt=20, tfinal=T, from_centre=fc, skypath=sky, plot=True))):
                if radec and not sky and name == "orbital_path_match": continue         # distances are returned in degrees
                case = dict(orbit=list(item), name=name, sky=sky, fc=fc)
                part.states += 1; part.transitions += 1; part.traces += 1
                part.outcome(name, sky)
                c = copy.deepcopy(c0)
                try:
                    res, f = draw(fn, c)
                    msg = orbcase(name, res, f, c, c0, g, sky, S, w, units) or named(f, "radec" if sky else "kpckms" if name == "orbital_path_match" or radec or not common.close(f.axes[0]["lines"][1][0], res[1], rel=1e-7) else units)
                except Exception as e: msg = "raised " + common.exc_text(e)
                if msg: part.violation("%s%s: figure" % (name, " on the sky" * sky), "%s(skypath=%s, from_centre=%s) in %s/%s: %s" % (name, sky, fc, units, origin, msg), case)


def orbcase(name, res, f, c, c0, g, sky, S, w, units):
    if (c.units, c.origin) != (c0.units, c0.origin): return "the cluster is left in %s/%s" % (c.units, c.origin)
    if f.nfig != 1: return "%d figures" % f.nfig
    a = f.axes[0]
    kpc = w.factors(units)[0] / 1000.
    if name == "orbital_path_match":
        q = a["points"][0]
        k = 1. if sky else kpc
        e = np.asarray(res[1], float) * k, np.asarray(res[2], float) * k
        return None if common.close(q[:, 0], e[0], rel=1e-7) and common.close(q[:, 1], e[1], rel=1e-7) else "points %s, %s; distances %s, %s" % (show(q[:, 0]), show(q[:, 1]), show(e[0]), show(e[1]))
    L = a["lines"]
    if len(L) != 2: return "%d curves, not the stars and the path" % len(L)
    if sky: st, pa = (S["ra"], S["dec"]), (res[1], res[2])
    else:
        f_ = kpc if not common.close(L[1][0], res[1], rel=1e-7) else 1.      # kpc or the units of the cluster, but the same for both
        st, pa = (g.x * f_, g.y * f_), (np.asarray(res[1]) * f_, np.asarray(res[2]) * f_)
    if not (common.close(L[1][0], pa[0], rel=1e-7) and common.close(L[1][1], pa[1], rel=1e-7)): return "path drawn %s, %s; returned %s, %s" % (show(L[1][0]), show(L[1][1]), show(pa[0]), show(pa[1]))
    if not (common.close(L[0][0], st[0], rel=1e-6) and common.close(L[0][1], st[1], rel=1e-6)): return "stars drawn at %s, %s; in the frame of the path they are at %s, %s" % (show(L[0][0]), show(L[0][1]), show(st[0]), show(st[1]))


def replay(case):
    p = common.Part()
    for key, fn in (("item", one), ("method", method), ("stars", stars), ("orbit", orbit)):
        if key in case:
            fn(tuple(case[key]), p)
            return [v for v in p.violations if all(v.case.get(k) == case[k] or list(np.ravel(v.case.get(k))) == list(np.ravel(case[k])) for k in case)]
    return []


def run(ctx):
    t = ctx.thorough
    calls.warm()
    ws = ["w30", "w30b"] if t else ["w30"]
    us = list(TIDY) + ["amuse"]
    ctx.pmap(one, [(x, u, o) for x in worlds() if t or x != "w30b" for u in us for o in ORIGINS])
    ctx.pmap(method, [(x, u, o) for x in ws for u in TIDY for o in ORIGINS])
    ctx.pmap(stars, [(x, u, o) for x in ws for u in us for o in ORIGINS] + [(x, "radec", "sky") for x in ws])
    ctx.pmap(orbit, [(x, u, o) for x in ws for u in TIDY for o in ORIGINS] + [(x, "radec", o) for x in ws for o in ("sky", "cluster", "centre")])
    ctx.bounds = dict(units=us, origins=ORIGINS, calls=len(ops()) + len(fitops()), forms=len(forms(worlds()['w30'], 'pckms')))
    ctx.explanation = ("every call that draws, at every (units, origin): the curves, marks, limits and points found on the axes, against what the call returns and where the stars are")
    ctx.assumptions = ["what is on the axes of matplotlib (Agg) is the figure"]
