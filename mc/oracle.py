"""Independent definitions of the analysis quantities, in pc, km/s, Msun, Myr,
straight from the documentation; used as the reference model of C05/C06."""
import numpy as np
from . import world, common
from galpy import potential
from galpy.util import conversion

G = 4.302e-3                          # pc (km/s)^2 / Msun (the package's own constant)
MYR_S = 3600.0 * 24.0 * 365.0 * 1e6
PC_KM = 3.086e13
POT = potential.MWPotential2014


def W30(n=30, **kw):
    """n stars, generic positions (no near ties in any radius, mass or speed), kw and npop mixed"""
    i = np.arange(1, n + 1)
    g = lambda a: (i * a) % 1.0
    r = 0.25 * np.exp(3.1 * ((i * 0.6180339887) % 1.0))          # 0.25 .. 5.5 pc
    ct, ph = 2 * g(0.7548776662) - 1, 2 * np.pi * g(0.5698402909)
    st = np.sqrt(1 - ct ** 2)
    x, y, z = r * st * np.cos(ph), r * st * np.sin(ph), r * ct
    v = 0.4 + 2.4 * g(0.4142135623)
    cv, pv = 2 * g(0.8191725134) - 1, 2 * np.pi * g(0.6710436067)
    sv = np.sqrt(1 - cv ** 2)
    m = 0.12 * (12.0 ** g(0.3247179572))
    stars = np.column_stack([m, x, y, z, v * sv * np.cos(pv), v * sv * np.sin(pv), v * cv])
    types = np.where(i % 7 == 0, 3, np.where(i % 5 == 0, 11, np.where(i % 3 == 0, 1, 0)))
    logl = 3.2 * np.log10(m) + 0.01 * i
    sse = np.column_stack([types, logl, 0.8 * np.log10(m)])
    kw.setdefault("zmbar", float(m.sum()))
    w = world.World(stars, sse=sse, **kw)
    w.npop = np.where(i % 4 == 0, 2, 1)
    return w


def WEQ(n=80, **kw):
    """speeds follow sigma0 exp(-m/2meq) up to meq and m**-1/2 beyond, with the same scatter at every mass"""
    w = W30(n, **kw)
    m = w.stars[:, 0]; k = np.argsort(np.argsort(m))
    f = 3.0 * np.where(m <= .5, np.exp(-m), np.exp(-.5) * np.sqrt(.5 / m)) * (1.7 + np.where((k * 7) % 4 < 2, 1, -1) * (1 + .02 * ((k * 0.618) % 1)))
    ph = 2 * np.pi * ((np.arange(1, n + 1) * 0.6710436067) % 1.0)
    w.stars[:, 4:7] = (f * np.array([.95 * np.cos(ph), .95 * np.sin(ph), np.sqrt(1 - .95 ** 2) * np.ones(n)])).T
    return w


class O:
    """the cluster as seen from one frame"""
    def __init__(self, w, frame):
        X, V = w.xyz(frame)
        self.w, self.frame = w, frame
        self.m = w.stars[:, 0].copy()
        self.X, self.V = X, V
        self.x, self.y, self.z = X.T
        self.vx, self.vy, self.vz = V.T
        self.n = len(self.m)
        self.kw = None if w.sse is None else np.asarray(w.sse)[:, 0]
        self.npop = getattr(w, "npop", np.ones(self.n, int))

    def r(self, pro=False):
        return np.hypot(self.x, self.y) if pro else np.sqrt((self.X ** 2).sum(1))

    def v(self, pro=False):
        return np.hypot(self.vx, self.vy) if pro else np.sqrt((self.V ** 2).sum(1))

    # --- selection: every given criterion, inclusive ------------------------
    def select(self, pro=False, rmin=None, rmax=None, mmin=None, mmax=None, vmin=None, vmax=None, kwmin=0, kwmax=15, npop=None, indx=None):
        s = np.ones(self.n, bool)
        for val, lo, hi in ((self.r(pro), rmin, rmax), (self.m, mmin, mmax), (self.v(pro), vmin, vmax)):
            if lo is not None: s &= val >= lo * (1 - 1e-12)
            if hi is not None: s &= val <= hi * (1 + 1e-12)
        if self.kw is not None: s &= (self.kw >= kwmin) & (self.kw <= kwmax)
        if npop is not None: s &= self.npop == npop
        if indx is not None: s &= indx
        return s

    # --- radii ---------------------------------------------------------------
    def lagr(self, f, pro=False, wt=None):
        r = self.r(pro); wt = self.m if wt is None else wt
        o = np.argsort(r, kind="stable"); cs = np.cumsum(wt[o])
        return r[o][np.nonzero(cs >= f * wt.sum() * (1 - 1e-12))[0][0]]

    def rlagrange(self, n, pro=False):
        return np.array([self.lagr(i / n, pro) for i in range(1, n)] + [self.r(pro).max()])

    def rvir(self, pro=False):
        D = self.X.copy()
        if pro: D[:, 2] = 0
        s = 0.0
        for i in range(self.n):
            for j in range(i + 1, self.n):
                s += self.m[i] * self.m[j] / np.sqrt(((D[i] - D[j]) ** 2).sum())
        return self.m.sum() ** 2 / (2 * s)

    def rvir_crit(self, H=70., overdens=200., pro=False):
        w = self.w
        rho = overdens * conversion.dens_in_msolpc3(vo=w.vo, ro=w.ro) / conversion.dens_in_criticaldens(vo=w.vo, ro=w.ro, H=H)
        r = np.sort(self.r(pro)); o = np.argsort(self.r(pro))
        p = np.cumsum(self.m[o]) / (4 / 3 * np.pi * r ** 3)
        i = int(np.argmin(np.abs(p - rho)))
        if i in (0, self.n - 1): return r[i]
        a, b = (i - 1, i) if p[i] < rho else (i, i + 1)
        return r[a] + (rho - p[a]) * (r[b] - r[a]) / (p[b] - p[a])

    # --- energies ---------------------------------------------------------------
    def energies(self, specific=True, pro=False, soft=0.0, ids=None, kin_pro=None):
        k = 0.5 * self.v(pro if kin_pro is None else kin_pro) ** 2
        D = self.X.copy()
        if pro: D[:, 2] = 0
        p = np.zeros(self.n)
        for i in range(self.n):
            d = np.sqrt(((D[i] - D) ** 2).sum(1) + soft ** 2)
            d[i] = np.inf
            p[i] = -G * (self.m / d).sum()
        if not specific:
            k, p = k * self.m, p * self.m
        if ids is not None:
            k, p = k[ids], p[ids]
        return k, p

    def closest(self, pro=False):
        D = self.X.copy()
        if pro: D[:, 2] = 0
        d = np.sqrt(((D[:, None] - D[None]) ** 2).sum(2))
        d[np.arange(self.n), np.arange(self.n)] = np.inf
        return d.min(1), d.argmin(1)

    # --- binning: equal-number and equal-width ------------------------------------
    @staticmethod
    def nbins(x, n):
        xs = np.sort(x)
        lo = np.array([xs[int(i * len(x) / n)] for i in range(n)])
        hi = np.append(lo[1:], xs[-1])
        keep = lo != hi
        return lo[keep], hi[keep]

    @staticmethod
    def fbins(x, n):
        e = np.linspace(x.min(), x.max(), n + 1)
        return e[:-1], e[1:]

    @staticmethod
    def member(x, lo, hi):
        """bin number of every value: lower edge included, upper excluded, last bin closed"""
        b = np.full(len(x), -1)
        for i in range(len(lo)):
            b[(x >= lo[i]) & ((x < hi[i]) | ((i == len(lo) - 1) & (x <= hi[i])))] = i
        return b

    def bins(self, x, n, fix):
        lo, hi = (self.fbins if fix else self.nbins)(x, n)
        b = self.member(x, lo, hi)
        mid = (lo + hi) / 2 if fix else np.array([x[b == i].mean() for i in range(len(lo))])
        return lo, mid, hi

    # --- mass function etc. ------------------------------------------------------
    @staticmethod
    def line(x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        n = len(x); xm, ym = x.mean(), y.mean(); sxx = ((x - xm) ** 2).sum()
        a = ((x - xm) * (y - ym)).sum() / sxx
        b = ym - a * xm
        s2 = ((y - a * x - b) ** 2).sum() / (n - 2) if n > 2 else np.nan
        return a, np.sqrt(s2 / sxx), b, np.sqrt(s2 * (1 / n + xm ** 2 / sxx))

    def mass_function(self, sel, nmass, fix=False, corr=None):
        mm = self.m[sel]
        lo, mid, hi = self.bins(mm, nmass, fix)
        h = np.bincount(self.member(mm, lo, hi), minlength=len(lo)).astype(float)
        dm = (h if corr is None else np.bincount(self.member(mm, lo, hi), minlength=len(lo), weights=1 / corr[sel])) / (hi - lo)
        a, ea, b, eb = self.line(np.log10(mid), np.log10(dm))
        return mid, h, dm, a, ea, b

    def eta_function(self, sel, nmass, pro=False):
        mm, v = self.m[sel], self.v(pro)[sel]
        lo, mid, hi = self.bins(mm, nmass, False)
        b = self.member(mm, lo, hi)
        sig = np.array([v[b == i].std() for i in range(len(lo))])
        a, ea, c, ec = self.line(np.log10(mid), np.log10(sig))
        return mid, sig, a, ea

    def meq_function(self, sel, nmass, pro=False):
        """sigma0 exp(-m/2meq) up to meq, falling as m**-1/2 beyond: least squares with meq inside the mass range"""
        from scipy.optimize import curve_fit
        mid, sig = self.eta_function(sel, nmass, pro)[:2]
        def f(m, a, b): return b * np.where(m <= a, np.exp(-.5 * m / a), np.exp(-.5) * np.sqrt(a / m))
        p, C = curve_fit(f, mid, sig, bounds=([self.m.min(), 0], [self.m.max(), np.inf]), xtol=1e-12, ftol=1e-12, gtol=1e-12)
        return mid, sig, p[0], p[1]

    def tapered(self, sel, nmass):
        """A m**alpha (1-exp(-(m/mc)**beta)) by least squares: the fitted curve at the bins, and the exponent"""
        from scipy.optimize import curve_fit
        mid, h, dm = self.mass_function(sel, nmass)[:3]
        def f(m, A, al, mc, be): return A * m ** al * (1 - np.exp(-(m / mc) ** be))
        p, C = curve_fit(f, mid, dm, bounds=([0, -np.inf, self.m.min(), -np.inf], [np.inf, np.inf, self.m.max(), np.inf]))
        return mid, h, dm, f(mid, *p), p[1], p[2], p[3]

    def ckin(self, nmass, pro=False, **kw):
        rn = self.rlagrange(10, pro)
        a, b = (self.meq_function(self.select(pro, rmin=lo, rmax=hi, **kw), nmass, pro)[2] for lo, hi in ((0, rn[4]), (rn[3], rn[5])))
        return a / b

    # --- core, tidal -----------------------------------------------------------------
    def dens_nn(self, k, pro=False):
        D = self.X[:, :2] if pro else self.X
        d = np.sqrt(((D[:, None] - D[None]) ** 2).sum(2))
        o = np.argsort(d, axis=1)[:, :k]
        dk = np.take_along_axis(d, o, 1)[:, -1]
        return (self.m[o].sum(1) - self.m[o[:, -1]]) / dk ** (2 if pro else 3)

    def rcore(self, pro=False, k=6):
        rho = self.dens_nn(k, pro)
        return np.sqrt((rho ** 2 * self.r(pro) ** 2).sum() / (rho ** 2).sum())

    def gal(self, from_centre):
        g = self.w.gc[:3] + (self.w.centre[:3] / 1000. if from_centre else 0)
        return np.hypot(g[0], g[1]) / self.w.ro, g[2] / self.w.ro

    def rtidal(self, from_centre=False, niter=0, conv=0.9, indx=None, pot=POT, rgc=None, zgc=None):
        w = self.w
        R, z = self.gal(from_centre)
        R, z = R if rgc is None else rgc / w.ro, z if zgc is None else zgc / w.ro
        mo = conversion.mass_in_msol(vo=w.vo, ro=w.ro)
        sel = np.ones(self.n, bool) if indx is None else indx.copy()
        rt = potential.rtide(pot, R, z, M=self.m[sel].sum() / mo, use_physical=False) * w.ro * 1000
        for _ in range(niter):
            sel &= self.r() < rt
            new = potential.rtide(pot, R, z, M=self.m[sel].sum() / mo, use_physical=False) * w.ro * 1000
            if new / rt >= conv: break
            rt = new
        return rt

    def rlimiting(self, nrad, pro=False, from_centre=False, pot=POT, rgc=None, zgc=None):
        w = self.w
        R, z = self.gal(from_centre)
        R, z = R if rgc is None else rgc / w.ro, z if zgc is None else zgc / w.ro
        rho = potential.evaluateDensities(pot, R, z, use_physical=False) * conversion.dens_in_msolpc3(vo=w.vo, ro=w.ro)
        rp, pp, n = self.rho_prof(np.ones(self.n, bool) & (self.kw <= 15 if self.kw is not None else True), nrad, pro)
        if pro: rho *= 4. * rp[-1] / 3
        if pp[-1] > rho: return rp[-1]
        if pp[0] < rho: return 0.0
        i = np.nonzero(pp < rho)[0][0]
        return rp[i - 1] + (rho - pp[i - 1]) * (rp[i] - rp[i - 1]) / (pp[i] - pp[i - 1])

    def rcore_iso(self, f, pro=False):
        """where the density profile falls to a third (projected: half) of the innermost bin's, by linear interpolation"""
        r, d, n = self.rho_prof(np.ones(self.n, bool), int(np.ceil(1 / f)), pro)
        t = d[0] / (2 if pro else 3); k = d < t
        a, b = np.nonzero(~k)[0][-1], np.nonzero(k)[0][0]
        return r[b] + (t - d[b]) * (r[b] - r[a]) / (d[b] - d[a])

    # --- relaxation --------------------------------------------------------------------
    def trh(self, pro=False, coulomb=0.4):
        M, n = self.m.sum(), self.n
        t = 0.138 * np.sqrt(M) * self.lagr(.5, pro) ** 1.5 / (M / n * np.sqrt(G) * np.log(coulomb * n))
        return t * PC_KM / MYR_S

    def trelax(self, pro=False, coulomb=0.4, rad=None):
        rad = self.lagr(.5, pro) if rad is None else rad
        s = self.r(pro) <= rad * (1 + 1e-12)
        rho = s.sum() / (4 * np.pi * rad ** 3 / 3)
        v2 = (self.v(pro) ** 2).mean()
        t = v2 ** 1.5 / (15.4 * G ** 2 * self.m[s].mean() ** 2 * rho * np.log(coulomb * self.n))
        return t * PC_KM / MYR_S

    def trc(self, pro=False, coulomb=0.4):
        rc, rh, M = O(self.w, "centre").rcore(pro), self.lagr(.5, pro), self.m.sum()
        t = 0.39 / np.log(coulomb * self.n) * np.sqrt(rc ** 3 / (G * M)) * self.n * np.sqrt(rc * rh) / (rc + rh)
        return t * PC_KM / MYR_S

    # --- profiles -----------------------------------------------------------------------
    def rbins(self, sel, nrad, pro, fix, edges=None):
        r = self.r(pro)
        if edges is not None: lo, mid, hi = edges
        else: lo, mid, hi = self.bins(r[sel], nrad, fix)
        b = self.member(r, lo, hi)
        return lo, mid, hi, [sel & (b == i) for i in range(len(lo))]

    def rho_prof(self, sel, nrad, pro=False, fix=False, edges=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        vol = np.pi * (hi ** 2 - lo ** 2) if pro else 4 / 3 * np.pi * (hi ** 3 - lo ** 3)
        return mid, np.array([self.m[k].sum() for k in mem]) / vol, np.array([k.sum() for k in mem])

    def m_prof(self, sel, nrad, pro=False, fix=False, cum=False, edges=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        M, N = np.array([self.m[k].sum() for k in mem]), np.array([k.sum() for k in mem])
        return (mid, np.cumsum(M), np.cumsum(N)) if cum else (mid, M, N)

    def comp(self, coord, pro):
        """velocity component"""
        coord = {"vr": "r", "vp": "phi", "vphi": "phi", "vt": "theta", "vtheta": "theta", "vx": "x", "vy": "y", "vz": "z"}.get(coord, coord)
        if coord is None or coord == "v": return self.v(pro)
        R = np.hypot(self.x, self.y)
        vR = (self.x * self.vx + self.y * self.vy) / R
        vp = (self.x * self.vy - self.y * self.vx) / R
        r = self.r()
        vr = (self.X * self.V).sum(1) / r
        vt = (self.z * vR - R * self.vz) / r
        return {"r": vR if pro else vr, "phi": vp, "theta": vt, "x": self.vx, "y": self.vy, "z": self.vz}[coord]

    def stat_prof(self, sel, nrad, f, pro=False, fix=False, coord=None, edges=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        v = self.comp(coord, pro)
        return mid, np.array([f(v[k]) if k.sum() > 3 else 0. for k in mem])

    def beta_prof(self, sel, nrad, pro=False, fix=False, edges=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        a, p, t = self.comp("r", pro), self.comp("phi", pro), self.comp("theta", pro)
        out = []
        for k in mem:
            if k.sum() <= 3: out.append(0.); continue
            if pro: out.append(p[k].std() / a[k].std() - 1)
            else: out.append(1 - (t[k].var() + p[k].var()) / (2 * a[k].var()))
        return mid, np.array(out)

    def alpha_prof(self, sel, nrad, nmass, pro=False, fix=False, edges=None, corr=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        if edges is not None: mid = np.array([self.r(pro)[k].mean() for k in mem])
        al, eal = [], []
        for k in mem:
            if k.sum() >= nmass:
                _, _, _, a, ea, _ = self.mass_function(k, nmass, corr=corr); al.append(a); eal.append(ea)
            else: al.append(0.); eal.append(0.)
        d = self.line(np.log(mid / self.lagr(.5, pro)), al) if len(mid) > 3 else (-100., 0., 0., 0.)
        return mid, np.array(al), d[0], d[1], d[2], d[3], np.array(eal)

    def eta_prof(self, sel, nrad, nmass, pro=False, fix=False, edges=None):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, fix, edges)
        et = [self.eta_function(k, nmass, pro)[2] if k.sum() >= 2 * nmass else 0. for k in mem]
        d = self.line(np.log(mid / self.lagr(.5, pro)), et) if len(mid) > 3 else (-100., 0., 0., 0.)
        return mid, np.array(et), d[0], d[1], d[2], d[3]

    def meq_prof(self, sel, nrad, nmass, pro=False):
        lo, mid, hi, mem = self.rbins(sel, nrad, pro, False)
        et = [self.meq_function(k, nmass, pro)[2] if k.sum() >= 2 * nmass else 0. for k in mem]
        d = self.line(np.log(mid / self.lagr(.5, pro)), et) if len(mid) > 3 else (-100., 0., 0., 0.)
        return mid, np.array(et), d[0], d[1], d[2], d[3]

    def vcirc_prof(self, sel, pro=False, nrad=None, fix=False, edges=None):
        r = self.r(pro)[sel]; o = np.argsort(r, kind="stable")
        rs, ms = r[o], np.cumsum(self.m[sel][o])
        vc = np.sqrt(G * ms / rs)
        if nrad is None: a = np.arange(len(rs))
        else:
            lo, mid, hi = self.bins(r, nrad, fix) if edges is None else edges
            a = np.array([np.argmin(np.abs(rs - q)) for q in mid])
        return rs[a], vc[a], rs[np.argmax(vc)], vc.max()

    # --- centres and coordinates -----------------------------------------------------
    def com(self):
        M = self.m.sum()
        return np.concatenate([(self.m[:, None] * self.X).sum(0) / M, (self.m[:, None] * self.V).sum(0) / M])

    def cod_casertano(self, k=6):
        q = self.dens_nn(k); q = q / q.sum()
        return np.concatenate([(q[:, None] * self.X).sum(0), (q[:, None] * self.V).sum(0)])

    def cod_harfst(self, nsphere, start=np.zeros(6), rmin=0.0, sel=None, rmax=None, nmax=100):
        sel = np.ones(self.n, bool) if sel is None else sel
        X, V, m = self.X[sel] - start[:3], self.V[sel] - start[3:], self.m[sel]
        c = np.array(start, float)
        lim = np.sqrt((X ** 2).sum(1)).max() if rmax is None else rmax
        n = 0
        while lim > rmin and n < nmax:
            k = (X ** 2).sum(1) < lim ** 2
            if k.sum() <= nsphere: break
            d = np.concatenate([(m[k][:, None] * X[k]).sum(0), (m[k][:, None] * V[k]).sum(0)]) / m[k].sum()
            X, V, c, lim = X - d[:3], V - d[3:], c + d, lim * 0.8
            n += 1
        return c

    def spherical(self):
        r = self.r()
        return r, np.arctan2(self.y, self.x), np.arccos(self.z / r), self.comp("r", False), self.comp("phi", False), self.comp("theta", False)

    def cylindrical(self):
        R = np.hypot(self.x, self.y)
        return R, np.arctan2(self.y, self.x), self.z, self.comp("r", True), self.comp("phi", True), self.vz
