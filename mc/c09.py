"""C09  reading a simulation snapshot by snapshot: every history of advances and of
work done on the cluster in between shows snapshot k exactly as written, in order,
to the end, for every supported file format and file layout."""
import os, itertools, shutil, tempfile, copy
import numpy as np
import clustertools as ct
from . import common, simfiles as sf

K = 3


def close(a, b, rel=1e-6): return np.shape(a) == np.shape(b) and common.close(np.asarray(a, float), np.asarray(b, float), rel=rel, scale=max(1e-12, np.max(np.abs(b)) if np.size(b) else 1.))


class Fmt:
    units, origin, extra, recentre = None, None, (), False

    def __init__(self, n, **kw): self.n, self.kw = n, kw; self.snaps = [self.make(k) for k in range(K)]
    def make(self, k): return sf.gen(self.n, k)
    def load(self, d, **kw): raise NotImplementedError
    def adv(self): return {}
    def table(self, k):
        s = self.snaps[k]
        return dict(m=s["m"], id=s["id"], p=s["p"])
    def extra_check(self, c, k): return []
    def time(self, k): return self.snaps[k]["t"]


class Snapshot(Fmt):
    """kw: units, origin, cols, base, end, zf, sub (snapdir), sep, skip, first, slash, cont (first snapshot in cont/), repeat"""
    def __init__(self, n, **kw):
        self.o = dict(units="pckms", origin="cluster", cols=None, base="", end=".dat", zf=5, sub="", sep=None, skip=0, slash="/", cont=None, repeat=False)
        self.o.update(kw); self.units, self.origin = self.o["units"], self.o["origin"]
        super().__init__(n)

    def path(self, d, k):
        o = self.o
        dd = d + ("/cont" if o["cont"] is not None and k >= o["cont"] else "")
        return os.path.join(dd, o["sub"], o["base"] + str(k).zfill(o["zf"]) + o["end"])

    def write(self, d):
        o = self.o; cols = o["cols"] or ["m", "x", "y", "z", "vx", "vy", "vz"]
        for k in range(K):
            sf.write(self.path(d, k), "# head\n" * 0 + "header line\n" * o["skip"] + sf.ascii_rows(self.snaps[k], cols, o["sep"] or " "))

    def colkw(self):
        o = self.o
        if o["cols"] is None: return {}
        names = [c for c in o["cols"] if c != "-"]
        return dict(col_names=names, col_nums=[o["cols"].index(c) for c in names])

    def layout(self):
        o = self.o
        return dict(snapbase=o["base"], snapend=o["end"], nzfill=o["zf"], snapdir=o["sub"] , delimiter=o["sep"], skiprows=o["skip"])

    def load(self, d, **kw):
        return ct.load_cluster("snapshot", units=self.units, origin=self.origin, wdir=d + self.o["slash"], **self.layout(), **self.colkw(), **kw)

    def adv(self): return dict(self.colkw(), **(self.layout() if self.o["repeat"] else {}))

    def table(self, k):
        t = super().table(k); cols = self.o["cols"]
        if cols is None or "id" not in cols: t["id"] = np.arange(self.n)
        if cols is not None and "m" not in cols: t["m"] = np.ones(self.n)
        if cols is not None:
            t["p"] = t["p"].copy()
            for i, a in enumerate(("x", "y", "z", "vx", "vy", "vz")):
                if a not in cols: t["p"][:, i] = 0
        return t

    def extra_check(self, c, k):
        if self.o["cols"] is not None and "kw" in self.o["cols"] and not close(c.kw, self.snaps[k]["kw"]): return [("stellar types", str(c.kw))]
        return []

    def time(self, k): return 0.


class Nemo(Fmt):
    def __init__(self, n, units="WDunits", origin="centre", new=False, eps=False, say=True):
        self.units, self.origin, self.new, self.eps, self.say = units, origin, new, eps, say
        super().__init__(n)
        self.recentre = origin == "centre"

    def write(self, d): sf.write(d + "/run.dat", "".join(sf.nemo(s, self.eps) for s in self.snaps))
    def g(self): return dict(give="mxvpqael" if self.eps == "all" else "mxve") if self.eps else {}
    def load(self, d, **kw): return ct.load_cluster("new_gyrfalcon" if self.new else "gyrfalcon", units=self.units, origin=self.origin, filename="run.dat", wdir=d + "/", **self.g(), **kw)
    def adv(self): return self.g() if self.say else {}
    def table(self, k):
        t = super().table(k); t["id"] = np.arange(self.n) + (0 if self.new else 1); return t
    def extra_check(self, c, k):
        e = .1 * np.arange(1, self.n + 1) + k
        if self.eps and not close(c.eps, e): return [("softening lengths", str(c.eps))]
        if self.eps == "all" and not (close(c.gyrpot, -3. * e) and close(c.gyrq, 2. * e) and close(c.gyracc, 7. * e) and close(c.gyrlev, np.arange(self.n) % 3.)): return [("gyrfalcon columns", str((c.gyrpot, c.gyrq, c.gyracc, c.gyrlev)))]
        return []


class N6(Fmt):
    """singles + centres of mass in OUT3, escaped/tail stars or binaries in OUT33, stellar evolution in fort.82/83"""
    units, origin = "nbody", "cluster"
    def __init__(self, n, nb=0, se=False, sub="", slash="/", out33=True, cont=None):
        self.nb, self.se, self.sub, self.slash, self.o33, self.cont = nb, se, sub, slash, out33, cont
        super().__init__(n)

    def make(self, k):
        s = sf.gen(self.n, k); s["alist"][1] = self.nb
        s["b"] = sf.gen(self.nb, k, seed=3, nb=self.nb) if self.nb else None
        s["comp"] = s["b"]["comp"] if self.nb else []
        return s

    def write(self, d):
        for dd, ks in ([(d, range(K))] if self.cont is None else [(d, range(self.cont)), (d + "/cont", range(self.cont, K))]):
            p = os.path.join(dd, self.sub) if self.sub else dd; ss = [self.snaps[k] for k in ks]
            sf.write(p + "/OUT3", b"".join(sf.out3(s) for s in ss))
            if self.o33: sf.write(p + "/OUT33", b"".join(sf.out33(s["b"], self.al33(s)) for s in ss))
            if self.se:
                sf.write(p + "/fort.82", "".join(sf.fort82(s) for s in ss)); sf.write(p + "/fort.83", "".join(sf.fort83(s) for s in ss))

    def al33(self, s): return np.float32(10. + np.arange(sf.NK) + s["k"]).astype(float)
    def load(self, d, **kw):
        if self.sub: kw["snapdir"] = self.sub
        return ct.load_cluster("nbody6", wdir=d + self.slash, **kw)

    def table(self, k):
        s = self.snaps[k]; t = super().table(k)
        if self.nb: t = {a: np.concatenate([s["b"][a], t[a]]) for a in t}
        return t

    def extra_check(self, c, k):
        s = self.snaps[k]; bad = []; a = s["alist"]
        for nm, v in (("nc", a[13]), ("rc", a[12]), ("rbar", a[2]), ("rtide", a[4]), ("xc", a[6]), ("yc", a[7]), ("zc", a[8]), ("zmbar", a[3]), ("vbar", a[11]), ("tbar", a[10]), ("rscale", a[17])):
            if not close(getattr(c, nm), v): bad.append(("header " + nm, "%s want %s" % (getattr(c, nm), v)))
        if self.nb and c.ofile is None and not close([c.xgc, c.ygc, c.zgc, c.vxgc, c.vygc, c.vzgc], self.al33(s)[:6]): bad.append(("orbit from OUT33", str(c.xgc)))
        if self.se: bad += se_check(c, s, s["kw"], s["logl"], s["logr"])
        return bad


def se_check(c, s, kw, logl, logr):
    """stellar evolution of every star: binaries first (combined light, larger radius), then singles"""
    bad = []; B = s["comp"]; f = lambda q: np.array([b[q] for b in B], float)
    lb = np.log10(10 ** f("l1") + 10 ** f("l2")) if B else np.zeros(0)
    rb = np.maximum(f("r1"), f("r2")) if B else np.zeros(0)
    for nm, v in (("logl", np.append(lb, logl)), ("logr", np.append(rb, logr))):
        if not close(getattr(c, nm), v, 1e-5): bad.append(("stellar evolution " + nm, "%s want %s" % (getattr(c, nm), v)))
    if len(c.kw) != len(B) + len(kw) or not close(c.kw[len(B):], kw): bad.append(("stellar evolution kw", "%s want %s" % (c.kw, kw)))
    td = 365.25 * (c.rbar * 648000. / np.pi) ** 1.5 / np.sqrt(c.zmbar); su = c.rbar * 648000. / np.pi * 1.495978707e8 / 6.957e5
    if B:
        for nm, v in (("id1", f("id1")), ("id2", f("id2")), ("kw1", f("kw1")), ("kw2", f("kw2")), ("kcm", f("kwb")), ("ecc", f("ecc")), ("pb", 10 ** f("logpb") / td), ("semi", 10 ** f("logsemi") / su),
                      ("m1", f("m1") / c.zmbar), ("m2", f("m2") / c.zmbar), ("logl1", f("l1")), ("logl2", f("l2")), ("logr1", f("r1")), ("logr2", f("r2"))):
            if not close(getattr(c, nm), v, 1e-5): bad.append(("binary " + nm, "%s want %s" % (getattr(c, nm), v)))
    if c.nb != len(B): bad.append(("number of binaries", "%s want %s" % (c.nb, len(B))))
    return bad


class N6pp(Fmt):
    """conf.3_k, bev.82_k, sev.83_k; n particles of which 2 nb are components"""
    units, origin = "nbody", "cluster"
    def __init__(self, n, nb=0, se=False, sub="", dtout=1, shuffle=False, cont=None):
        self.nb, self.se, self.sub, self.dtout, self.shuffle, self.cont = nb, se, sub, dtout, shuffle, cont
        super().__init__(n)
    def make(self, k): return sf.gen(self.n, k, nb=self.nb)
    def write(self, d):
        for k, s in enumerate(self.snaps):
            dd = d + ("/cont" if self.cont is not None and k >= self.cont else "")
            p = (os.path.join(dd, self.sub) if self.sub else dd) + "/"; t = str(k * self.dtout)
            sf.write(p + "conf.3_" + t, sf.conf3(s))
            if self.se:
                js = list(range(2 * self.nb, self.n))
                if self.shuffle: js = js[::-1]
                sf.write(p + "bev.82_" + t, sf.bev82(s)); sf.write(p + "sev.83_" + t, sf.sev83(s, js))
    def load(self, d, **kw):
        if self.sub: kw["snapdir"] = self.sub
        return ct.load_cluster("nbody6pp", wdir=d + "/", dtout=self.dtout, **kw)
    def adv(self): return dict(dtout=self.dtout)
    def table(self, k):
        s = self.snaps[k]; b = 2 * self.nb; m, p = s["m"], s["p"]
        i, j = np.arange(0, b, 2), np.arange(1, b, 2)
        M = m[i] + m[j]
        P = (m[i][:, None] * p[i] + m[j][:, None] * p[j]) / M[:, None] if b else p[:0]
        return dict(m=np.append(M, m[b:]), id=np.append(s["id"][i], s["id"][b:]), p=np.vstack([P, p[b:]]))
    def extra_check(self, c, k):
        s = self.snaps[k]; bad = []; a = s["alist"]; b = 2 * self.nb
        for nm, v in (("nc", a[13]), ("rc", a[12]), ("rbar", a[2]), ("rtide", a[4]), ("xc", a[6]), ("yc", a[7]), ("zc", a[8]), ("zmbar", a[3]), ("vbar", a[11]), ("tbar", a[10]), ("rscale", a[17])):
            if not close(getattr(c, nm), v): bad.append(("header " + nm, "%s want %s" % (getattr(c, nm), v)))
        pot = np.append(s["pot"][0:b:2] + s["pot"][1:b:2], s["pot"][b:])
        if not close(c.pot, pot, 1e-5): bad.append(("potentials", "%s want %s" % (c.pot, pot)))
        t = self.table(k)
        if not close(c.kin, .5 * t["m"] * (t["p"][:, 3:] ** 2).sum(1)): bad.append(("kinetic energies", str(c.kin)))
        if self.se: bad += se_check(c, s, s["kw"][b:], s["logl"][b:], s["logr"][b:])
        return bad


class N6h5(Fmt):
    """snap.40_k.h5part with several snapshots per file, with or without conf.3_k for the scales"""
    units, origin = "nbody", "cluster"
    def __init__(self, n, nb=0, files=(3,), conf=True, sub="", dtout=1, cont=None):
        self.nb, self.files, self.conf, self.sub, self.dtout, self.cont = nb, tuple(files), conf, sub, dtout, cont
        super().__init__(n); self.scale = None
    def make(self, k): return sf.gen(self.n, k, nb=self.nb)
    def fac(self): a = self.snaps[0]["alist"]; return a[2], a[11], a[3]
    def first(self, k): return max(sum(self.files[:i]) for i in range(len(self.files)) if sum(self.files[:i]) <= k)
    def write(self, d):
        k = 0
        for i, nf in enumerate(self.files):
            dd = d + ("/cont" if self.cont is not None and i >= self.cont else "")
            p = (os.path.join(dd, self.sub) if self.sub else dd) + "/"; t = str(i * self.dtout)
            sf.h5part(p + "snap.40_%s.h5part" % t, self.snaps[k:k + nf], self.fac())
            if self.conf: sf.write(p + "conf.3_" + t, sf.conf3(self.snaps[k]))
            k += nf
    def load(self, d, **kw):
        if self.sub: kw["snapdir"] = self.sub
        c = ct.load_cluster("nbody6pp", wdir=d + "/", hdf5=True, dtout=self.dtout, **kw)
        self.scale = (c.rbar, c.vbar, c.zmbar, c.tbar)
        return c
    def adv(self): return dict(dtout=self.dtout)
    def table(self, k):
        s = self.snaps[k]; b = 2 * self.nb; f = self.fac()
        m, p = s["m"] * (f[2] / self.scale[2]), s["p"] * np.array([f[0] / self.scale[0]] * 3 + [f[1] / self.scale[1]] * 3)
        i, j = np.arange(0, b, 2), np.arange(1, b, 2); M = m[i] + m[j]
        P = (m[i][:, None] * p[i] + m[j][:, None] * p[j]) / M[:, None] if b else p[:0]
        return dict(m=np.append(M, m[b:]), id=np.append(s["id"][i], s["id"][b:]), p=np.vstack([P, p[b:]]))
    def extra_check(self, c, k):
        s = self.snaps[k]; bad = []; b = 2 * self.nb; f = self.fac()
        if not close(np.array([c.rbar, c.vbar, c.zmbar, c.tbar]), np.array(self.scale)): bad.append(("scales", "%s want %s" % ((c.rbar, c.vbar, c.zmbar, c.tbar), self.scale)))
        if self.conf:
            a = self.snaps[self.first(k)]["alist"]
            for nm, v in (("nc", a[13]), ("rc", a[12]), ("rbar", a[2]), ("rtide", a[4]), ("xc", a[6]), ("yc", a[7]), ("zc", a[8]), ("zmbar", a[3]), ("vbar", a[11]), ("tbar", a[10]), ("rscale", a[17])):
                if not close(getattr(c, nm), v): bad.append(("header " + nm, "%s want %s" % (getattr(c, nm), v)))
        elif k == 0 and not close(np.sum(c.m), 1.0): bad.append(("unit mass without conf.3", str(np.sum(c.m))))
        pot = np.append(s["pot"][0:b:2] + s["pot"][1:b:2], s["pot"][b:])
        if not close(np.asarray(c.pot), pot, 1e-5): bad.append(("potentials", "%s want %s" % (c.pot, pot)))
        B = s["comp"]; q = lambda x: np.array([v[x] for v in B], float)
        logl = np.append(np.log10(10 ** q("l1") + 10 ** q("l2")), s["logl"][b:])
        if not close(c.logl, logl, 1e-5): bad.append(("luminosities", "%s want %s" % (c.logl, logl)))
        if len(c.kw) != len(B) + self.n - b or not close(c.kw[len(B):], s["kw"][b:]): bad.append(("kw", str(c.kw)))
        if c.nb != len(B): bad.append(("number of binaries", "%s want %s" % (c.nb, len(B))))
        if B:
            td = 365.25 * (c.rbar * 648000. / np.pi) ** 1.5 / np.sqrt(c.zmbar); au = c.rbar * 648000. / np.pi
            m, p = s["m"] * (f[2] / self.scale[2]), s["p"] * np.array([f[0] / self.scale[0]] * 3 + [f[1] / self.scale[1]] * 3)
            for nm, v in (("id1", s["id"][0:b:2]), ("id2", s["id"][1:b:2]), ("kw1", q("kw1")), ("kw2", q("kw2")), ("kcm", q("kwb")), ("ecc", q("ecc")), ("pb", 10 ** q("logpb") / td), ("semi", 10 ** q("logsemi") / au),
                          ("m1", m[0:b:2]), ("m2", m[1:b:2]), ("logl1", q("l1")), ("logl2", q("l2"))):
                if not close(np.asarray(getattr(c, nm)), np.asarray(v), 1e-5): bad.append(("binary " + nm, "%s want %s" % (getattr(c, nm), v)))
            # the components about the centre of mass of their binary stay as read (AU, km/s)
            i, j = np.arange(0, b, 2), np.arange(1, b, 2); M = (s["m"][i] + s["m"][j])[:, None]; r = (s["p"][i] - s["p"][j]) * np.array([f[0] * 206264.80624709636] * 3 + [f[1]] * 3)
            for nm, want in (("1", s["m"][j][:, None] / M * r), ("2", -s["m"][i][:, None] / M * r)):
                got = np.column_stack([getattr(c, x + "b" + nm) for x in ("x", "y", "z", "vx", "vy", "vz")])
                if not close(got, want, 1e-5): bad.append(("component %s of the binaries" % nm, "%s want %s" % (got, want)))
        return bad


# ------------------------------------------------------------------ one configuration, all histories
BETWEEN = ["to_galaxy", "to_nbody", "to_kpckms", "energies", "sub", "to_sky"]


def work(op, c):
    if op == "energies":
        c.energies()
        if c.ntot > 3: ct.rlagrange(c); ct.rho_prof(c)
    elif op == "sub": ct.sub_cluster(c, rmax=c.rm)
    elif op == "to_sky": c.to_galaxy(); c.to_sky()
    else: getattr(c, op)()


def verify(f, c, k, orbit):
    bad = []
    if k >= K:
        if c.ntot != 0: bad.append(("stars after the end", "%d stars after the last snapshot" % c.ntot))
        return bad
    t = f.table(k)
    if c.ntot != len(t["m"]): return [("number of stars", "%d stars, snapshot %d has %d" % (c.ntot, k, len(t["m"])))]
    if (c.units, c.origin) != (f.units, f.origin): bad.append(("units/origin label", "%s %s want %s %s" % (c.units, c.origin, f.units, f.origin)))
    if not close(c.m, t["m"]): bad.append(("masses", "%s want %s" % (c.m, t["m"])))
    if not np.array_equal(np.asarray(c.id), np.asarray(t["id"])): bad.append(("identifiers", "%s want %s" % (c.id, t["id"])))
    got = np.column_stack([c.x, c.y, c.z, c.vx, c.vy, c.vz])
    if f.recentre: got = got + np.array([c.xc, c.yc, c.zc, c.vxc, c.vyc, c.vzc])
    if not close(got, t["p"], 1e-5): bad.append(("positions/velocities", "%s want %s" % (got[0], t["p"][0])))
    tw = f.time(k)
    if orbit is not None:
        row = np.array(sf.orbit_row(k), float); g = np.array([c.xgc, c.ygc, c.zgc, c.vxgc, c.vygc, c.vzgc], float)
        w = row[1:].copy()
        if orbit[0] is not None:
            F = {"kpckms": (1000., 1., 1000.), "pckms": (1., 1., 1.), "nbody": (c.rbar, c.vbar, c.tbar)}
            a, b = F[orbit[0]], F[f.units]
            w[:3] *= a[0] / b[0]; w[3:] *= a[1] / b[1]; row[0] *= a[2] / b[2]
        if not close(g, w): bad.append(("orbit of snapshot", "orbit %s at snapshot %d, want %s" % (g, k, w)))
        if orbit[1]: tw = row[0]
    if not common.close(float(c.tphys), tw, rel=1e-6, scale=max(1., abs(tw))): bad.append(("time", "tphys %s want %s at snapshot %d" % (c.tphys, tw, k)))
    o = np.argsort(c.r, kind="stable")
    if not close(c.r[c.rorder], c.r[o]): bad.append(("ordering", str(c.rorder)))
    return bad + f.extra_check(c, k)


def histories(depth):
    """all interleavings of K advances with at most `depth` pieces of work, each at any of the K gaps"""
    for n in range(depth + 1):
        for gaps in itertools.combinations_with_replacement(range(K), n):
            for ops in itertools.product(BETWEEN, repeat=n):
                h = []
                for g in range(K):
                    h += [o for o, x in zip(ops, gaps) if x == g]
                    h.append("advance")
                yield h


def run_history(f, d, h, orbit, first):
    kw, akw = {}, {}
    if orbit is not None:
        kw = dict(ofilename="orbit.txt", ounits=orbit[0], otime=orbit[1]); akw = dict(ounits=orbit[0], otime=orbit[1])
    if first: kw["nsnap"] = first
    with common.quiet():
        c = f.load(d, **kw)
    k = first
    yield c, k, ["load"]
    for i, op in enumerate(h):
        if op == "advance":
            k += 1
            with common.quiet(): c = ct.advance_cluster(c, **f.adv(), **akw)
            yield c, k, h[:i + 1]
            if k >= K: return
        else:
            with common.quiet(): work(op, c)


def formats(t):
    out = []
    S = lambda **kw: out.append((Snapshot, kw))
    ns = (1, 2, 5)
    for n in ns:
        for u, o in (("pckms", "cluster"), ("kpckms", "galaxy"), ("nbody", "centre"), ("kpckms", "cluster"), ("pckms", "galaxy")): S(n=n, units=u, origin=o)
    for cols in (["x", "y", "z", "vx", "vy", "vz", "m"], ["id", "-", "vz", "vy", "vx", "z", "y", "x", "m", "kw"], ["x", "y", "z", "vx", "vy", "vz"], ["m", "x", "y", "vx", "vy", "id"]): S(n=4, cols=cols)
    for base, end, zf, sub, slash in itertools.product(("", "snap_"), (".dat", ".txt"), (1, 5), ("", "out"), ("/", "")): S(n=3, base=base, end=end, zf=zf, sub=sub, slash=slash)
    for sep, skip, rep in itertools.product((None, ","), (0, 2), (False, True)): S(n=3, sep=sep, skip=skip, repeat=rep, base="s")
    for cont, sub, slash, u, cols in itertools.product((1, 2), ("", "out"), ("/", ""), (("pckms", "cluster"), ("kpckms", "galaxy")), (None, ["m", "id", "x", "y", "z", "vx", "vy", "vz"])): S(n=3, cont=cont, sub=sub, slash=slash, units=u[0], origin=u[1], cols=cols)
    for n in ns:
        for u, o in (("WDunits", "centre"), ("WDunits", "galaxy"), ("kpckms", "cluster")):
            for new in (False, True):
                for eps, say in ((False, True), (True, True), (True, False), ("all", False)): out.append((Nemo, dict(n=n, units=u, origin=o, new=new, eps=eps, say=say)))
    for n in ns:
        for nb in (0, 1, 2, 3):
            for se in (False, True): out.append((N6, dict(n=n, nb=nb, se=se, out33=True)))
        out.append((N6, dict(n=n, se=False, out33=False)))
    for slash, sub in (("", ""), ("/", "out"), ("", "out")): out.append((N6, dict(n=2, nb=1, se=True, sub=sub, slash=slash)))
    for cont, sub, slash in itertools.product((1, 2), ("", "out"), ("", "/")): out.append((N6, dict(n=2, nb=1, se=True, cont=cont, sub=sub, slash=slash)))
    for nb in (0, 1, 2, 3):
        for extra in (1, 2, 5):
            for se, sh in ((False, False), (True, False), (True, True)): out.append((N6pp, dict(n=2 * nb + extra, nb=nb, se=se, shuffle=sh)))
    for sub, dt in itertools.product(("", "out"), (1, 2, 5)): out.append((N6pp, dict(n=4, nb=1, se=True, sub=sub, dtout=dt)))
    for cont in (1, 2): out.append((N6pp, dict(n=4, nb=1, se=True, cont=cont)))
    out.append((N6pp, dict(n=40, nb=16, se=True)))
    for nb, extra, files, conf in itertools.product((0, 1, 2), (2, 5), ((3,), (1, 1, 1), (2, 1), (1, 2)), (True, False)): out.append((N6h5, dict(n=2 * nb + extra, nb=nb, files=files, conf=conf)))
    for sub, dt, cont in itertools.product(("", "out"), (1, 2, 5), (None, 1)): out.append((N6h5, dict(n=4, nb=1, files=(1, 2) if cont else (2, 1), sub=sub, dtout=dt, cont=cont)))
    return out


def one(item, part):
    cls, kw, orbit, first, depth = item
    f = cls(**kw)
    d = tempfile.mkdtemp(dir=os.getcwd())
    desc = dict(fmt=cls.__name__, kw={k: v for k, v in kw.items()}, orbit=orbit, first=first)
    try:
        f.write(d)
        for sub in ("", "/cont"):
            if os.path.isdir(d + sub): sf.write(d + sub + "/orbit.txt", sf.orbit_file(K + 2))
        for h in histories(depth):
            if orbit is None and any(o in ("to_sky", "to_galaxy") for o in h) and f.origin is None: continue
            last = None
            try:
                with common.limit(60):
                    for c, k, done in run_history(f, d, h, orbit, first):
                        last = done
                        part.transitions += 1
                        for key, msg in verify(f, c, k, orbit): part.violation("%s: %s" % (cls.__name__, key), "%s after %s: %s" % (desc, done, msg), dict(desc, h=h))
                        part.outcome(cls.__name__, k, c.ntot, c.units, c.origin, orbit)
            except Exception as e:
                part.violation("%s: raised %s" % (cls.__name__, type(e).__name__), "%s history %s after %s: %s" % (desc, h, last, common.exc_text(e)), dict(desc, h=h))
            part.traces += 1; part.states += len(h) + 1
            part.sample(dict(desc, history=h))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(case):
    p = common.Part(); f = globals()[case["fmt"]](**{k: (v if not isinstance(v, list) else list(v)) for k, v in case["kw"].items()})
    d = tempfile.mkdtemp(dir=os.getcwd()); f.write(d); orbit = tuple(case["orbit"]) if case["orbit"] else None
    for sub in ("", "/cont"):
        if os.path.isdir(d + sub): sf.write(d + sub + "/orbit.txt", sf.orbit_file(K + 2))
    out = []
    try:
        for c, k, done in run_history(f, d, case["h"], orbit, case["first"]):
            out += [common.V(a, "%s: %s" % (done, b), case) for a, b in verify(f, c, k, orbit)]
    except Exception as e: out.append(common.V("raised", common.exc_text(e), case))
    return out


def run(ctx):
    t = ctx.thorough
    items = []
    for i, (cls, kw) in enumerate(formats(t)):
        for orbit in (None, (None, False), (None, True), ("kpckms", True), ("pckms", False)):
            if orbit is not None and orbit[0] is not None and kw.get("units") == "WDunits": continue
            for first in ((0, 1) if cls in (Snapshot,) and kw.get("cont") is None else (0,)):
                items.append((cls, kw, orbit, first, 2 if t else (1 if orbit in (None, (None, True)) and first == 0 else 0)))
    ctx.pmap(one, items)
    ctx.bounds = dict(formats=["snapshot", "gyrfalcon", "new_gyrfalcon", "nbody6", "nbody6pp"], snapshots=K, configurations=len(items), work=BETWEEN, work_per_history=2 if t else 1)
    ctx.explanation = "files of every layout written by an independent writer; every interleaving of advances with work on the cluster replayed on the real loaders; each snapshot compared with what was written"
