"""Writers of the file formats the loaders read, independent of clustertools:
a simulation is a list of snapshots (dicts of plain numbers)."""
import os, struct
import numpy as np

NK = 20


def gen(n, k, seed=0, nb=0):
    """snapshot k with n stars (nb of them binaries, stored first): numbers are a function of (n, k, seed) only, exact in float32"""
    i = np.arange(1, n + 1, dtype=float)[:, None] + 31 * k + 7 * seed
    p = np.float32(4 * (((i * np.array([[.61803, .75488, .56984, .41421, .81917, .67104]])) % 1.0) - .5)).astype(float)
    m = np.float32(.2 + ((i[:, 0] * .32472) % 1.0)).astype(float)
    ids = (np.arange(n) * 3 + 2 + 100 * (seed + 1))
    s = dict(p=p, m=m, id=ids, t=float(np.float32(.5 + 1.25 * k)), k=k, n=n, nb=nb)
    s["kw"] = (np.arange(n) + k) % 14
    s["logl"] = np.round(-1.3 + 2.9 * ((i[:, 0] * .2857) % 1.0), 4)
    s["logr"] = np.round(-.9 + 1.9 * ((i[:, 0] * .7071) % 1.0), 4)
    s["pot"] = np.float32(-1. - ((i[:, 0] * .4771) % 1.0)).astype(float)
    a = np.zeros(NK); a[:] = np.float32(1.5 + np.arange(NK) * .25 + .125 * k)
    a[0] = s["t"]; a[1] = nb; a[2] = 2.5; a[3] = 40.; a[10] = 1.75; a[11] = .5
    s["alist"] = a
    s["comp"] = []                                         # binaries: dict of component data
    for b in range(nb):
        j = b + 5 * k + 3 * seed
        s["comp"].append(dict(id1=1000 + 2 * b, id2=1001 + 2 * b, kw1=(j + 1) % 10, kw2=j % 7, kwb=2 + b, ri=.5, ecc=round(.1 + .07 * j % .8, 3),
                              logpb=round(1.1 + .3 * j % 2, 3), logsemi=round(.7 + .2 * j % 2, 3), m1=round(.8 + .1 * b, 3), m2=round(.5 + .05 * b, 3), l1=round(-.4 + .21 * b, 3), l2=round(-.8 + .17 * b, 3),
                              r1=round(-.2 + .04 * b, 3), r2=round(-.35 + .09 * b, 3), t1=3.6, t2=3.5))
    return s


def f32(*v): return b"".join(struct.pack("f", float(x)) for x in v)
def i32(*v): return b"".join(struct.pack("i", int(x)) for x in v)
def rec(b): return i32(len(b)) + b + i32(len(b))


# ------------------------------------------------------------------ NBODY6
def out3(s):
    """single stars and centres of mass"""
    return rec(i32(s["n"], 1, 1, NK)) + rec(f32(*s["alist"]) + f32(*s["m"]) + f32(*s["p"][:, :3].ravel()) + f32(*s["p"][:, 3:].ravel()) + i32(*s["id"]))


def out33(b, alist):
    h = rec(i32(0 if b is None else b["n"], 1, NK))
    if b is None or b["n"] == 0: return h
    return h + rec(f32(*alist) + f32(*b["m"]) + f32(*b["p"][:, :3].ravel()) + f32(*b["p"][:, 3:].ravel()) + i32(*b["id"]))


def fort82(s):
    L = ["## BINARIES %d %f" % (len(s["comp"]), s["t"])]
    for c in s["comp"]:
        L.append("%d %d %d %d %d %g %g %g %g %g %g %g %g %g %g %g %g" % (c["id1"], c["id2"], c["kw1"], c["kw2"], c["kwb"], c["ri"], c["ecc"], c["logpb"], c["logsemi"], c["m1"], c["m2"], c["l1"], c["l2"], c["r1"], c["r2"], c["t1"], c["t2"]))
    return "\n".join(L + ["##"]) + "\n"


def fort83(s):
    L = ["## SINGLES %d %f" % (s["n"], s["t"])]
    for j in range(s["n"]):
        L.append("%d %d 0.5 %g %g %g 3.7" % (s["id"][j], s["kw"][j], s["m"][j], s["logl"][j], s["logr"][j]))
    return "\n".join(L + ["##"]) + "\n"


# ------------------------------------------------------------------ NBODY6++
def conf3(s):
    """all particles, the 2 nb components of binaries first"""
    n = s["n"]
    rho = np.arange(n) * .5 + 1; xn = np.arange(n) * .25 + 2
    return rec(i32(n, 1, 1, NK)) + rec(f32(*s["alist"]) + f32(*s["m"]) + f32(*rho) + f32(*xn) + f32(*s["p"][:, :3].ravel()) + f32(*s["p"][:, 3:].ravel()) + f32(*s["pot"]) + i32(*s["id"]))


def bev82(s):
    L = ["%d %f" % (len(s["comp"]), s["t"])]
    for b, c in enumerate(s["comp"]):
        L.append("%f %d %d %d %d %d %d %d %g %g %g %g %g %g %g %g %g %g %g %g" % (s["t"], 2 * b + 1, 2 * b + 2, c["id1"], c["id2"], c["kw1"], c["kw2"], c["kwb"], c["ri"], c["ecc"], c["logpb"], c["logsemi"], c["m1"], c["m2"], c["l1"], c["l2"], c["r1"], c["r2"], c["t1"], c["t2"]))
    return "\n".join(L) + "\n"


def sev83(s, order=None):
    j0 = 2 * s["nb"]
    js = range(j0, s["n"]) if order is None else order
    L = ["%d %f" % (s["n"] - j0, s["t"])]
    for j in js:
        L.append("%f %d %d %d 0.5 %g %g %g 3.7" % (s["t"], j + 1, s["id"][j], s["kw"][j], s["m"][j], s["logl"][j], s["logr"][j]))
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ ASCII snapshots
def ascii_rows(s, cols, sep=" "):
    d = dict(m=s["m"], x=s["p"][:, 0], y=s["p"][:, 1], z=s["p"][:, 2], vx=s["p"][:, 3], vy=s["p"][:, 4], vz=s["p"][:, 5], id=s["id"], kw=s["kw"])
    return "".join(sep.join("%.10g" % d[c][j] if c in d else "9e9" for c in cols) + "\n" for j in range(s["n"]))


NEMO_HEAD = ["#", '# "s2a in=- out=-"', "#", "# run  at  Tue", "#      by  user", "#      on  host", "#      pid  1", "#", "# time: %.10g", "# Ntot: %d, Nsink: 0", "#", "# 'mass ' 'pos ' 'vel '", "#"]


def nemo(s, eps=None):
    h = "\n".join(NEMO_HEAD) % (s["t"], s["n"]) + "\n"
    rows = []
    for j in range(s["n"]):
        r = [s["m"][j]] + list(s["p"][j])
        e = .1 * (j + 1) + s["k"]
        if eps == "all": r += [-3. * e, 2. * e, 7. * e, e, j % 3]
        elif eps: r.append(e)
        rows.append(" ".join("%.10g" % v for v in r) + "\n")
    return h + "".join(rows)


def orbit_row(k):
    return [.5 + 1.25 * k, 5. + .5 * k, -3. + .25 * k, 1. - .125 * k, -50. + k, 180. + 2 * k, 20. - 3 * k]


def orbit_file(n): return "".join(" ".join("%.10g" % v for v in orbit_row(k)) + "\n" for k in range(n))


def write(path, data):
    d = os.path.dirname(path)
    if d: os.makedirs(d, exist_ok=True)
    with open(path, "wb" if isinstance(data, bytes) else "w") as f: f.write(data)


# ------------------------------------------------------------------ NBODY6++ in HDF5
def h5part(path, snaps, fac):
    """one file with a group per snapshot; the first 2 nb particles are components of binaries. fac: (length pc, velocity km/s, mass Msun) of an N-body unit"""
    import h5py
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as f:
        for i, s in enumerate(snaps):
            g = f.create_group("Step#%d" % i); b = 2 * s["nb"]; p, m = s["p"] * np.array([fac[0]] * 3 + [fac[1]] * 3), s["m"] * fac[2]
            g.attrs["N_SINGLE"] = s["n"] - b; g.attrs["Time"] = s["t"]
            for j in range(3): g["X%d" % (j + 1)] = p[b:, j]; g["V%d" % (j + 1)] = p[b:, 3 + j]
            g["M"] = m[b:]; g["NAM"] = np.asarray(s["id"])[b:]; g["KW"] = s["kw"][b:]; g["L"] = 10 ** s["logl"][b:]; g["RS"] = 10 ** s["logr"][b:]
            g["RC"] = np.full(s["n"] - b, .1); g["TE"] = np.full(s["n"] - b, 3.7); g["POT"] = s["pot"][b:]
            if not b: continue
            h = g.create_group("Binaries"); C = s["comp"]; q = lambda k: np.array([c[k] for c in C], float); AU = 206264.80624709636
            m1, m2 = m[0:b:2], m[1:b:2]; c = (m1[:, None] * p[0:b:2] + m2[:, None] * p[1:b:2]) / (m1 + m2)[:, None]; r = p[0:b:2] - p[1:b:2]
            for j in range(3):
                h["XC%d" % (j + 1)] = c[:, j]; h["VC%d" % (j + 1)] = c[:, 3 + j]; h["XR%d" % (j + 1)] = r[:, j] * AU; h["VR%d" % (j + 1)] = r[:, 3 + j]
            for k, v in (("A", 10 ** q("logsemi")), ("ECC", q("ecc")), ("G", q("ecc")), ("KW1", q("kw1")), ("KW2", q("kw2")), ("KWC", q("kwb")), ("L1", 10 ** q("l1")), ("L2", 10 ** q("l2")), ("M1", m1), ("M2", m2),
                         ("MC1", m1 * .1), ("MC2", m2 * .1), ("NAM1", np.asarray(s["id"])[0:b:2]), ("NAM2", np.asarray(s["id"])[1:b:2]), ("NAMC", np.asarray(s["id"])[0:b:2] + 5000), ("P", 10 ** q("logpb")),
                         ("POT", s["pot"][0:b:2] + s["pot"][1:b:2]), ("RC1", q("r1")), ("RC2", q("r2")), ("RS1", 10 ** q("r1")), ("RS2", 10 ** q("r2")), ("TE1", q("t1")), ("TE2", q("t2"))): h[k] = v
