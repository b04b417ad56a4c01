"""C07  building a cluster from any sequence of batches (single stars, binaries,
stellar evolution data; arrays, scalars, with and without masses/ids/populations)
keeps every per-star array aligned and complete."""
import numpy as np
from . import common, explore
from clustertools import StarCluster, sub_cluster

FIELDS = ("x", "y", "z", "vx", "vy", "vz")


def draw(k, n):
    """n generic 6-vectors and masses, a function of the call number k only"""
    i = np.arange(1, n + 1)[:, None] + 17 * k
    p = 3 * (((i * np.array([[.61803, .75488, .56984, .41421, .81917, .67104]])) % 1.0) - .5)
    return p, 0.3 + ((i[:, 0] * .32472) % 1.0)


class M:
    """reference: records in storage order; binaries (pairs of components) in storage order"""
    def __init__(self):
        self.s = []             # dict(p, m, id or None, m0, npop)
        self.b = []             # dict(p1, p2, m1, m2)
        self.k = 0              # calls made
        self.bse, self.last = [], {}    # binary evolution rows; attributes set by the last whole-cluster calls
        self.sse = None         # list of (kw, logl, logr)

    def maxid(self):
        return max([r["id"] for r in self.s if r["id"] is not None] + [-1])


OPS = ["array", "nomass", "scalar", "mixed", "full", "nb1", "nb1full", "nb2", "nb2full", "nb2nomass", "bin", "bin1full", "bin1float", "bin2nomass", "sse", "sseall", "ssearg", "bse", "bseall", "energies", "actions", "nbody6", "orbit"]
BSE = ("id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2", "ep1", "ep2", "ospin1", "ospin2")
NB6 = ("nc", "rc", "rbar", "rtide", "zmbar", "vbar", "tbar", "rscale")


def apply_(op, c, m):
    k = m.k; m.k += 1
    if op.startswith("bse"):
        if m.b or any(len(r) != (18 if op == "bseall" else 14) for r in m.bse): return c, m
        n = 1 + k % 2; w = 14 if op == "bse" else 18
        a = 0.2 + ((np.arange(1, n * w + 1) * .38197 + .1 * k) % 1.0).reshape(n, w); a[:, 0] = 2 * np.arange(n) + 10 * k; a[:, 1] = a[:, 0] + 1
        c.add_bse(*a.T.copy()); m.bse += a.tolist()
        return c, m
    if op == "energies":
        n = len(m.s); kin, pot = 1. + np.arange(n) * .3 + k, -2. - np.arange(n) * .7
        if k % 2: c.add_energies(kin.copy(), pot.copy()); e = kin + pot
        else: e = kin + pot + .5; c.add_energies(kin.tolist(), pot.tolist(), e.tolist())
        m.last.update(kin=kin, pot=pot, etot=e, ektot=kin.sum(), ptot=pot.sum() / 2)
        if n: m.last.update(qvir=2 * kin.sum() / pot.sum())
        return c, m
    if op == "actions":
        n = len(m.s); names = ("JR", "Jphi", "Jz", "OR", "Ophi", "Oz", "TR", "Tphi", "Tz"); a = [np.arange(n) * (i + 1.) + k for i in range(9)]
        (c.add_actions if k % 2 else c.add_action)(*a); m.last.update(zip([x + "s" if k % 2 else x for x in names], a))
        return c, m
    if op == "nbody6":
        a = [k + 1., .5 + k, 2. + k, 30. + k, .1, .2, .3, 7. + k, .4 + k, 3. + k, 5. + k]
        nb = len(m.b) + len(m.bse); c.add_nbody6(*a, ns=len(m.s) - nb, nb=nb); m.last.update(zip(("nc", "rc", "rbar", "rtide", "xcn", "ycn", "zcn", "zmbar", "vbar", "tbar", "rscale"), a))
        au = 648000. / np.pi; d = 365.25 * (a[2] * au) ** 1.5 / np.sqrt(a[7])
        m.last.update(rbar_au=a[2] * au, rbar_su=a[2] * au * 1.495978707e8 / 6.957e5, tbar_days=d)
        return c, m
    if op == "orbit":
        a = [1. + k, 2., -3. + k, 4., 5. - k, 6.]; c.add_orbit(*a); m.last.update(zip(("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"), a))
        return c, m
    if m.bse and not (op in ("sse", "ssearg", "sseall", "array", "nomass", "scalar", "mixed", "full")): return c, m
    if op in ("sse", "ssearg", "sseall"):
        have = 0 if m.sse is None else len(m.sse)
        n = len(m.s) - have
        if n <= 0 or (have and m.b_since_sse): return c, m
        rows = [(float((j * 3 + k) % 5), -1.0 + 0.37 * ((j + k) % 7), 0.11 * ((j + 2 * k) % 5)) for j in range(n)]
        a = np.array(rows)
        if op == "sse": c.add_sse(a[:, 0], a[:, 1], a[:, 2])
        elif op == "sseall": c.add_sse(a[:, 0], a[:, 1], a[:, 2], ep=a[:, 0] + 1, ospin=a[:, 1] + 2)
        else:
            o = np.argsort(np.arange(n) % 3, kind="stable")[::-1]
            c.add_sse(a[o, 0], a[o, 1], a[o, 2], a[o, 0] + 1, a[o, 1] + 2, arg=o)
        rows = [r + ((0., 0.) if op == "sse" else (r[0] + 1, r[1] + 2)) for r in rows]
        m.sse = (m.sse or []) + rows
        m.b_since_sse = False
        return c, m
    if op == "array":
        p, w = draw(k, 2); c.add_stars(*p.T.copy(), w.copy())
        m.s += [dict(p=p[i], m=w[i], id=None, m0=0., npop=1) for i in range(2)]
    elif op == "nomass":
        p, w = draw(k, 2); c.add_stars(*p.T.copy())
        m.s += [dict(p=p[i], m=1., id=None, m0=0., npop=1) for i in range(2)]
    elif op == "scalar":
        p, w = draw(k, 1); c.add_stars(*[float(v) for v in p[0]], float(w[0]))
        m.s += [dict(p=p[0], m=w[0], id=None, m0=0., npop=1)]
    elif op == "mixed":
        p, w = draw(k, 3); p[:, 1] = p[0, 1]; p[:, 5] = p[0, 5]; w[:] = w[0]
        c.add_stars(p[:, 0].copy(), float(p[0, 1]), p[:, 2].copy(), p[:, 3].copy(), p[:, 4].copy(), float(p[0, 5]), float(w[0]))
        m.s += [dict(p=p[i], m=w[0], id=None, m0=0., npop=1) for i in range(3)]
    elif op == "full":
        p, w = draw(k, 2); i0 = 1000 * (k + 1)
        c.add_stars(*p.T.copy(), w.copy(), id=np.array([i0 + 5, i0 + 2]), m0=w + .5, npop=np.array([2, 3]), sortstars=True)
        m.s += [dict(p=p[i], m=w[i], id=i0 + (5, 2)[i], m0=w[i] + .5, npop=(2, 3)[i]) for i in range(2)]
    elif op.startswith("nb"):
        nb = int(op[2]); n = 2 * nb + (2 if op == "nb2full" else 1); p, w = draw(k, n)
        kw = dict(nb=nb); i0 = 1000 * (k + 1)
        if op.endswith("full"): kw.update(id=i0 + np.arange(n) * 2, m0=w + .5, npop=1 + np.arange(n) // 2)
        if op.endswith("nomass"): w = np.ones(n); c.add_stars(*p.T.copy(), **kw)
        else: c.add_stars(*p.T.copy(), w.copy(), **kw)
        full = op.endswith("full")
        bs, rec = [], []
        for i in range(nb):
            a, b = 2 * i, 2 * i + 1; mm = w[a] + w[b]
            bs.append(dict(p1=p[a], p2=p[b], m1=w[a], m2=w[b]))
            rec.append(dict(p=(w[a] * p[a] + w[b] * p[b]) / mm, m=mm, id=i0 + 2 * a if full else None, m0=w[a] + w[b] + 1 if full else 0., npop=1 + a // 2 if full else 1))
        m.s = rec + m.s + [dict(p=p[i], m=w[i], id=i0 + 2 * i if full else None, m0=w[i] + .5 if full else 0., npop=1 + i // 2 if full else 1) for i in range(2 * nb, n)]
        m.b = bs + m.b; m.b_since_sse = True
    else:                                               # add_binary_stars directly
        nb = 1 if op.startswith("bin1") else 2; p, w = draw(k, 2 * nb); i0 = 1000 * (k + 1)
        p1, p2, w1, w2 = p[:nb], p[nb:], w[:nb], w[nb:]
        kw = {}
        if op == "bin1full": kw = dict(mb1=w1.copy(), mb2=w2.copy(), id1=i0 + 2 * np.arange(nb), id2=i0 + 2 * np.arange(nb) + 1, m01=w1 + .5, m02=w2 + .5, npop1=np.full(nb, 2), npop2=np.full(nb, 1))
        elif op == "bin1float": kw = dict(mb1=float(w1[0]), mb2=float(w2[0]))
        elif op == "bin": kw = dict(mb1=w1.copy(), mb2=w2.copy())
        else: w1, w2 = np.ones(nb), np.ones(nb)
        if op == "bin1float": c.add_binary_stars(*map(float, p1[0]), *map(float, p2[0]), **kw)
        else: c.add_binary_stars(*p1.T.copy(), *p2.T.copy(), **kw)
        bs = [dict(p1=p1[i], p2=p2[i], m1=w1[i], m2=w2[i]) for i in range(nb)]
        m.b = bs + m.b; f = op == "bin1full"
        m.s = [dict(p=(w1[i] * p1[i] + w2[i] * p2[i]) / (w1[i] + w2[i]), m=w1[i] + w2[i], id=i0 + 2 * i if f else None, m0=w1[i] + w2[i] + 1 if f else 0., npop=2 if f else 1) for i in range(nb)] + m.s
        m.b_since_sse = True
    return c, m


def check(c, m):
    n, bad = len(m.s), []
    def arr(name, want, rel=1e-9):
        v = getattr(c, name)
        if len(np.atleast_1d(v)) != len(want): bad.append((name + " length", "%s has %d entries for %d" % (name, len(np.atleast_1d(v)), len(want))))
        elif len(want) and not common.close(np.asarray(v, float), np.asarray(want, float), rel=rel, scale=max(1e-30, np.max(np.abs(want)))): bad.append((name + " values", "%s = %s want %s" % (name, np.asarray(v)[:6], np.asarray(want)[:6])))
    for i, f in enumerate(FIELDS): arr(f, [r["p"][i] for r in m.s])
    arr("m", [r["m"] for r in m.s]); arr("m0", [r["m0"] for r in m.s]); arr("npop", [r["npop"] for r in m.s])
    ids = np.asarray(c.id)
    if len(ids) != n: bad.append(("id length", "%d ids for %d stars" % (len(ids), n)))
    else:
        if len(set(ids.tolist())) != n: bad.append(("ids not unique", str(ids)))
        if any(float(v) != int(v) for v in ids): bad.append(("ids not integers", str(ids)))
        if any(r["id"] is not None and r["id"] != i for r, i in zip(m.s, ids)): bad.append(("id values", str(ids)))
    for i, f in enumerate(BSE):
        if m.bse and i < len(m.bse[0]): arr(f, [r[i] for r in m.bse])
    if m.bse: arr("eb", [.5 * r[8] * r[9] / r[7] for r in m.bse])
    for k, v in m.last.items():
        if np.shape(getattr(c, k)) != np.shape(v) or not common.close(np.asarray(getattr(c, k), float), np.asarray(v, float), rel=1e-6): bad.append((k, "%s = %s want %s" % (k, getattr(c, k), v)))
    nb = len(m.b) + len(m.bse)
    for k, v in (("ntot", n), ("nb", nb), ("ns", n - len(m.b))):
        if k == "ns" and m.bse: continue
        if getattr(c, k) != v: bad.append((k, "%s = %s want %d" % (k, getattr(c, k), v)))
    if m.b:
        for i, f in enumerate(FIELDS):
            arr(f + "b1", [b["p1"][i] for b in m.b]); arr(f + "b2", [b["p2"][i] for b in m.b])
        arr("mb1", [b["m1"] for b in m.b]); arr("mb2", [b["m2"] for b in m.b])
    if m.sse is not None:
        for i, f in enumerate(("kw", "logl", "logr", "ep", "ospin")): arr(f, [r[i] for r in m.sse])
        arr("lum", [10 ** r[1] for r in m.sse])
        if not common.close(c.ltot, sum(10 ** r[1] for r in m.sse), rel=1e-9): bad.append(("ltot", str(c.ltot)))
    if n and not bad:
        P = np.array([r["p"] for r in m.s], float); w = np.array([r["m"] for r in m.s], float)
        arr("r", np.sqrt((P[:, :3] ** 2).sum(1))); arr("v", np.sqrt((P[:, 3:] ** 2).sum(1)))
        arr("rpro", np.hypot(P[:, 0], P[:, 1])); arr("vpro", np.hypot(P[:, 3], P[:, 4]))
        if not common.close(c.mtot, w.sum(), rel=1e-9): bad.append(("mtot", "%s want %s" % (c.mtot, w.sum())))
        if any(len(np.atleast_1d(getattr(c, a))) not in (0, n) for a in ("kw", "logl", "logr", "etot")): return bad     # evolution data or energies still to come for the new stars
        # a selection made straight after the addition knows every star, and its binary data
        cut = float(np.sort(np.asarray(c.m))[n // 2]); want = np.asarray(c.m) >= cut
        with common.quiet():
            got = np.asarray(c.subset(mmin=cut))
            if got.shape != (n,) or not np.array_equal(got.astype(bool), want): bad.append(("subset", "%s want %s" % (got, want)))
            s = sub_cluster(c, mmin=cut)
        if not np.array_equal(s.id, np.asarray(c.id)[want]): bad.append(("sub_cluster ids", "%s want %s" % (s.id, np.asarray(c.id)[want])))
        if not np.array_equal(s.x, np.asarray(c.x)[want]): bad.append(("sub_cluster x", ""))
        if m.bse:
            k = len(m.bse); ids = set(np.asarray(c.id)[want].tolist())
            rows = [i for i in range(k) if m.bse[i][0] in ids or m.bse[i][1] in ids]
            for j, f in enumerate(BSE):
                if j < len(m.bse[0]):
                    v = np.asarray(getattr(s, f), float)
                    if v.shape != (len(rows),) or not common.close(v, np.array([m.bse[i][j] for i in rows], float), rel=1e-9): bad.append(("sub_cluster binary " + f, "%s want %s" % (v, [m.bse[i][j] for i in rows])))
    return bad


def start(units):
    m = M(); m.b_since_sse = False
    c = StarCluster(units=units[0], origin=units[1])
    return c, m


def run_hist(u, h):
    c, m = start(u)
    for op in h:
        with common.quiet(): c, m = apply_(op, c, m)
    return c, m


def one(item, part):
    u, first, depth = item
    import copy
    def rec(c, m, h):
        part.transitions += 1; part.traces += 1
        case = dict(u=u, h=h)
        before = len(m.s)
        try:
            with common.quiet(), common.limit(60): c, m = apply_(h[-1], c, m)
        except Exception as e:
            part.violation("%s raised" % h[-1], "%s: %s" % (h, common.exc_text(e)), case); return
        bad = check(c, m)
        for k, msg in bad: part.violation("%s after %s" % (k, h[-1]), "%s: %s" % (h, msg), case)
        part.states += 1; part.outcome(len(m.s), len(m.b), h[-1], m.sse is not None)
        part.sample(h)
        if bad or len(h) >= depth: return
        for op in OPS: rec(copy.deepcopy(c), copy.deepcopy(m), h + [op])
    c, m = start(u)
    rec(c, m, list(first[:1])) if len(first) == 1 else None


def replay(case):
    out = []
    try:
        c, m = run_hist(case["u"], case["h"]); out = check(c, m)
    except Exception as e: out = [("raised", common.exc_text(e))]
    return [common.V(k, t, case) for k, t in out]


def run(ctx):
    d = 4 if ctx.thorough else 3
    us = [("pckms", "cluster")] + ([("kpckms", "galaxy"), ("nbody", "centre")] if ctx.thorough else [("kpckms", "galaxy")])
    ctx.pmap(one, [(u, (op,), d) for u in us for op in OPS])
    ctx.bounds = dict(depth=d, alphabet=OPS, batch_sizes="1-6 stars")
    ctx.explanation = "every sequence of additions up to the depth; after each addition every per-star array is compared with the reference records"
