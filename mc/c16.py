"""C16  tidal tails: the full product of path options x units x origins; every star is matched to the
nearest point of the physical path, and averaged in every bin of the tail that holds it."""
import itertools
import numpy as np
import clustertools as ct
from galpy.potential import MWPotential2014
from . import common, world, c12
from .world import UNITS, ORIGINS
from .c12 import follow, six, point, conv, plain

NOA = [u for u in UNITS if u != "amuse"]
TF, NO, NT, NR = 16.0, 39, 7, 9
POT = MWPotential2014


def tailworld(**kw):
    w = world.World([(1.0,) + (0.0,) * 6], **kw)
    rows = []
    for i, (t, a, b, c_) in enumerate([(-15.0, 30, -12, 8), (-12.1, -20, 25, 14), (-9.3, 8, 9, -30), (-9.1, -14, 3, 22), (-6.2, 12, -22, -5), (-3.4, 4, 11, 17), (-0.4, 1, 2, -3), (0.3, -3, 4, 2), (2.9, 9, 15, -6),
                                       (5.6, -25, 6, 19), (8.1, 13, -9, 6), (8.4, 40, 10, -11), (11.7, -16, -31, 12), (14.9, 21, 5, -18), (15.8, 90, -70, 60)]):
        q = follow(w, w.gc[:3], w.gc[3:], t, POT)
        rows.append([1.0 + 0.1 * i] + list(1000. * (q[:3] - w.gc[:3]) + [a, b, c_]) + list(q[3:] - w.gc[3:] + [0.1 * b, 0.05 * c_, -0.08 * a]))
    w.stars = np.array(rows); return w


_W, _P = {}, {}
def worlds():
    if not _W:
        _W.update(std=tailworld(zmbar=900., rbar=20.), solar8=tailworld(ro=8.0, vo=220., zo=0.025, solarmotion=(-10.5, 11.0, 8.1), gc=(-2., 9., 3., 150., 60., -40.), zmbar=3.7, rbar=5.))
    return _W


def path(w, X, V, sky):
    te = np.linspace(-TF, TF, NO); key = (tuple(w.gc), tuple(X), tuple(V), sky)
    if key not in _P: _P[key] = np.array([follow(w, X, V, a, POT, sky) if abs(a) > 1e-9 else six(point(w, X, V), None, sky) for a in te]).T
    return te, _P[key]


def stars(w, sky):
    X, V = w.xyz("galaxy")
    return six(point(w, X / 1000., V), None, True) if sky else np.vstack([(X / 1000.).T, V.T])


def match(w, te, P, sky, projected, to_path):
    S = stars(w, sky); k = 2 if (projected or sky) else 3
    d = S[:3, :, None] - P[:3][:, None, :]
    dr = np.sqrt((d[:k] ** 2).sum(0)); i = dr.argmin(1); dp = dr.min(1); n = np.arange(len(i))
    sd = np.sort(dr, axis=1); clear = (sd[:, 1] - sd[:, 0]) > 1e-6 * sd[:, 1]
    seg = np.diff(P[:k]); s = np.insert(np.cumsum(np.sqrt((seg ** 2).sum(0))), 0, 0); s -= s[np.abs(te).argmin()]
    if to_path:
        o = np.hstack([seg, seg[:, -1:]])[:, i]; o = o / np.sqrt((o ** 2).sum(0)); v = d[:k][:, n, i]
        dp = np.sqrt(((v - (o * v).sum(0) * o) ** 2).sum(0))
    return i, s[i], dp, clear


def bins(te, kind, roam):
    """(middle, first and last path index) of every bin"""
    n = len(te)
    if kind == "fix":
        if roam: lo = np.linspace(te[0], te[-1] - 2 * TF / NT, NR); hi = lo + 2 * TF / NT
        else: e = np.linspace(te[0], te[-1], NT + 1); lo, hi = e[:-1], e[1:]
        out = [((a + b) / 2, [k for k in range(n) if a - 1e-9 <= te[k] < b - 1e-9 or (j == len(lo) - 1 and a - 1e-9 <= te[k])]) for j, (a, b) in enumerate(zip(lo, hi))]
    else:
        if roam: f = np.linspace(0, 1 - 1. / NT, NR); a = ((f + 1e-12) * (n - 1)).astype(int); b = ((f + 1. / NT + 1e-12) * (n - 1)).astype(int)
        else: a = (np.arange(NT) * n / NT).astype(int); b = np.append(a[1:], n - 1)
        K = [[k for k in range(n) if x <= k < y or (j == len(a) - 1 and k == y)] for j, (x, y) in enumerate(zip(a, b))]
        out = [(te[k].mean(), k) for k in K]
    return out


def tail(w, o):
    X, V = (w.gc[:3] + w.centre[:3] / 1000., w.gc[3:] + w.centre[3:]) if o["from_centre"] else (w.gc[:3], w.gc[3:])
    te, P = path(w, X, V, o["skypath"])
    i, s, dp, clear = match(w, te, P, o["skypath"], o["projected"], o["to_path"])
    ok = np.ones(len(i), bool) if o["dmax"] is None else dp <= o["dmax"] / 1000.
    S = stars(w, False); T, R = [], []
    for mid, ks in bins(te, o["bintype"], o["roam"]):
        m = np.isin(i, ks) & ok
        if m.any(): T.append(mid); R.append(S[:, m].mean(1))
    R = np.array(R).T
    if o["skypath"]: R = six(point(w, R[:3].T, R[3:].T), None, True)
    return np.array(T), R, clear.all()


OPTS = dict(from_centre=(False, True), skypath=(False, True), to_path=(False, True), do_full=(False, True), projected=(False, True), dmax=(None, 60.0), bintype=("fix", "num"), roam=(False, True))
BASE = {k: v[0] for k, v in OPTS.items()}


def options(full):
    for v in itertools.product(*OPTS.values()):
        o = dict(zip(OPTS, v))
        if o["skypath"] and o["dmax"]: continue                 # the unit of dmax on the sky is not documented
        if full or sum(o[k] != BASE[k] for k in o) <= 2: yield o


def ask(item, part):
    wn, units, origin, o, how = item
    case = dict(item=[wn, units, origin, o, how]); radec = units == "radec"
    if radec: units = "kpckms"              # a cluster on the sky has its paths in kpc and km/s, or on the sky
    w = worlds()[wn]; L, V, M, T = w.factors(units)
    def bad(k, t): part.violation(k, "%s: %s" % (case["item"], t), case)
    kw = dict(no=NO, nt=NT, ntail=NR if o["roam"] else NT, pot=POT, bintype=o["bintype"], from_centre=o["from_centre"], skypath=o["skypath"], to_path=o["to_path"], do_full=o["do_full"], projected=o["projected"])
    if o["dmax"] is not None: kw["dmax"] = o["dmax"] / L
    if how.startswith("dt"): kw["dt"] = TF / T
    else: kw["tfinal"] = TF / T
    part.states += 1; part.transitions += 2; part.traces += 1
    with common.quiet():
        c = w.build(units, "cluster" if radec else origin)
        if radec: c.to_sky()
        if radec and origin != "sky": getattr(c, "to_" + origin)()
        before = rounded(c) if radec else world.canon(c, ("orbit", "orbits"))[0]
    m = how.endswith("m")
    try:
        with common.quiet(): r = c.tail_path(**kw) if m else ct.tail_path(c, **kw)
    except Exception as e: bad("tail_path fails", common.exc_text(e)); return
    te, R, clear = tail(w, o)
    if not clear: return
    what = "tail path" + " on the sky" * o["skypath"]
    g = plain(r[0:1])[0] if len(r) == 7 else None
    if g is None or g.shape != te.shape or not common.close(g, te / T, 1e-6, scale=TF / T): bad(what + " times", "%s instead of %s" % (g, te / T)); return
    G = plain(r[1:])
    if not c12.same(G, conv(w, R, units, o["skypath"]), 2e-6): bad(what, "%s instead of %s" % (G, conv(w, R, units, o["skypath"]))); return
    if m and not all(np.array_equal(plain([getattr(c, n, [])])[0], x) for n, x in zip(("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), [g] + list(G))): bad("stored tail path", "")
    part.outcome(what, len(te), np.round(G[0], 6).tobytes())
    if o["do_full"] and len(te) < 2 or len(te) < 2: return
    # stars matched to the tail, the path found anew or handed back
    if len([k for k in o if o[k] != BASE[k]]) > (8 if part_full else 2): return
    plainpath = dict(o, projected=False, to_path=False); te2, R2, c2 = tail(w, plainpath)
    i, s, dp, clear = match(w, te2, R2, o["skypath"], o["projected"], o["to_path"])
    if not (clear.all() and c2): return
    for given in (False, True):
        with common.quiet(): p = ct.tail_path(c, **{k: v for k, v in kw.items() if k not in ("projected", "to_path", "do_full")}) if given else None
        try:
            with common.quiet(): ts, dg, dq = c.tail_path_match(path=p, **kw) if m else ct.tail_path_match(c, path=p, **kw)
        except Exception as e: bad("tail_path_match fails", "path given=%s: %s" % (given, common.exc_text(e))); return
        l = 1.0 if o["skypath"] else L / 1000.; raw = (ts, dg, dq)
        if radec and not o["skypath"]:          # lengths are degrees at the distance of the cluster on the sky
            D = six(point(w, w.gc[:3], w.gc[3:]), None, True)[2]; dg, dq = (D * np.tan(np.radians(np.asarray(v, float))) for v in (dg, dq))
        w_ = "tail match" + " on the sky" * o["skypath"]
        if not common.close(plain([ts])[0], te2[i] / T, 1e-6, scale=TF / T): bad(w_ + " times", "given=%s: %s instead of %s" % (given, ts, te2[i] / T)); return
        near = np.abs(te2) - np.abs(te2).min() < 1e-6                 # bins equally far on either side of the cluster
        zero = {float(np.round(s[i == k][0], 9)) for k in np.flatnonzero(near) if (i == k).any()} | {0.0}
        if not any(common.close(plain([dg])[0], (s - z) / l, 2e-6, scale=max(np.abs(s).max(), 10.) / l) for z in zero): bad(w_ + " distance along", "given=%s: %s instead of %s" % (given, dg, s / l)); return
        if not common.close(np.abs(plain([dq])[0]), dp / l, 2e-6, scale=max(dp.max(), 10.) / l): bad(w_ + " distance", "given=%s: %s instead of %s" % (given, dq, dp / l)); return
        if m and not all(np.array_equal(plain([getattr(c, n, [])])[0], plain([x])[0]) for n, x in zip(("tstar", "dprog", "dpath"), raw)): bad("stored tail match", "")
    if radec:
        after = rounded(c); diff = ", ".join(k for k in before if not common.close(after[k], before[k], rel=1e-6, scale=max(1e-6, np.abs(before[k]).max()))) + ("" if (c.units, c.origin) == ("radec", origin) else " units, origin")
    else:
        after = world.canon(c, ("orbit", "orbits"))[0]; diff = changed(before, after)
    if diff: bad("cluster changed by tail calls", diff)


def rounded(c):
    return {a: np.array(getattr(c, a), float) for a in ("x", "y", "z", "vx", "vy", "vz", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc", "vzc", "m")}


part_full = False
STORED = ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath", "tstar", "dprog", "dpath", "units0", "origin0", "rorder0", "rorder_origin0")


def changed(a, b):
    try: a, b = dict(a), dict(b)
    except Exception: return "" if a == b else ""
    return ", ".join(sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k) and k not in STORED and not k.startswith("_")))


def frame(item, part):
    """to_tail turns positions and velocities, about the cluster's centre, so that the orbit's velocity is along x"""
    wn, units, origin, gi, how = item
    w = worlds()[wn].copy(); case = dict(frame=list(item))
    w.gc[3:] = VELS[gi]; w.stars = np.array([(1.0, 30, -8, 4, 1, -2, .5), (1.0, -55, 21, -10, -1.4, .8, .3), (1.0, 11, 62, 7, .6, 1.9, -1.1), (1.0, -4, -90, -33, .2, -.6, 1.7)], float)
    L, V, M, T = w.factors("pckms" if units == "amuse" else units)
    part.states += 1; part.transitions += 1; part.traces += 1
    with common.quiet(): c = w.build(units, origin); before = world.canon(c, ("orbit", "orbits"))[0]
    o = "centre" if origin == "galaxy" else origin
    try:
        with common.quiet():
            if how == "m":
                c.to_tail(); r = [c.x_tail, c.y_tail, c.z_tail, c.vx_tail, c.vy_tail, c.vz_tail]
                rt, vt = c.r_tail, c.v_tail
            else: r = ct.to_tail(c)
        G = plain(r); unit = (1.0, 1.0) if units == "amuse" else (L, V)
        X, W = w.xyz(o); P, Q = G[:3].T * unit[0], G[3:].T * unit[1]
    except Exception as e: part.violation("to_tail fails", "%s: %s" % (case, common.exc_text(e)), case); return
    def bad(k, t): part.violation(k, "%s: %s" % (case, t), case)
    Mx = np.linalg.lstsq(X, P, rcond=None)[0].T; Mv = np.linalg.lstsq(W, Q, rcond=None)[0].T
    if not common.close(X @ Mx.T, P, 1e-6, scale=100.) or not common.close(W @ Mv.T, Q, 1e-6, scale=3.): bad("tail frame is not about the cluster", "%s" % (X @ Mx.T - P)); return
    if not common.close(Mx, Mv, 1e-6, scale=1.0): bad("positions and velocities are turned differently", "%s %s" % (Mx, Mv)); return
    if not common.close(Mx @ Mx.T, np.eye(3), 1e-6, scale=1.0) : bad("tail frame is not a rotation", str(Mx)); return
    if np.linalg.det(Mx) < 0: bad("to_tail mirrors the cluster (velocity exactly along -x)" if common.close(Mx, -np.eye(3), 1e-6, scale=1.0) and gi == 1 else "tail frame is mirrored", str(Mx)); return
    n = w.gc[3:] / np.linalg.norm(w.gc[3:])
    if not common.close(Mx @ n, np.array([1., 0, 0]), 1e-6, scale=1.0):
        if common.close(Mx.T @ n, np.array([1., 0, 0]), 1e-6, scale=1.0): bad("to_tail applies the inverse rotation", "velocity along %s" % (Mx @ n))
        else: bad("velocity is not along x in the tail frame", "%s" % (Mx @ n))
    if how == "m" and (not common.close(plain([rt])[0], np.sqrt((G[:3] ** 2).sum(0)), 1e-9) or not common.close(plain([vt])[0], np.sqrt((G[3:] ** 2).sum(0)), 1e-9)): bad("stored tail radii", "%s %s" % (rt, vt))
    part.outcome("frame", gi)


VELS = [(200., 0, 0), (-200., 0, 0), (0, 190., 0), (0, -190., 0), (0, 0, 150.), (120., 120., 0), (-50., 180., 20.), (30., -60., 90.), (-120., -20., -70.)]


def replay(case):
    p = common.Part()
    if "frame" in case: frame(tuple(case["frame"]), p)
    else:
        global part_full
        part_full = True; ask(tuple(case["item"]), p)
    return p.violations


def run(ctx):
    global part_full
    part_full = ctx.thorough
    worlds(); items = []
    for wn in worlds():
        for u in NOA:
            for g in ORIGINS:
                main = (u, g) in (("pckms", "cluster"), ("kpckms", "galaxy"), ("nbody", "centre"))
                for k, o in enumerate(options(ctx.thorough)):
                    n = sum(o[a] != BASE[a] for a in o)
                    if ctx.thorough:
                        if not main and n > 3: continue
                    elif n > (2 if main and wn == "solar8" else 1): continue
                    for how in ("m", "f", "dtf", "dtm") if n == 0 else (("m", "f")[k % 2],): items.append((wn, u, g, o, how))
        for g in ("sky", "cluster", "centre"):
            for k, o in enumerate(options(ctx.thorough)):
                n = sum(o[a] != BASE[a] for a in o)
                if o["dmax"] or n > (3 if ctx.thorough else 2 if g == "sky" and wn == "solar8" else 1): continue
                for how in ("m", "f") if n == 0 else (("m", "f")[k % 2],): items.append((wn, "radec", g, o, how))
    ctx.pmap(ask, items, chunk=4)
    ctx.pmap(frame, [(wn, u, g, i, how) for wn in (worlds() if ctx.thorough else ("std",)) for u in UNITS for g in ORIGINS for i in range(len(VELS)) for how in ("m", "f")], chunk=20)
    ctx.bounds = dict(worlds=list(worlds()), units=NOA + ["radec"], origins=ORIGINS + ["sky"], options=OPTS, frames="%d directions of the orbit" % len(VELS))
    ctx.assumptions = ["galpy integrates orbits correctly", "dmax on the sky, and AMUSE paths, are not claimed"]
    ctx.explanation = "product of options, units and origins enumerated on the real functions against an independently integrated path"
