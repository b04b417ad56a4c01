"""C15  binning: every data set of up to n values over a small alphabet (ties, round-off edges) x every
binning helper x every number of bins; each value is counted once, in the bin holding it."""
import itertools
import numpy as np
import clustertools as ct
from scipy.optimize import curve_fit
from clustertools.util import recipes as R
from . import common

ALPHA = [0.1, 0.3, 3.0, 7.0, 11.0]           # 10**log10(v) is above or below v for several of them
TOL = 1e-9


def eq(a, b): return np.shape(a) == np.shape(b) and common.close(np.asarray(a, float), np.asarray(b, float), TOL)


def member(x, lo, hi, j, last):
    return (x >= lo[j]) & ((x <= hi[j]) if last else (x < hi[j]))


def disjoint(x, r, nsum, width, bad, name, linear):
    """contiguous bins over the whole range, each value in exactly one"""
    lo, mid, hi, h = r[:4]; n = len(lo)
    if not (len(mid) == len(hi) == len(h) == n and n): bad("lengths", "%s: %s" % (name, [len(a) for a in r])); return None
    if lo[0] != x.min() or hi[-1] != x.max() or np.any(lo[1:] != hi[:-1]): bad("bins do not cover the values", "%s: %s..%s for %s" % (name, lo, hi, x)); return None
    M = np.array([member(x, lo, hi, j, j == n - 1) for j in range(n)])
    if np.ptp(x) > 0 and np.any(M.sum(0) != 1): bad("value in %d bins" % M.sum(0).max(), "%s %s %s" % (name, lo, hi))
    if not np.array_equal(M.sum(1), h) or h.sum() != len(x): bad("counts", "%s: %s, not %s (%s in %s..%s)" % (name, h, M.sum(1), x, lo, hi)); return None
    if nsum and not eq(r[4], M @ x): bad("sums", "%s: %s not %s" % (name, r[4], M @ x))
    return M


def idx(x, lo, hi):
    n = len(lo); g = np.full(len(x), -1)
    for j in range(n): g[member(x, lo, hi, j, j == n - 1)] = j
    return g


def dataset(item, part):
    vals, nmax = item
    x0 = np.array(vals, float); same = np.ptp(x0) == 0; n = len(x0)
    y = np.arange(1, n + 1) ** 1.5

    def bad(k, t): part.violation(k, "%s: %s" % (list(vals), t), dict(x=list(vals), nmax=nmax))

    def call(name, f, *a, **k):
        part.transitions += 1
        x = x0.copy()
        try:
            with common.quiet(): r = f(x, *a, **k)
        except Exception as e: bad("%s fails" % name.split()[0], "%s %s %s: %s" % (name, a[1:] if len(a) and isinstance(a[0], np.ndarray) else a, k, common.exc_text(e))); return None
        if not np.array_equal(x, x0): bad("%s changes its argument" % name.split()[0], str(x))
        return r
    for nb in range(1, nmax + 1):
        part.states += 1
        for ns in (False, True):
            if not same:
                r = call("nbinmaker", R.nbinmaker, nb, nsum=ns)
                if r is not None:
                    if len(r) != 4 + ns: bad("nbinmaker results", str(len(r)))
                    M = disjoint(x0, r, ns, None, bad, "nbinmaker %d" % nb, False)
                    if M is not None:
                        if not eq(r[1], (M @ x0) / M.sum(1)): bad("nbinmaker mean", "%s" % r[1])
                        if len(set(vals)) == n and n >= nb and (len(r[0]) not in (nb, nb - 1) or r[3].max() - min(r[3][:-1] if len(r[3]) > 1 else r[3]) > 2):
                            bad("nbinmaker counts are not equal", "%d bins: %s" % (nb, r[3]))
                        if not ns: part.outcome("n", nb, tuple(r[3]))
            for st in ("linear", "log"):
                r = call("binmaker " + st, R.binmaker, nb, nsum=ns, steptype=st)
                if r is None: continue
                if len(r) != 4 + ns: bad("binmaker results", str(len(r)))
                M = disjoint(x0, r, ns, None, bad, "binmaker %s %d" % (st, nb), st == "linear")
                if M is None: continue
                w = np.diff(np.append(r[0], r[2][-1])) if st == "linear" else np.diff(np.log(np.append(r[0], r[2][-1])))
                if len(r[0]) != nb or np.ptp(w) > 1e-9 * max(1, np.abs(w).max()): bad("binmaker widths", "%s %d: %s" % (st, nb, w))
                if np.any(r[1] < r[0] - TOL) or np.any(r[1] > r[2] + TOL) or (st == "linear" and not eq(r[1], (r[0] + r[2]) / 2)): bad("binmaker middles", "%s" % r[1])
                part.outcome("f", st, nb, tuple(r[3]))
            for nt in (1, 2, 3, nb, 2 * nb + 1):
                for st in (None, "linear", "log"):
                    if st != "linear" and same: continue
                    if st is None: r = call("roaming_nbinmaker", R.roaming_nbinmaker, nb, nt, nsum=ns)
                    else: r = call("roaming_binmaker " + st, R.roaming_binmaker, nb, nt, nsum=ns, steptype=st)
                    if r is None: continue
                    name = "%s bins=%d total=%d" % ("roaming_nbinmaker" if st is None else "roaming_binmaker " + st, nb, nt)
                    lo, mid, hi, h = r[:4]
                    if len(r) != 4 + ns or not (len(lo) == len(mid) == len(hi) == len(h)): bad("roaming lengths", name); continue
                    if st is not None and len(lo) != nt: bad("roaming number of bins", "%s: %d" % (name, len(lo)))
                    if np.any(np.diff(lo) < -1e-12) or np.any(hi < lo) or (len(lo) and (lo[0] < x0.min() or hi[-1] > x0.max() + (nt == 1) * 1e-12)): bad("roaming limits", "%s: %s %s" % (name, lo, hi)); continue
                    if st is not None and nt > 1 and (lo[0] != x0.min() or hi[-1] != x0.max()): bad("roaming limits", "%s: %s %s" % (name, lo, hi))
                    for j in range(len(lo)):
                        a, b = member(x0, lo, hi, j, False), member(x0, lo, hi, j, True)
                        last = j == len(lo) - 1 and hi[j] == x0.max()
                        ok = [b] if last else [a, b] if hi[j] == x0.max() or j == len(lo) - 1 else [a]
                        hit = [m for m in ok if m.sum() == h[j] and (not ns or abs(r[4][j] - x0[m].sum()) < 1e-9)]
                        if not hit: bad("roaming counts", "%s window %s..%s: %s values, not %s (%s)" % (name, lo[j], hi[j], h[j], ok[0].sum(), x0)); break
                        if st is None and h[j] > 0 and abs(mid[j] - x0[hit[0]].mean()) > 1e-9: bad("roaming means", "%s: %s" % (name, mid)); break
                        if st == "linear" and abs(mid[j] - (lo[j] + hi[j]) / 2) > 1e-9: bad("roaming middles", name)
                        if st == "log" and not lo[j] - 1e-12 <= mid[j] <= hi[j] * (1 + 1e-12): bad("roaming middles", name)
                    if st == "log" and nt > 1 and nb > 1 and len(lo) and np.ptp(np.log(hi / lo)) > 1e-9: bad("roaming widths", name)
                    if st == "linear" and nt > 1 and np.ptp(hi - lo) > 1e-9: bad("roaming widths", name)
        # profiles over the bins
        for bt, st in (("num", "linear"), ("fix", "linear"), ("fix", "log")):
            if bt == "num" and same: continue
            if bt == "num": mk = call("nbinmaker", R.nbinmaker, nb)
            else: mk = call("binmaker", R.binmaker, nb, steptype=st)
            if mk is None: continue
            lo, mid, hi, h = mk; g = idx(x0, lo, hi)
            if np.any(g < 0): continue
            for preset in (False, True):
                kw = dict(x_lower=lo.copy(), x_mean=mid.copy(), x_upper=hi.copy()) if preset else {}
                if st == "linear":
                    for bins in (False, True):
                        r = call("x_hist", R.x_hist, nx=nb, bintype=bt, bins=bins, **kw)
                        if r is not None and not (len(r) == (4 if bins else 2) and eq(r[-1], h) and eq(r[1 if bins else 0], mid)): bad("x_hist", "%s %d preset=%s: %s not %s" % (bt, nb, preset, r, h))
                for med in (False, True):
                    r = call("mean_prof", lambda x, **k: R.mean_prof(x, y.copy(), **k), nbin=nb, bintype=bt, steptype=st, median=med, **kw)
                    if r is None: continue
                    J = [j for j in range(len(lo)) if np.any(g == j)]
                    e = [mid[J], np.array([(np.median if med else np.mean)(y[g == j]) for j in J]), np.array([np.std(y[g == j]) for j in J])]
                    if not all(eq(a, b) for a, b in zip(r, e)): bad("mean_prof", "%s %s %d median=%s preset=%s: %s not %s" % (bt, st, nb, med, preset, r, e))
                if st == "linear" and np.sum(h > 0) > 2:
                    r = call("dx_function", R.dx_function, nx=nb, bintype=bt, **kw)
                    if r is not None:
                        J = h > 0; d = h[J] / (hi - lo)[J]; A = np.array([np.log10(mid[J]), np.ones(J.sum())]).T
                        s, res, _, _ = np.linalg.lstsq(A, np.log10(d), rcond=None); rs = np.sum((np.log10(d) - A @ s) ** 2) / (J.sum() - 2); cov = np.linalg.inv(A.T @ A) * rs
                        e = [mid[J], h[J], d, s[0], np.sqrt(cov[0, 0]), s[1], np.sqrt(cov[1, 1])]
                        if not all(np.shape(a) == np.shape(b) and common.close(np.asarray(a, float), np.asarray(b, float), 1e-6, 1e-6) for a, b in zip(r, e)): bad("dx_function", "%s %d preset=%s: %s not %s" % (bt, nb, preset, r, e))
            for v in vals * (not same):
                part.transitions += 1
                with common.quiet(): i = int(np.ravel(R.bin_index(np.array([v]), lo, hi))[0])
                if i != g[list(vals).index(v)]: bad("bin_index", "%s in %s..%s: bin %d" % (v, lo, hi, i))
    if not same:
        for dx in (0.9, 2.7, 4.0):
            nb = int(np.ptp(x0) / dx)
            if nb < 1: continue
            for bt in ("num", "fix"):
                for med in (False, True):
                    r = call("smooth", lambda x, **k: R.smooth(x, y.copy(), dx, **k), bintype=bt, median=med)
                    if r is None: continue
                    with common.quiet(): lo, mid, hi, h = R.nbinmaker(x0, nb) if bt == "num" else R.binmaker(x0, nb)
                    g = idx(x0, lo, hi); J = [j for j in range(len(lo)) if np.any(g == j)]
                    F = [(np.median if med else np.mean), np.std, np.min, np.max]
                    e = [mid[J]] + [np.array([f(y[g == j]) for j in J]) for f in F]
                    if not all(eq(a, b) for a, b in zip(r, e)): bad("smooth", "dx=%s %s median=%s: %s not %s" % (dx, bt, med, r, e))
    part.traces += 1
    part.sample(list(vals))


def points(item, part):
    """nearest neighbour distances of every set of lattice points, coincident ones included"""
    P = np.array(item, float); n = len(P)
    part.states += 1; part.transitions += n * n; part.traces += 1
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    with common.quiet():
        g = np.array(R.minimum_distance(P.copy())); d = np.array([[R.distance(a, b) for b in P] for a in P])
    e = np.min(D + np.diag(np.full(n, np.inf)), 1)
    if not eq(d, D): part.violation("distance", "%s: %s" % (item, d), dict(points=[list(p) for p in item]))
    if not eq(g, e): part.violation("minimum_distance", "%s: %s not %s" % (item, g, e), dict(points=[list(p) for p in item]))
    part.outcome("p", n, tuple(np.round(g, 6)))


GRID = (-2.0, 0.0, 0.5, 3.0)


def line(item, part):
    """linear interpolation between every two lattice points, either way round"""
    a, b = item; part.states += 1; part.traces += 1; case = dict(line=[list(a), list(b)])
    for t in (-0.5, 0.0, 0.25, 0.5, 1.0, 1.5):
        x, y = (a[i] + t * (b[i] - a[i]) for i in (0, 1))
        calls = [("x", dict(x=x), y)] + ([("y", dict(y=y), x)] if a[1] != b[1] else [])
        for k, kw, want in calls:
            part.transitions += 1
            for form in (tuple, list, np.array):
                try:
                    with common.quiet(): g = float(R.interpolate(form(a), form(b), **kw))
                except Exception as e: part.violation("interpolate fails", "%s %s: %s" % (item, kw, common.exc_text(e)), case); return
                if not abs(g - want) <= 1e-9 * (1 + abs(want)): part.violation("interpolation at a given %s" % k, "%s at %s: %s not %s" % (item, kw, g, want), case)


LAWS = [(a, r) for a in (-3.0, -2.35, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0) for r in ((0.1, 1.0), (1.0, 50.0), (3.0, 5.0), (2.0, 2.0))]


class Quantiles:
    """every draw of numpy's global generator becomes the same ladder of n equally likely outcomes"""
    def __enter__(self):
        R_ = np.random; self.old = {k: getattr(R_, k) for k in ("random", "rand", "random_sample", "uniform", "power")}
        u = lambda *s: (np.arange(int(np.prod(s))) + 0.5).reshape(s) / np.prod(s) if len(s) else 0.5
        t = lambda s: () if s is None else (s,) if np.isscalar(s) else tuple(s)
        R_.random = R_.random_sample = lambda size=None: u(*t(size)); R_.rand = lambda *s: u(*s)
        R_.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * u(*t(size))
        R_.power = lambda a, size=None: u(*t(size)) ** (1.0 / a)
    def __exit__(self, *a):
        for k, v in self.old.items(): setattr(np.random, k, v)


def law(item, part):
    a, (lo, hi) = item; n = 20000
    part.states += n; part.transitions += n; part.traces += 1
    case = dict(law=[a, [lo, hi]])
    np.random.seed(1)
    with Quantiles(), common.quiet(): x = R.power_law_distribution_function(n, a, lo, hi)
    x = np.sort(np.ravel(np.asarray(x, float)))
    if len(x) != n: part.violation("number of values drawn", "%s: %d instead of %d" % (item, len(x), n), case); return
    if x[0] < lo * (1 - 1e-12) or x[-1] > hi * (1 + 1e-12): part.violation("values outside the limits", "%s: %s..%s" % (item, x[0], x[-1]), case); return
    if lo == hi: return
    cdf = np.log(x / lo) / np.log(hi / lo) if a == -1 else (x ** (a + 1) - lo ** (a + 1)) / (hi ** (a + 1) - lo ** (a + 1))
    k = np.abs(cdf - (np.arange(n) + 0.5) / n).max()
    if k > 0.018: part.violation("power law distribution", "slope %s over %s..%s: cumulative distribution off by %.3f" % (a, lo, hi, k), case)


def taper(item, part):
    """power laws that fall off at a limit: the bins, and a curve through them no worse than an independent least squares fit"""
    n, slope, rev, nb, bt, preset = item
    q = (np.arange(1, n + 1) * 0.6180339887) % 1.0
    x0 = 0.1 * (1 - q * (1 - (12.0 / 0.1) ** (1 + slope))) ** (1 / (1 + slope)); x0 = x0[::-1] if rev else x0
    part.states += 1; part.transitions += 1; part.traces += 1; case = dict(taper=list(item))
    x = x0.copy()
    try:
        with common.quiet():
            lo, mid, hi, h = (R.nbinmaker(x0, nb) if bt == "num" else R.binmaker(x0, nb))[:4]
            r = R.tapered_dx_function(x, nx=nb, bintype=bt, **(dict(x_lower=lo.copy(), x_mean=mid.copy(), x_upper=hi.copy()) if preset else {}))
    except Exception as e: part.violation("tapered_dx_function fails", "%s: %s" % (item, common.exc_text(e)), case); return
    if not np.array_equal(x, x0): part.violation("tapered_dx_function changes its argument", str(item), case)
    h = np.bincount(idx(x0, lo, hi), minlength=nb); J = h > 0; d = h[J] / (hi - lo)[J]
    if not (len(r) == 11 and eq(r[0], mid[J]) and eq(r[1], h[J]) and eq(r[2], d)): part.violation("tapered_dx_function bins", "%s: %s not %s" % (item, r[:3], (mid[J], h[J], d)), case); return
    A, eA, al, eal, xc, exc, be, ebe = [float(v) for v in r[3:]]
    f = lambda v, A, al, xc, be: A * v ** al * (1 - np.exp(-(v / xc) ** be))
    with common.quiet():
        w, C = curve_fit(f, mid[J], d, bounds=([0, -np.inf, x0.min(), -np.inf], [np.inf, np.inf, x0.max(), np.inf]))
        got, want = np.sum((f(mid[J], A, al, xc, be) - d) ** 2), np.sum((f(mid[J], *w) - d) ** 2)
    if not (A >= 0 and x0.min() <= xc <= x0.max()): part.violation("tapered_dx_function parameters", "%s: A %s xc %s" % (item, A, xc), case)
    if not got <= want * 1.01 + 1e-6 * np.sum(d ** 2): part.violation("tapered_dx_function fit", "%s: residual %s, %s is possible" % (item, got, want), case)
    # a fit that is fully determined: the errors belong to the parameters returned beside them
    if J.sum() > 4 and common.close([A, al, xc, be], w, 1e-6):
        e = np.sqrt(np.diag(C))
        if np.all(np.isfinite(e)) and np.all(e < 1e3 * (np.abs(w) + 1)) and not common.close([eA, eal, exc, ebe], e, 0.02): part.violation("tapered_dx_function errors", "%s: %s not %s" % (item, (eA, eal, exc, ebe), e), case)
    part.outcome(tuple(np.round([al, xc, be], 6)))


def replay(case):
    p = common.Part()
    if "law" in case: law((case["law"][0], tuple(case["law"][1])), p)
    elif "line" in case: line(tuple(map(tuple, case["line"])), p)
    elif "taper" in case: taper(tuple(case["taper"]), p)
    elif "points" in case: points(tuple(map(tuple, case["points"])), p)
    else: dataset((tuple(case["x"]), case["nmax"]), p)
    return p.violations


def run(ctx):
    n = 8 if ctx.thorough else 5; nb = 6 if ctx.thorough else 4
    sets = [(t, nb) for k in range(1, n + 1) for t in (itertools.product(ALPHA, repeat=k) if k <= (5 if ctx.thorough else 3) else itertools.combinations_with_replacement(ALPHA, k))]
    sets += [(t[::-1], nb) for k in range(4, 9 if ctx.thorough else 8) for t in itertools.combinations([0.2, 0.31, 0.9, 1.7, 3.0, 5.5, 7.0, 11.0], k)]
    ctx.pmap(dataset, sets, chunk=8)
    L = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 2)]
    ctx.pmap(points, [t for k in range(2, 6 if ctx.thorough else 5) for t in itertools.product(L, repeat=k) if k < 4 or list(t) == sorted(t)], chunk=50)
    ctx.pmap(taper, [(n, sl, rev, k, bt, pre) for n in ((40, 90, 200) if ctx.thorough else (40, 90)) for sl in (-2.3, -0.5, 0.7) for rev in (False, True) for k in (range(4, 11) if ctx.thorough else (5, 7)) for bt in ("num", "fix") for pre in (False, True)], chunk=4)
    ctx.pmap(law, LAWS)
    G = list(itertools.product(GRID, repeat=2)); ctx.pmap(line, [(a, b) for a in G for b in G if a[0] != b[0]], chunk=20)
    ctx.bounds = dict(alphabet=ALPHA, values="all sequences of <= %d and multisets of <= %d values" % ((5 if ctx.thorough else 3), n), bins="1..%d" % nb, points="<= %d lattice points" % (5 if ctx.thorough else 4), laws="%d slope/limit pairs, 20000 equally likely draws" % len(LAWS))
    ctx.assumptions = ["data sets whose values are all equal are not split into bins of equal number", "values outside preset bins are not claimed"]
    ctx.explanation = "all small data sets enumerated; each binning compared with membership recomputed from the limits it returns"
