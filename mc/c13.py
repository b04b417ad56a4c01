"""C13  expressing one quantity in any unit system: the full product of kinds of
quantity x from-units x to-units x argument forms x worlds, plus every chain of
conversions of a given length, on the real converters."""
import itertools
import numpy as np
import clustertools as ct
from clustertools.util import units as U
from . import common, world

UN = list(world.UNITS)
KINDS = [   # name, function, dimension (L, V, M, T), extra args, label
    ("length", "_convert_length", (1, 0, 0, 0), {}), ("velocity", "_convert_velocity", (0, 1, 0, 0), {}),
    ("square velocity", "_convert_square_velocity", (0, 2, 0, 0), {}), ("time", "_convert_time", (0, 0, 0, 1), {}),
    ("mass", "_convert_mass", (0, 0, 1, 0), {}), ("density", "_convert_density", (-3, 0, 1, 0), dict(projected=False)),
    ("surface density", "_convert_density", (-2, 0, 1, 0), dict(projected=True))]
VAL = {"array": lambda: np.array([0.37, -2.5, 118.0, 0.0]), "float": lambda: 3.25, "np.float64": lambda: np.float64(3.25), "one": lambda: np.array([1.75]), "empty": lambda: np.array([])}
SKY = ("length", "time", "density", "surface density", "mass")


def worlds():
    W = world.world5
    return [("default", W()), ("ro/vo", W(ro=8.3, vo=211.0, zmbar=1300.0, rbar=0.6)), ("small", W(ro=7.9, vo=238.0, zmbar=0.4, rbar=12.5, gc=(-1.2, 0.4, 20.0, 10.0, 3.0, -90.0)))]


def unit_of(dims):
    u = world.u
    return u.parsec ** dims[0] * u.kms ** dims[1] * u.MSun ** dims[2] * u.Myr ** dims[3]


def fac(w, units, dims):
    f = w.factors(units)
    return float(np.prod([f[i] ** dims[i] for i in range(4)]))


def give(v, units, dims):
    return v | unit_of(dims) if units == "amuse" else v


def read(v, units, dims):
    if units != "amuse": 
        if world.HAVE_AMUSE and isinstance(v, world.Quantity): raise TypeError("AMUSE quantity returned in %s" % units)
        return np.asarray(v, float)
    if not isinstance(v, world.Quantity): raise TypeError("plain number returned for an AMUSE cluster")
    return np.asarray(v.value_in(unit_of(dims)), float)


def expect(w, kind, dims, x, a, b, c):
    """x in units a, as numbers in units b"""
    p = np.asarray(x, float) * fac(w, a, dims)
    if b != "radec": return p / fac(w, b, dims)
    p = p / fac(w, "kpckms", dims)
    d = c.zgc
    if kind == "length": return np.degrees(np.arctan2(p, d))
    if dims[0] < 0: return p / np.degrees(np.arctan2(1.0, d)) ** (-dims[0])
    return p


def pair(item, part):
    wi, b = item
    name, w = worlds()[wi]
    with common.quiet():
        c = w.build("pckms" if b == "radec" else b, "centre")
        if b == "radec": c.to_galaxy(); c.to_radec()
    for kind, fn, dims, kw in KINDS:
        f = getattr(U, fn, None)
        if f is None: part.notes.append("no " + fn); continue
        if b == "radec" and kind not in SKY: continue
        for a in UN:
            for form, mk in VAL.items():
                case = dict(world=wi, to=b, kind=kind, frm=a, form=form)
                part.states += 1; part.transitions += 1
                x = mk(); arg = give(mk(), a, dims); keep = np.array(arg.number if a == "amuse" else arg, float, copy=True)
                try:
                    with common.quiet(): r = f(arg, a, c, **kw)
                    got = read(r, b, dims)
                except Exception as e:
                    part.violation("%s %s->%s fails" % (kind, a, b), "%s: %s" % (case, common.exc_text(e)), case); continue
                exp = expect(w, kind, dims, x, a, b, c)
                if got.shape != np.shape(exp) or not common.close(got, exp, 2e-7):
                    part.violation("%s %s->%s" % (kind, a, b), "%s: %s instead of %s" % (case, got, exp), case)
                now = np.array(arg.number if a == "amuse" else arg, float)
                if form in ("array", "one") and not np.array_equal(now, keep):
                    part.violation("argument changed", "%s: %s became %s" % (case, keep, now), case)
                part.outcome(kind, form, np.round(got, 9).tobytes() if wi == 0 else None)
    part.traces += 1
    part.sample(dict(world=name, to=b))


def chain(item, part):
    """a -> b1 -> ... -> bn -> a by moving the cluster and converting the numbers along: the numbers return"""
    wi, path = item
    name, w = worlds()[wi]
    for kind, fn, dims, kw in KINDS:
        f = getattr(U, fn, None)
        if f is None: continue
        with common.quiet():
            c = w.build(path[0], "centre"); x = give(np.array([0.37, -2.5, 118.0]), path[0], dims); cur = path[0]
            try:
                for b in path[1:] + (path[0],):
                    getattr(c, "to_" + b)(); x = f(x, cur, c, **kw); cur = b
                got = read(x, path[0], dims)
            except Exception as e:
                part.violation("%s chain fails" % kind, "%s: %s" % (path, common.exc_text(e)), dict(world=wi, path=list(path))); continue
        part.transitions += len(path); part.states += 1
        if not common.close(got, np.array([0.37, -2.5, 118.0]), 2e-7):
            part.violation("%s does not return" % kind, "%s %s: %s" % (kind, path, got), dict(world=wi, path=list(path)))
    part.traces += 1


def gyr(item, part):
    """softening lengths given in any units are written in kpc, and the caller's array is left alone"""
    import os
    wi, u0, o0, eu, form = item
    name, w = worlds()[wi]
    case = dict(gyr=list(item))
    n = len(w.stars); phys = {"array": np.linspace(0.01, 0.3, n), "float": 0.07, "int": 3}[form]
    L = w.factors(eu or u0)[0]; eps = phys / L if form != "int" else phys
    if form == "int": phys = phys * L
    keep = np.copy(eps)
    with common.quiet():
        c = w.build(u0, o0)
        fn = os.path.join(os.getcwd(), "g%d.dat" % os.getpid())
        try: ct.gyrout(c, filename=fn, eps=eps, epsunits=eu, ro=w.ro, vo=w.vo)
        except Exception as e:
            part.violation("gyrout eps fails", "%s: %s" % (case, common.exc_text(e)), case); return
    t = np.loadtxt(fn, ndmin=2); os.remove(fn)
    part.states += 1; part.transitions += 1; part.traces += 1
    if t.shape != (n, 8) or not common.close(t[:, 7], np.ones(n) * phys / 1000., 1e-7): part.violation("softening written wrongly", "%s: %s, not %s" % (case, t[:, 7:].ravel()[:3], np.ravel(phys / 1000.)[:3]), case)
    if not np.array_equal(keep, eps): part.violation("gyrout changes the eps array", str(case), case)


def replay(case):
    p = common.Part()
    if "gyr" in case: gyr(tuple(case["gyr"]), p)
    elif "path" in case: chain((case["world"], tuple(case["path"])), p)
    else: pair((case["world"], case["to"]), p)
    return p.violations


def run(ctx):
    W = range(len(worlds()))
    ctx.pmap(pair, [(w, b) for w in W for b in UN + ["radec"]])
    d = 4 if ctx.thorough else 3
    ctx.pmap(chain, [(w, p) for w in (W if ctx.thorough else [1]) for k in range(2, d + 2) for p in itertools.product(UN, repeat=k) if all(x != y for x, y in zip(p, p[1:]))], chunk=40)
    us = [u for u in UN if u != "amuse"]
    ctx.pmap(gyr, [(w, u, o, e, f) for w in ((0, 1, 2) if ctx.thorough else (0, 1)) for u in us for o in ("centre", "galaxy") for e in [None] + us for f in ("array", "float", "int")], chunk=20)
    ctx.bounds = dict(kinds=[k[0] for k in KINDS], units=UN + ["radec (target)"], forms=list(VAL), chain_length=d + 1)
    ctx.assumptions = ["angles of lengths are taken at the cluster's distance", "converting from degrees to lengths is not claimed"]
    ctx.explanation = "finite product of conversions enumerated completely, and all conversion chains up to the stated length"
