"""C06  analysis results are physical: the documented definition, whatever units
and origin the cluster is in, and whatever other calls were made before."""
import copy
import numpy as np
from . import common, world, calls, oracle
from .world import UNITS, ORIGINS


def worlds(n=30):
    return {"weq": oracle.WEQ(), "w30": oracle.W30(n), "w30b": oracle.W30(n, gc=(-4.0, 6.0, -2.0, 120., -80., 30.), centre=(-.4, .5, .3, .2, .3, -.4), rbar=0.8)}


def one(item, part):
    wn, units, origin, full = item
    w = worlds()[wn]
    c0 = calls.build(w, units, origin)
    for call in (calls.fits() if wn == "weq" else calls.registry(full) + calls.options()):
        if not call.legal(units, origin): continue
        if units == "amuse" and any(k in call.name for k in ("mass_function", "eta_function")) : continue   # plain numbers in, unitless fits
        o = oracle.O(w, call.eff(origin))
        c = copy.deepcopy(c0); c._mcw = w
        case = dict(kind="call", world=wn, units=units, origin=origin, call=call.name, full=full)
        part.states += 1; part.transitions += 1; part.traces += 1
        try:
            msg = calls.evaluate(call, c, o, w, units)
        except Exception as e:
            msg = "raised " + common.exc_text(e)
        part.outcome(call.name, call.eff(origin))
        if msg:
            part.violation("%s in %s" % (call.name, units), "%s at units=%s origin=%s: %s" % (call.name, units, origin, msg), case)
    part.sample(dict(world=wn, units=units, origin=origin, calls=len(calls.registry(full))))


def run_pair(wn, units, origin, an, bn, full):
    w = worlds()[wn]
    reg = {c.name: c for c in calls.registry(full)}
    c = calls.build(w, units, origin)
    with common.quiet():
        reg[an].fn(c, oracle.O(w, reg[an].eff(origin)))
    return calls.evaluate(reg[bn], c, oracle.O(w, reg[bn].eff(origin)), w, units)


SKIPB = ()


def pairs(item, part):
    """every ordered pair (A, B): B must still be right after A"""
    wn, units, origin, an, full, bnames = item
    w = worlds()[wn]
    reg = calls.registry(full)
    A = {c.name: c for c in reg}[an]
    c1 = calls.build(w, units, origin)
    try:
        with common.quiet(), common.limit(120):
            A.fn(c1, oracle.O(w, A.eff(origin)))
    except Exception:
        return                                  # reported by the single-call part
    for B in reg:
        if B.name not in bnames or not B.legal(units, origin): continue
        c = copy.deepcopy(c1); c._mcw = w
        part.transitions += 1; part.traces += 1
        try:
            msg = calls.evaluate(B, c, oracle.O(w, B.eff(origin)), w, units)
        except Exception as e:
            msg = "raised " + common.exc_text(e)
        if msg:
            part.violation("%s after %s" % (B.name, A.name), "%s after %s at %s/%s: %s" % (B.name, A.name, units, origin, msg),
                           dict(kind="pair", world=wn, units=units, origin=origin, a=A.name, b=B.name, full=full))
    part.states += 1


def replay(case):
    if case["kind"] == "call":
        w = worlds()[case["world"]]
        call = [c for c in calls.registry(case["full"]) + calls.fits() + calls.options() if c.name == case["call"]][0]
        c = calls.build(w, case["units"], case["origin"])
        try:
            msg = calls.evaluate(call, c, oracle.O(w, call.eff(case["origin"])), w, case["units"])
        except Exception as e:
            msg = "raised " + common.exc_text(e)
    else:
        msg = run_pair(case["world"], case["units"], case["origin"], case["a"], case["b"], case["full"])
    return [common.V("x", msg, case)] if msg else []


def run(ctx):
    t = ctx.thorough
    w = oracle.W30()
    calls.warm()
    items = [(wn, u, o, t or u in ("pckms", "kpckms")) for wn in (worlds() if t else ["w30", "weq"]) for u in UNITS for o in ORIGINS]
    ctx.pmap(one, items)
    pu = ["pckms", "galpy", "nbody"] if t else ["pckms"]
    reg = calls.registry(t)
    # pairs: every call as A, and as B (quick: one representative selection per function)
    names = [c.name for c in reg if t or not any(c.name.endswith(" " + k) for k in ("rmin", "vmin", "vmax", "mmax", "mmin", "rmax", "kw", "mix"))]
    its = [("w30", u, o, a, t, tuple(names)) for u in pu for o in (ORIGINS if t else ["galaxy", "cluster"]) for a in names]
    ctx.pmap(pairs, its, chunk=2)
    ctx.bounds = dict(units=UNITS, origins=ORIGINS, calls=len(reg) + len(calls.options()) + len(calls.fits()), pairs=len(names) ** 2)
    ctx.explanation = ("every analysis call at every (units, origin) against an independent definition in physical units, and "
                       "every ordered pair of calls (B evaluated on the object A was called on)")
    ctx.assumptions = ["results where the gravitational constant of the unit system enters: 0.4% (the constants differ by 1e-3)",
                       "mass/velocity-dispersion fits are not called in AMUSE units"]
