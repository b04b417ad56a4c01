"""C02  origin shifts (cluster centre / catalogued cluster position / galactic
centre), interleaved with unit conversions and save/return, always read the
same physical positions and velocities, and are exactly invertible."""
from . import common, world, explore
from .world import UNITS, ORIGINS
from .c01 import check_cart


def worlds():
    return {
        "w5": world.world5(),
        "nocentre": world.world5(centre=(0, 0, 0, 0, 0, 0)),
        "xcentred": world.world5(centre=(0, 0.5, -0.2, 0.3, -0.1, 0.2)),
        "movingcentre": world.world5(centre=(0, 0, 0, 0.3, 0, -0.2)),
        "halfcentre": world.world5(centre=(0.4, 0, 0, 0, 0, 0.2)),
        "nogc": world.world5(gc=(0, 0, 0, 0, 0, 0)),
        "solar8": world.world5(ro=8.0, vo=220.0, zo=0.025),
        "one": world.World(world.STARS5[1:2]),
        "sse": world.world5(sse=world.SSE5),
    }


def alphabet(units, full):
    o = []
    for t in ORIGINS:
        o.append(("origin", t, True))
        o.append(("to_origin", t))
    if full:
        for t in ORIGINS:
            o.append(("origin", t, False))
        o += [("to_center",), ("to_origin", "center")]
    for t in units:
        o.append(("units", t))
    o += [("save",), ("return",), ("return_args",)]
    return o


def apply_(op, c, m):
    m = dict(m)
    k = op[0]
    if k == "origin":
        getattr(c, "to_" + op[1])(sortstars=op[2])
        m["origin"] = op[1]
    elif k == "to_center":
        c.to_center()
        m["origin"] = "centre"
    elif k == "to_origin":
        c.to_origin(op[1])
        m["origin"] = "centre" if op[1] == "center" else op[1]
    elif k == "units":
        c.to_units(op[1])
        m["units"] = op[1]
    elif k == "save":
        c.save_cluster()
        m["saved"] = (m["units"], m["origin"])
    elif k == "return":
        c.return_cluster()
        m["units"], m["origin"] = m["saved"]
    elif k == "return_args":
        c.return_cluster(c.units0, c.origin0, c.rorder0, c.rorder_origin0, sortstars=True)
        m["units"], m["origin"] = m["saved"]
    return c, m


def enabled(alpha, m):
    return [o for o in alpha if not (o[0].startswith("return") and m["saved"] is None)]


def one(item, part):
    wn, units, origin, alphaunits, full = item
    w = worlds()[wn]
    alpha = alphabet(alphaunits, full)
    with common.quiet():
        c = w.build(units, origin)
    m0 = dict(units=units, origin=origin, saved=None)
    desc = dict(world=wn, units=units, origin=origin)

    def check(impl, m, op, h):
        part.outcome(wn, m["units"], m["origin"])
        return check_cart(impl, w, m["units"], m["origin"])

    # rorder*/save fields are hidden state: they stay in the canonical key
    def canon(impl, m):
        return (world.canon(impl)[0], m["units"], m["origin"], m["saved"])

    done = explore.bfs((c, m0), lambda i, m: enabled(alpha, m), apply_, canon, check, part,
                       max_states=8000, start_desc=desc)
    part.count("fixpoints_reached", int(done)); part.count("starts")

    base = [("origin", t, True) for t in ORIGINS] + [("units", t) for t in alphaunits]
    for h in explore.all_histories(base, 3 if full else 2):
        with common.quiet():
            c = w.build(units, origin)
        m = dict(m0)
        try:
            with common.quiet():
                for o in h:
                    c, m = apply_(o, c, m)
        except Exception as e:
            if not common.in_repo(e):
                raise
            part.violation("exception %s in %s" % (type(e).__name__, explore.opname(o)), "after %s: %s" % (h, common.exc_text(e)),
                           dict(start=desc, ops=h))
            continue
        part.traces += 1
        part.transitions += len(h)
        for k, msg in check_cart(c, w, m["units"], m["origin"]):
            part.violation(k, "start %s after %s: %s" % (desc, h, msg), dict(start=desc, ops=h))


def replay(case):
    s = case["start"]
    w = worlds()[s["world"]]
    c = w.build(s["units"], s["origin"])
    m = dict(units=s["units"], origin=s["origin"], saved=None)
    try:
        for o in case["ops"]:
            c, m = apply_(tuple(o), c, m)
        return [common.V(k, msg, case) for k, msg in check_cart(c, w, m["units"], m["origin"])]
    except Exception as e:
        return [common.V("exception %s" % type(e).__name__, common.exc_text(e), case)]


def run(ctx):
    items = []
    for origin in ORIGINS:
        items.append(("w5", "pckms", origin, UNITS if ctx.thorough else ["pckms", "kpckms", "nbody"], True))
    for wn in worlds():
        for units in UNITS:
            for origin in ORIGINS:
                if not ctx.thorough and wn != "w5" and origin != "cluster":
                    continue
                partner = "galpy" if units != "galpy" else "pcmyr"
                items.append((wn, units, origin, [units, partner] if not ctx.thorough else UNITS[:], False))
    ctx.bounds = dict(unit_systems=UNITS, origins=ORIGINS, worlds=list(worlds()), sequence_length="unbounded (fixpoint)", stateless_depth=3)
    ctx.pmap(one, items)
    if ctx.counters.get("fixpoints_reached", 0) != ctx.counters.get("starts", 0):
        ctx.exhaustive = False
    ctx.explanation = "BFS to fixpoint over origin changes x unit conversions x save/return on the real object"
