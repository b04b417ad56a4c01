"""Explicit-state exploration of operation sequences on the real objects."""
import copy, collections
from . import common


def bfs(initial, ops, apply_, canon, check, part, max_depth=None, max_states=None, start_desc=None):
    """Breadth-first search over every operation sequence from `initial`.
    state = (impl, model).  apply_(op, impl, model) -> (impl, model) runs the
    real operation in place on a deep copy; canon(impl, model) -> key of the
    canonical state; check(impl, model, op, hist) -> list of (key, msg).
    Returns True when the frontier emptied (fixpoint: sequences of any length)."""
    impl, model = initial
    k0 = canon(impl, model)
    seen = {k0}
    for key, msg in check(impl, model, None, []):
        part.violation(key, msg, dict(start=start_desc, ops=[]))
    frontier = collections.deque([(impl, model, [])])
    part.states += 1
    complete = True
    while frontier:
        impl, model, hist = frontier.popleft()
        if max_depth is not None and len(hist) >= max_depth:
            complete = False
            continue
        for op in ops(impl, model):
            h = hist + [op]
            part.transitions += 1
            c2, m2 = copy.deepcopy(impl), copy.deepcopy(model)
            try:
                with common.quiet(), common.limit(120):
                    c2, m2 = apply_(op, c2, m2)
            except Exception as e:
                part.violation("exception %s in %s" % (type(e).__name__, opname(op)),
                               "after %s: %s" % (h, common.exc_text(e)), dict(start=start_desc, ops=h))
                continue
            try:
                bad = check(c2, m2, op, h)
            except Exception as e:
                bad = [("unreadable state after %s (%s)" % (opname(op), type(e).__name__), common.exc_text(e))]
            for key, msg in bad:
                part.violation(key, "start %s, after %s: %s" % (start_desc, h, msg), dict(start=start_desc, ops=h))
            if bad:
                continue            # do not explore beyond a violating state
            k = canon(c2, m2)
            if k in seen:
                continue
            seen.add(k)
            part.states += 1
            part.sample(dict(start=start_desc, history=h))
            if max_states is not None and len(seen) > max_states:
                part.notes.append("state cap %d hit" % max_states)
                part.count("state_cap_hit")
                return False
            frontier.append((c2, m2, h))
    return complete


def opname(op):
    return op if isinstance(op, str) else ":".join(str(o) for o in op)


def all_histories(ops, depth):
    """every history of exactly length 1..depth over a fixed alphabet, by length"""
    import itertools
    for d in range(1, depth + 1):
        for h in itertools.product(ops, repeat=d):
            yield list(h)
