"""Shared driver: run a function on P simulated ranks, compare with the single-process run."""
from .core import Violation
from .util import close, flat, serial
from .world import World


def run_ranks(t, st, size, fn, args=(), stalls=True):
    """Runs fn(proc, *args) on 'size' ranks of one job under a drawn schedule."""
    w = World(t, st)
    job = w.add_job(size, fn, args)
    w.choose_policy(stalls=stalls)
    if t.chance("clock", 1, 3):
        w.skew_clocks()
    w.run()
    st.mix("sched", w.policy, [(i, x) for _, i, x in w.log])
    return w, job


def judge(w, ref, what, compare=None, same_everywhere=True):
    """Every rank must return the reference value (or, if the reference fails, fail likewise)."""
    if w.problem is not None:
        raise Violation(w.problem.cls, "%s: %s" % (what, w.problem.msg))
    kind, val = ref
    for p in w.procs:
        if p.exc is not None:
            if kind == "error" and isinstance(p.exc, type(val)):
                continue
            raise Violation("rank-failed", "%s: %s of %d failed with %s: %s%s" % (
                what, p.name, len(w.procs), type(p.exc).__name__, p.exc,
                "" if kind == "ok" else " (a single process fails with %s)" % type(val).__name__))
        if kind == "error":
            raise Violation("error-lost", "%s: a single process fails with %s but %s returned" %
                            (what, type(val).__name__, p.name))
        if compare is not None:
            compare(p, p.result, val)
            continue
        a, b = flat(p.result), flat(val)
        if len(a) != len(b):
            raise Violation("wrong-result", "%s: %s returns %d arrays instead of %d" % (what, p.name, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            ok, msg = close(x, y)
            if not ok:
                raise Violation("wrong-result", "%s on %d processes: output %d of %s: %s" %
                                (what, len(w.procs), i, p.name, msg))


def draw_size(t, stream="P", items=None):
    """Number of processes; biased towards unequal splits and more ranks than items."""
    p = t.weighted(stream, [(2, 8), (3, 8), (1, 2), (4, 4), (5, 4), (7, 2), (8, 2), (6, 1), (9, 1), (12, 1), (17, 1)])
    if items is not None and t.chance(stream, 1, 6):
        p = min(items + 1 + t.draw(stream, 2), 12)
    return p
