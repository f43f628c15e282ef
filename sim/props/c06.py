"""C06: distributed work is assigned to exactly one process, in order."""
from ..core import Violation
from ..mpirun import run_ranks

QUICK_RUNS, THOROUGH_RUNS = 8000, 300000
RULE = ("1-24 ranks ask the list, range and bounds distributors for 0-4200 (sometimes up to 10**18) items, in drawn order, repeatedly and "
        "interleaved; non-trivial: at least two ranks")
ASSUMPTIONS = ["splitting a list with fewer items than processes may be refused, if it is refused on every process"]
COMPONENTS = {"real": "tbplas.parallel, tbplas.utils", "simulated": "MPI, process scheduling, clocks"}


HUGE = 100000
ODD = [None, 0, "", False, (), 1, 1, "x", 0.5, -1]


def items(n, mixed):
    """n work items: all different, or arbitrary objects with repetitions, false and None among them."""
    return [ODD[(i * i + mixed) % len(ODD)] for i in range(n)] if mixed else [("item", i) for i in range(n)]


def ask(env, q):
    what, n, alg, mixed = q
    try:
        if what == "list":
            raw = items(n, mixed)
            back = list(raw)
            part = list(env.dist_list(raw, alg))
            if len(raw) != n or any(a is not b for a, b in zip(raw, back)):
                raise Violation("input-modified", "the list to distribute was modified")
            return part
        if what == "range":
            r = env.dist_range(n)
            if n >= HUGE:
                if len(r) and r[-1] - r[0] != len(r) - 1:
                    raise Violation("not-ordered", "a range of %d items has step %d" % (n, r.step))
                return (r[0], r[-1] + 1) if len(r) else (0, 0)
            return [("item", i) for i in r]
        lo, hi = env.dist_bound(n)
        if int(lo) != lo or int(hi) != hi:
            raise Violation("not-integer", "bounds %r" % ((lo, hi),))
        if n >= HUGE:
            return (lo, hi + 1)
        return [("item", i) for i in range(lo, hi + 1)]
    except AssertionError as e:
        return "refused"


def run(t, st):
    size = t.weighted("P", [(2, 3), (3, 3), (1, 1), (4, 2), (5, 1), (6, 1), (7, 1), (8, 1), (11, 1), (16, 1), (24, 1)])
    qs = []
    for _ in range(t.between("q", 1, 6)):
        base = t.choice("q", [size, 2 * size, 3 * size, 10, 40])
        n = max(0, base + t.between("q", -3, 3)) if not t.chance("q", 1, 5) else t.draw("q", 200)
        if t.chance("q", 1, 30):
            n = 200 + t.draw("q", 4000)
        what = t.choice("q", ["range", "bound", "list"])
        if what != "list" and t.chance("q", 1, 20):
            n = (HUGE << t.draw("q", 44)) + t.draw("q", 1000)
        qs.append((what, n, t.choice("q", ["range", "remainder"]),
                   t.weighted("q", [(0, 3), (1, 1), (4, 1)])))

    def body(p):
        from tbplas.parallel import MPIEnv
        env = MPIEnv(enable_mpi=True)
        res = {}
        order = t.perm("order", len(qs))
        for i in order:
            res[i] = ask(env, qs[i])
            p.world.yield_point("asked")
        for i in order[:1]:
            if ask(env, qs[i]) != res[i]:
                raise Violation("unstable", "%s gets a different part of %s when it asks again" % (p.name, qs[i]))
        if MPIEnv(enable_mpi=False).dist_range(5) != range(5):
            raise Violation("serial-part", "with MPI disabled a process does not get all the work")
        return res

    w, job = run_ranks(t, st, size, body)
    st.descr = {"ranks": size, "questions": qs}
    st.nontrivial = size > 1
    st.mix(size, qs)
    if w.problem:
        raise w.problem
    for p in w.procs:
        if isinstance(p.exc, Violation):
            raise p.exc
        if p.exc is not None:
            raise Violation("rank-failed", "%s: %s: %s" % (p.name, type(p.exc).__name__, p.exc))
    for i, (what, n, alg, mixed) in enumerate(qs):
        parts = [p.result[i] for p in w.procs]
        st.hit("case:" + what)
        label = "%s of %d items on %d processes (%s)" % (what, n, size, alg)
        if what == "list" and n < size:
            if "refused" in parts:
                if any(x != "refused" for x in parts):
                    raise Violation("partly-refused", label + ": refused on some processes only")
                continue
        if "refused" in parts:
            raise Violation("refused", label + ": refused")
        if n >= HUGE:
            if parts[0][0] != 0 or parts[-1][1] != n or any(a[1] != b[0] for a, b in zip(parts, parts[1:])):
                raise Violation("not-a-partition", label + ": parts %s" % (parts,))
            ln = [b - a for a, b in parts]
            if max(ln) - min(ln) > 1:
                raise Violation("unbalanced", label + ": part sizes %s" % (ln,))
            continue
        allitems = [x for q in parts for x in q]
        if what == "list" and mixed:
            want = [repr(x) for x in items(n, mixed)]
            have = [repr(x) for x in allitems]
            if sorted(want) != sorted(have):
                raise Violation("not-a-partition", label + ": parts %s" % (parts,))
            if alg == "range" and want != have:
                raise Violation("not-ordered", label + ": parts are not in rank order")
            ln = [len(q) for q in parts]
            if max(ln) - min(ln) > 1:
                raise Violation("unbalanced", label + ": part sizes %s" % (ln,))
            continue
        if sorted(allitems) != [("item", j) for j in range(n)]:
            raise Violation("not-a-partition", label + ": parts %s" % (parts,))
        if what != "list" or alg == "range":
            if allitems != sorted(allitems):
                raise Violation("not-ordered", label + ": parts are not in rank order")
        for q in parts:
            if q != sorted(q):
                raise Violation("not-ordered", label + ": a part is not in the order of the items")
        ln = [len(q) for q in parts]
        if max(ln) - min(ln) > 1:
            raise Violation("unbalanced", label + ": part sizes %s" % (ln,))
