"""C07: reductions, averages and broadcasts preserve values, layout and inputs."""
import numpy as np

from .. import models
from ..core import Violation
from ..mpirun import run_ranks

QUICK_RUNS, THOROUGH_RUNS = 8000, 250000
RULE = ("1-9 ranks run 1-5 drawn collectives on arrays of drawn shape, type and memory order and scribble over their own "
        "arrays afterwards; non-trivial: at least two ranks and a non-empty array")
ASSUMPTIONS = ["every process passes an array of the same shape, type and memory layout, as the solvers do",
               "floating-point sums may be reordered (values are small integers, so sums are exact)"]
COMPONENTS = {"real": "tbplas.parallel", "simulated": "MPI (raw memory-order transfer, seeded reduction order, eager or "
              "late completion), process scheduling"}


def layout(x, lay):
    """Array with the values of x in the given memory layout."""
    if lay == "C":
        return np.array(x, order="C")
    if lay == "F":
        return np.array(x, order="F")
    if lay == "T":                                  # transposed view of a C array
        return np.ascontiguousarray(x.T).T
    big = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)   # strided view
    v = big[tuple(slice(0, 2 * n, 2) for n in x.shape)]
    v[...] = x
    return v


def body(p, ops, size):
    from tbplas.parallel import MPIEnv
    env = MPIEnv(enable_mpi=True)
    off = MPIEnv(enable_mpi=False)
    out = []
    keep = []
    for (op, shape, dt, lay, seed) in ops:
        x = values(seed, p.rank, shape, dt)
        a = layout(x, lay)
        before = a.copy()
        try:
            if op == "bcast":
                env.bcast(a)
                r = a
            else:
                r = getattr(env, op)(a)
                if not np.array_equal(a, before):
                    raise Violation("input-modified", "%s modified the local contribution of %s" % (op, p.name))
                d = getattr(off, op)(a)
                if not (isinstance(d, np.ndarray) and d.shape == a.shape and d.dtype == a.dtype
                        and np.array_equal(d, before)):
                    raise Violation("serial-value", "%s with MPI disabled does not give the input" % op)
            keep.append((r, None if r is None else np.array(r)))
            out.append(("ok", None if r is None else np.array(r), None if r is None else r.dtype.str))
            if op != "bcast":
                a[...] = -77                        # our own array is ours again
        except (ValueError, TypeError) as e:
            out.append(("refused", type(e).__name__, None))
        p.world.yield_point("between")
    for r, c in keep:
        if r is not None and not np.array_equal(r, c):
            raise Violation("result-changed", "a result changed after it was returned to %s" % p.name)
    return out


def values(seed, rank, shape, dt):
    g = models.rnd([seed, rank])
    x = g.integers(-50, 50, size=shape)
    if dt in ("c16", "c8"):
        x = x + 1j * g.integers(-50, 50, size=shape)
    return np.asarray(x, dtype=dt)


def run(t, st):
    size = t.weighted("P", [(2, 4), (3, 4), (1, 1), (4, 2), (5, 1), (8, 1), (9, 1)])
    ops = []
    for _ in range(t.between("op", 1, 5)):
        op = t.choice("op", ["all_reduce", "all_average", "reduce", "average", "bcast"])
        nd = t.weighted("op", [(1, 2), (2, 4), (3, 3)])
        shape = tuple(t.between("op", 1, 5) for _ in range(nd))
        if t.chance("op", 1, 12):
            shape = shape[:-1] + (0,)
        elif t.chance("op", 1, 25):                 # far and just beyond the sizes where code might change its ways
            n = t.choice("op", [100, 128, 256, 512, 1000, 1024, 2000, 2048, 4096, 5000, 10000, 65536, 100000])
            shape = (1,) * (nd - 1) + (n + t.choice("op", [0, 1, 1, 2, 37]),) if t.chance("op", 2, 3) else \
                shape[:-1] + (n,)
        dts = ["f8", "c16", "f8", "c16", "f4", "c8", "i8", "i4"]
        lay = t.weighted("op", [("C", 3), ("F", 3), ("T", 2), ("S", 1)])
        ops.append((op, shape, t.choice("op", dts), lay, t.draw("op", 1 << 30)))
    st.descr = {"ranks": size, "operations": ops}
    w, job = run_ranks(t, st, size, body, (ops, size))
    st.nontrivial = size > 1 and any(0 not in o[1] for o in ops)
    st.mix(size, ops)
    if w.problem:
        raise Violation(w.problem.cls, w.problem.msg)
    for p in w.procs:
        if isinstance(p.exc, Violation):
            raise p.exc
        if p.exc is not None:
            raise Violation("rank-failed", "%s: %s: %s" % (p.name, type(p.exc).__name__, p.exc))
    for i, (op, shape, dt, lay, seed) in enumerate(ops):
        st.hit("case:%s:%s" % (op, lay))
        vals = [values(seed, r, shape, dt) for r in range(size)]
        label = "%s of a %s array of type %s in layout %s on %d processes" % (op, shape, dt, lay, size)
        if op == "bcast":
            want = [vals[0]] * size
        elif op in ("all_reduce", "reduce"):
            want = [sum(vals[1:], vals[0])] * size
        else:
            want = [sum(vals[1:], vals[0]) / size] * size
        res = [p.result[i] for p in w.procs]
        ref = [x[0] == "refused" for x in res]
        whole = dt in ("i8", "i4") and "average" in op      # the mean of whole numbers may be refused
        if whole and any(ref):
            if op == "average" and ref[0] or all(ref):
                st.hit("refused")
                continue
        if any(ref):
            if not all(ref):
                raise Violation("partly-refused", label + ": refused on some processes only")
            a = layout(vals[0], lay)
            if a.flags.c_contiguous or a.flags.f_contiguous:
                raise Violation("refused", label + ": refused with %s" % res[0][1])
            st.hit("refused")
            continue
        for r in range(size):
            if op in ("reduce", "average") and r > 0:
                continue
            got = res[r][1]
            if got is None or got.shape != shape or \
                    (np.dtype(res[r][2]) != np.dtype(dt) and not whole):
                raise Violation("wrong-form", label + ": rank %d gets %s" % (r, None if got is None else
                                                                             (got.shape, res[r][2])))
            if not np.allclose(got, want[r], rtol=1e-6 if dt in ("f4", "c8") else 1e-13,
                               atol=1e-12):
                raise Violation("wrong-value", label + ": rank %d gets %s instead of %s" % (
                    r, got.ravel()[:4].tolist(), want[r].ravel()[:4].tolist()))
