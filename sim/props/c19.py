"""C19: a calculator gives the same answers fresh or reused, interrupted or not."""
import copy

import numpy as np

from .. import calcops as ca
from ..core import Violation
from ..interrupt import Interrupt, KINDS, draw_point
from ..mpirun import run_ranks
from ..util import close, memory, quiet, serial, stale_memory

QUICK_RUNS, THOROUGH_RUNS = 8000, 120000
SCRATCH = True
RULE = ("random history of 3-12 steps over one model (cell, cell with overlap, analytical model, sample): permitted changes of "
        "the model, the k-grid and the configuration, and calculations of every kind on calculators that are created once and "
        "reused; calculations may be interrupted or run out of memory at a drawn line; the caller may overwrite results it "
        "received; some histories run on 2-4 simulated processes; every result is compared with that of objects created for "
        "this calculation alone; non-trivial: a reused calculator was used after a change or an interruption")
ASSUMPTIONS = ["the calling program does not change a model while a calculation runs",
               "eigenstates are compared up to a phase and only where energies are separated",
               "nr_random_samples may be rounded up to a multiple of the number of processes (announced with a warning)"]
COMPONENTS = {"real": "tbplas.diagonal, tbplas.tbpm, tbplas.builder, Cython and Fortran code from /repo's working tree",
              "simulated": "interruption and allocation failure at any Python line of a calculation; MPI and scheduling; "
                           "OpenMP runtime (team of 1)"}


def gapped(bands):
    b = np.sort(np.asarray(bands), axis=1)
    return b.shape[1] < 2 or (np.isfinite(b).all() and np.diff(b, axis=1).min() > 1e-4)


def bad(what, msg):
    raise Violation("reuse-changes-result", "%s: %s" % (what, msg))


def equal(what, c, got, ref, fresh):
    """got, ref: (kind, arrays)."""
    kind = ref[0]
    tol = 1e-6 if c.get("arpack") or c["what"] == "haydock" else 1e-8
    a, b = got[1], ref[1]
    if len(a) != len(b):
        bad(what, "%d arrays instead of %d" % (len(a), len(b)))
    if kind in ("states", "spin", "phases") or c.get("orb"):
        # states of degenerate levels are arbitrary
        ks = np.asarray(c["k"] if kind != "spin" else fresh.s["kgrid"])
        if kind == "phases":
            ks = None
        if kind == "states":
            ok, msg = close(np.sort(a[0], axis=1), np.sort(b[0], axis=1), tol, tol)
            if not ok:
                bad(what + " (energies)", msg)
            if a[1].shape != b[1].shape:
                bad(what, "states of shape %s instead of %s" % (a[1].shape, b[1].shape))
            if fresh.ov is None and not c.get("arpack"):
                for i in range(len(a[0])):
                    h = np.einsum("b,bi,bj->ij", b[0][i], b[1][i], b[1][i].conj())
                    v = a[1][i].T
                    with np.errstate(all="ignore"):
                        res = np.abs(h @ v - v * a[0][i]).max()
                        orth = np.abs(v.conj().T @ v - np.eye(v.shape[1])).max()
                    if np.isfinite(b[0]).all() and not (res < 1e-7 and orth < 1e-7):
                        bad(what, "states of k-point %d are not eigenstates (residual %.1e, orthonormality %.1e)" % (i, res, orth))
            elif gapped(b[0]):
                for i in range(len(a[0])):
                    o1, o2 = np.argsort(a[0][i]), np.argsort(b[0][i])
                    ok, msg = close(np.abs(a[1][i][o1]), np.abs(b[1][i][o2]), 1e-4, 1e-4)
                    if not ok:
                        bad(what + " (states of k-point %d)" % i, msg)
            return
        if ks is not None:
            full = ca.Live(fresh.s).get("diag").calc_states(ks, convention=c.get("conv", 1))[0]
            if not gapped(full):
                if kind == "spin":
                    if a[0].shape != b[0].shape:
                        bad(what, "shape %s instead of %s" % (a[0].shape, b[0].shape))
                    return
                a, b = (a[:2], b[:2]) if c["what"] == "bands" else (a[:1], b[:1])
        if kind == "phases":
            if not z2_defined(fresh, c):
                a, b = a[:1], b[:1]
            else:
                a, b = [a[0], circle(a[1])], [b[0], circle(b[1])]
                tol = 1e-6
    for i, (x, y) in enumerate(zip(a, b)):
        ok, msg = close(x, y, tol, tol)
        if not ok:
            bad(what + " (output %d)" % i, msg)


def circle(ph):
    """Order-independent description of phases on a circle (power sums)."""
    z = np.exp(1j * np.asarray(ph))
    return np.stack([(z ** p).sum(axis=1) for p in (1, 2, 3)], axis=1)


def z2_defined(fresh, c):
    """Phases are defined if the occupied levels are separated from the others and the overlaps do not vanish."""
    s = fresh.s
    d = ca.Live(s).get("diag")
    occ = s["occ"]
    for kb in np.linspace(0, .5, c["nkb"]):
        ks = np.array([[ka, kb, 0.1] for ka in np.linspace(-.5, .5, c["nka"])])
        e, v = d.calc_states(ks)
        o = np.argsort(e, axis=1)
        e = np.take_along_axis(e, o, 1)
        if occ < e.shape[1] and (e[:, occ] - e[:, occ - 1]).min() < 1e-4:
            return False
        u = [v[i][o[i]][:occ] for i in range(len(ks))]
        for i in range(len(ks)):
            f = u[i].conj() @ u[(i + 1) % len(ks)].T
            if np.linalg.svd(f, compute_uv=False).min() < 1e-3:
                return False
    return True


def fresh_result(s, c):
    """The calculation on objects made for it alone: ('ok', (kind, arrays), live) or ('error', exception, live)."""
    with memory(0):
        L = ca.Live(copy.deepcopy(s))
        r, v = serial(lambda: ca.calculate(L, c, []))
    return r, v, L


def draw_history(t, kind, faults):
    s = ca.new_state(t, kind)
    first = copy.deepcopy(s)
    hist = []
    nan = None
    for _ in range(t.between("op", 3, 12)):
        if t.chance("op", 2, 5):
            op = ca.draw_edit(t, s)
            if op is not None:
                ca.plain_edit(s, op)
                hist.append(("edit", op, copy.deepcopy(s)))
            continue
        if kind == "cell" and faults and t.chance("op", 1, 10):
            # a mistaken value, noticed and corrected
            i = t.draw("op", len(s["orbs"]))
            old = s["orbs"][i][1]
            x = {"what": "bands", "k": np.array([[0.1, 0.2, 0.0]]), "conv": 1}
            for v in (t.choice("op", [float("nan"), float("inf")]), old):
                op = ("eng", i, v)
                ca.plain_edit(s, op)
                hist.append(("edit", op, copy.deepcopy(s)))
                hist.append(("calc", x, copy.deepcopy(s), None, False, False))
            continue
        c = ca.draw_calc(t, s, not faults)
        f = None
        if faults and t.chance("fault", 1, 3):
            f = (t.draw("fault", len(KINDS)), draw_point(t, "fault", 1500))
        hist.append(("calc", c, copy.deepcopy(s), f, t.chance("op", 1, 3), t.chance("op", 1, 2)))
    return first, hist


def label(c, i):
    return "step %d: %s%s" % (i, c["what"], " with arpack" if c.get("arpack") else "")


def play(first, hist, st=None, mpi=False, check=None):
    """Executes the history on shared objects.  Calls check(i, c, s, outcome) after each completed calculation."""
    L = ca.Live(copy.deepcopy(first), mpi)
    held = []
    trace = []
    for i, h in enumerate(hist):
        if h[0] == "edit":
            L.edit(h[1], copy.deepcopy(h[2]))
            trace.append(h[1][0])
            continue
        _, c, s, fault, scribble, look = h
        args = []
        cfg = ca.config_values(L.config) if L.sample is not None else None
        fired = None
        try:
            if fault is None:
                out = ("ok", ca.calculate(L, c, args))
            else:
                kind = KINDS[fault[0]]
                it = Interrupt(fault[1], kind)
                try:
                    with it:
                        out = ("ok", ca.calculate(L, c, args))
                    if it.fired is not None:
                        bad(label(c, i), "injected %s at %s was swallowed" % (kind.__name__, it.fired))
                except BaseException:
                    fired = it.fired
                    if fired is None:
                        raise
                    st.hit("fault:" + ("interrupt" if kind is KeyboardInterrupt else "alloc_failure"))
        except Violation:
            raise
        except Exception as e:
            out = ("error", e)
        trace.append((c["what"], fired))
        if st is not None:
            st.descr = {"history": trace[-12:], "kind": first["kind"]}
        for x, y in args:
            if not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                bad(label(c, i), "an array of the caller was modified")
        if cfg is not None:
            now = ca.config_values(L.config)
            if repr(now) != repr(cfg):
                bad(label(c, i), "the configuration was modified")
        for x, y in held:
            if not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
                bad(label(c, i), "a result returned earlier changed")
        if fired is None:
            check(i, c, s, out)
            if out[0] == "ok":
                for x in out[1][1]:
                    x = np.asarray(x)
                    if scribble and x.flags.writeable:
                        x *= 1000                 # e.g. conversion of units in place
                    held.append((x, x.copy()))
        if look and check is not None and not mpi:
            for n, (x, y) in enumerate(zip(ca.contents(L), ca.contents(ca.Live(copy.deepcopy(s))))):
                ok, msg = close(x, y, 1e-9, 1e-9)
                if not ok:
                    raise Violation("model-changed", "%s: model contents %d: %s" % (label(c, i), n, msg))
    return trace


def outcome(i, c, s, out):
    r, v, F = fresh_result(s, c)
    what = label(c, i)
    if r == "error":
        if out[0] == "ok":
            bad(what, "gives a result where new objects fail with %s: %s" % (type(v).__name__, v))
        return
    if out[0] == "error":
        bad(what, "fails with %s: %s where new objects give a result" % (type(out[1]).__name__, out[1]))
    equal(what, c, out[1], v, F)


def run(t, st):
    kind = t.weighted("kind", [("cell", 5), ("sample", 3), ("overlap", 2), ("fake", 1)])
    size = t.weighted("P", [(1, 6), (2, 1), (3, 1), (4, 1)]) if kind != "sample" else 1
    first, hist = draw_history(t, kind, size == 1)
    n = [h[0] for h in hist]
    st.descr = {"kind": kind, "steps": n, "ranks": size}
    st.hit("case:" + kind)
    used = edited = False
    for h in hist:
        if h[0] == "edit":
            edited = used
        else:
            st.nontrivial = st.nontrivial or edited
            used = True
            edited = edited or h[3] is not None
    if size == 1:
        with stale_memory(t, st), quiet():
            trace = play(first, hist, st, False, outcome)
        st.mix(kind, trace)
        return
    # on several processes
    def body(p):
        log = []
        play(first, hist, None, True, lambda i, c, s, out: log.append(
            (i, out if out[0] == "error" else ("ok", (out[1][0], [np.array(x) for x in out[1][1]])))))
        return log
    w, job = run_ranks(t, st, size, body)
    st.mix(kind, size, [h[1][0] if h[0] == "edit" else h[1]["what"] for h in hist])
    st.hit("parallel")
    if w.problem:
        raise Violation(w.problem.cls, w.problem.msg)
    for p in w.procs:
        if p.exc is not None:
            raise p.exc
    with quiet():
        for p in w.procs:
            for i, out in p.result:
                outcome(i, hist[i][1], hist[i][2], out)
