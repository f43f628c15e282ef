"""C01: exact-diagonalisation results do not depend on the number of processes."""
import numpy as np

from .. import models
from ..core import Violation
from ..mpirun import draw_size, judge, run_ranks
from ..util import close, serial

QUICK_RUNS, THOROUGH_RUNS = 6000, 40000
RULE = ("random primitive cell / sample, k-points, solver options, 1-17 ranks, drawn schedule; non-trivial: at least "
        "two ranks and at least one k-point computed elsewhere")
ASSUMPTIONS = ["the collective library itself is correct (it is simulated); floating-point sums may be reordered",
               "eigenvectors are compared through eigenvalue residuals and orthonormality, not phases"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code from /repo's working tree, NumPy, SciPy/LAPACK",
              "simulated": "MPI, process scheduling, clocks, entropy, OpenMP runtime (team of 1)"}


def gen(t):
    kind = t.choice("kind", ["bands", "proj", "dos", "states", "spin", "z2", "arpack", "overlap", "sample", "fake"])
    c = {"kind": kind, "conv": t.between("opt", 1, 2)}
    if kind in ("spin",):
        c["pc"] = models.pc_spec(t, even=True, min_orb=2, max_orb=4)
        c["major"] = not t.chance("opt", 1, 2)
        c["comp"] = [t.choice("opt", ["z", "x", "y"]) for _ in range(t.between("opt", 1, 3))]
    elif kind == "z2":
        c["pc"] = models.pc_spec(t, min_orb=2, max_orb=4)
        c["occ"] = t.between("opt", 1, c["pc"]["n"])
        c["nka"], c["nkb"] = t.between("opt", 2, 5), t.between("opt", 1, 9)
    elif kind == "sample":
        c["sample"] = models.sample_spec(t)
        c["conv"] = 1          # samples support the first convention only
        c["what"] = t.choice("opt", ["bands", "dos", "states"])
    elif kind == "arpack":
        c["pc"] = models.pc_spec(t, min_orb=6, max_orb=9)
        c["what"] = t.choice("opt", ["bands", "states", "dos"])
        c["k"] = t.between("opt", 1, 3)
    else:
        c["pc"] = models.pc_spec(t, min_orb=1, max_orb=5)
    if kind == "overlap":
        c["what"] = t.choice("opt", ["bands", "states", "dos"])
    if kind in ("proj",) or t.chance("opt", 1, 4):
        n = c["pc"]["n"] if "pc" in c else 4
        c["orb"] = sorted(set(t.draw("opt", n) for _ in range(t.between("opt", 1, n))))
        c["form"] = t.draw("form", 4)
    c["dos"] = {"e_step": t.choice("opt", [0.05, 0.2]), "basis": t.choice("opt", ["Gaussian", "Lorentzian"]),
                "g_s": t.between("opt", 1, 2)}
    if t.chance("opt", 1, 3):
        c["dos"].update(e_min=-2.5, e_max=2.0)
    c["kpts"] = models.k_points(t).tolist()
    c["repeat"] = t.chance("opt", 1, 4)
    c["via"] = t.chance("opt", 1, 4)           # through the methods of the model
    c["rescale"] = t.chance("opt", 1, 3)
    if t.chance("big", 1, 40):                  # many k-points, larger models
        c["kpts"] = models.k_points(t, "big", t.choice("big", [20, 70, 150, 300])).tolist()
        if kind == "z2":
            c["nkb"] = t.between("big", 10, 70)
        if "pc" in c and kind != "z2":
            c["pc"]["n"] = c["pc"]["n"] * t.choice("big", [1, 2, 6])
            c["pc"]["nhop"] *= t.choice("big", [1, 3, 10])
    return c


def fake_model(n):
    """Analytical Hamiltonian through the duck-typed interface."""
    import tbplas as tb
    from tbplas.diagonal import FakePC

    class F(FakePC):
        def set_ham_dense(self, k_point, ham_dense, convention=1):
            m = self.num_orb
            for i in range(m):
                ham_dense[i, i] = 0.3 * i + np.cos(2 * np.pi * k_point[0]) + 0.5 * np.cos(2 * np.pi * k_point[1])
                for j in range(i):
                    v = 0.2 * np.exp(2j * np.pi * (k_point[0] * (i - j) + 0.3 * k_point[2]))
                    ham_dense[i, j] = v
                    ham_dense[j, i] = np.conj(v)

        def set_ham_csr(self, k_point, convention=1):
            from scipy.sparse import csr_matrix
            h = np.zeros((self.num_orb, self.num_orb), dtype=complex)
            self.set_ham_dense(k_point, h, convention)
            return csr_matrix(h)
    return F(n, np.eye(3) * 0.3, tb.NM)


def calc(c, mpi):
    import tbplas as tb
    from tbplas.diagonal import DiagSolver
    k = np.array(c["kpts"])
    kind = c["kind"]
    opts = dict(convention=c["conv"])
    what = c.get("what", kind)
    if kind == "sample":
        model = models.build_sample(c["sample"], rescale=c["rescale"])
        s = DiagSolver(model, enable_mpi=mpi)
    elif kind == "overlap":
        pc = models.build_pc(c["pc"])
        s = DiagSolver(pc, models.build_overlap(c["pc"], pc), enable_mpi=mpi)
    elif kind == "fake":
        s = DiagSolver(fake_model(c["pc"]["n"]), enable_mpi=mpi)
        what = ["bands", "states", "dos"][c["pc"]["seed"] % 3]
    elif kind == "spin":
        s = tb.SpinTexture(models.build_pc(c["pc"]), k, c["major"], enable_mpi=mpi)
        return ("plain", [s.eval(x) for x in c["comp"]])
    elif kind == "z2":
        s = tb.Z2(models.build_pc(c["pc"]), c["occ"], enable_mpi=mpi)
        kb, ph = s.calc_phases(np.linspace(-.5, .5, c["nka"]), np.linspace(0, .5, c["nkb"]), 0.1)
        return ("phases", [kb, ph])
    else:
        s = DiagSolver(models.build_pc(c["pc"]), enable_mpi=mpi)
    if kind == "arpack":
        opts.update(solver="arpack", k=c["k"])
        if c["pc"]["seed"] % 4 == 0:
            del opts["k"]                       # the default number of bands
    n = s.num_orb
    orb = [i for i in c.get("orb", []) if i < n]
    if orb:
        orb = (list, tuple, set, np.array)[c["form"]](orb)
    else:
        orb = None
    out = []
    if c["via"] and kind in ("sample", "bands", "dos", "proj", "arpack") and what != "states":
        if kind != "sample":
            model = models.build_pc(c["pc"])
        if what == "dos":
            return ("plain", list(model.calc_dos(k, enable_mpi=mpi, orbital_indices=orb, **c["dos"], **opts)))
        return ("plain", list(model.calc_bands(k, enable_mpi=mpi, **opts)))
    for _ in range(2 if c["repeat"] else 1):
        if what in ("bands", "proj"):
            r = s.calc_bands(k, orbital_indices=orb, **opts)
            out += [r.k_len, r.bands, r.proj]
        elif what == "dos":
            e, d = s.calc_dos(k, orbital_indices=orb, **c["dos"], **opts)
            out += [e, d]
        else:
            b, v = s.calc_states(k, **opts)
            return ("states", [b, v])
    return ("plain", out)


def sorted_phases(ph):
    """Phases of one kb are a set: order them along the circle."""
    return np.sort(np.mod(ph + 1e-7, 2 * np.pi), axis=1)


def compare(c, tol):
    def cmp(p, got, ref):
        kind = ref[0]
        who = "%s of %d" % (p.name, len(p.world.procs))
        if kind == "states":
            rb, rv = ref[1]
            b, v = got[1]
            ok, msg = close(np.sort(b, axis=1), np.sort(rb, axis=1), rtol=tol, atol=tol)
            if not ok:
                raise Violation("wrong-result", "energies on %s: %s" % (who, msg))
            if v.shape != rv.shape:
                raise Violation("wrong-result", "states on %s have shape %s" % (who, v.shape))
            for i in range(b.shape[0]):
                # H built from the reference states: H = sum_b E |b><b| (complete orthonormal set)
                if rv.shape[1] == rv.shape[2] and c["kind"] != "overlap":
                    h = np.einsum("b,bi,bj->ij", rb[i], rv[i], rv[i].conj())
                    res = np.abs(h @ v[i].T - v[i].T * b[i]).max()
                    orth = np.abs(v[i].conj() @ v[i].T - np.eye(v.shape[1])).max()
                    if not (res < 1e-8 and orth < 1e-8):
                        raise Violation("wrong-result", "states of k-point %d on %s are not eigenstates (residual %.1e, "
                                        "orthonormality %.1e)" % (i, who, res, orth))
                else:
                    # same subspace per state unless degenerate: compare weights
                    gaps = np.abs(np.subtract.outer(rb[i], rb[i])) + 10 * np.eye(len(rb[i]))
                    if gaps.min() > 1e-4:
                        o1, o2 = np.argsort(b[i]), np.argsort(rb[i])
                        ok, msg = close(np.abs(v[i][o1]), np.abs(rv[i][o2]), rtol=1e-4, atol=1e-4)
                        if not ok:
                            raise Violation("wrong-result", "states of k-point %d on %s: %s" % (i, who, msg))
            return
        a, b = got[1], ref[1]
        if len(a) != len(b):
            raise Violation("wrong-result", "%d outputs instead of %d" % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            if kind == "phases" and i == 1:
                if x.shape == y.shape:
                    d = np.abs(np.exp(1j * sorted_phases(x)) - np.exp(1j * sorted_phases(y)))
                    ok, msg = bool((d < 1e-6).all()), "phases differ by %.2e" % (d.max() if d.size else 0)
                else:
                    ok, msg = False, "shape %s" % (x.shape,)
            else:
                ok, msg = close(x, y, rtol=tol, atol=tol)
            if not ok:
                raise Violation("wrong-result", "%s: output %d on %s: %s" % (c["kind"], i, who, msg))
    return cmp


def run(t, st):
    c = gen(t)
    items = c.get("nkb", len(c["kpts"]))
    size = draw_size(t, items=items)
    st.descr = {"case": c["kind"], "n_k": items, "ranks": size}
    ref = serial(calc, c, False)
    if ref[0] == "error":
        raise ref[1]
    w, job = run_ranks(t, st, size, lambda p: calc(c, True))
    st.hit("case:" + c["kind"])
    if size > items:
        st.hit("more_ranks_than_items")
    st.mix(c["kind"], size, items)
    st.nontrivial = size > 1
    tol = 1e-4 if c["kind"] == "overlap" and c.get("what") == "arpack" else (1e-7 if c["kind"] == "arpack" else 1e-9)
    judge(w, ref, c["kind"], compare(c, tol))
