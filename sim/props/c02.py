"""C02: response functions do not depend on the number of processes."""
import numpy as np

from .. import models
from ..mpirun import draw_size, judge, run_ranks
from ..util import serial

QUICK_RUNS, THOROUGH_RUNS = 6000, 60000
RULE = ("random primitive cell, k-mesh (1-18 points), 1-4 q-points (also zero, repeated, as lists), back end, dimension, 1-17 ranks, drawn schedule; "
        "non-trivial: at least two ranks")
ASSUMPTIONS = ["the collective library itself is correct (it is simulated); floating-point sums may be reordered"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code from /repo's working tree, NumPy, SciPy/LAPACK",
              "simulated": "MPI, process scheduling, clocks, OpenMP runtime (team of 1)"}


def gen(t):
    c = {"kind": t.choice("kind", ["regular", "arbitrary", "ac", "epsilon", "epsilon_q0", "mixed"])}
    c["pc"] = models.pc_spec(t, min_orb=1, max_orb=4)
    if t.chance("model", 1, 8):
        c["pc"] = {"kind": "graphene", "n": 2}
    c["dim"] = 3 if c["kind"] == "epsilon_q0" else t.choice("opt", [2, 3])
    c["mesh"] = [t.between("opt", 1, 3), t.between("opt", 1, 3), 1 if c["dim"] == 2 else t.between("opt", 1, 2)]
    c["nq"] = t.between("opt", 1, 4)
    c["qseed"] = t.draw("opt", 1 << 30)
    c["fortran"] = not t.chance("opt", 1, 2)
    c["comp"] = t.choice("opt", [a + b for a in "xyz" for b in "xyz"])
    c["par"] = dict(energy_min=t.choice("opt", [0.0, 0.5]), energy_max=4.0, energy_step=t.between("opt", 1, 8),
                    mu=t.real("opt", -1, 1), temperature=t.choice("opt", [300.0, 3000.0]), g_s=t.between("opt", 1, 2),
                    back_epsilon=t.choice("opt", [1.0, 2.5]), delta=t.choice("opt", [0.005, 0.1]))
    c["twice"] = t.chance("opt", 1, 4)
    c["special"] = t.choice("opt", [None, None, "zero", "same"])     # unusual q-points
    c["lists"] = t.chance("opt", 1, 4)                               # sequences instead of arrays
    if t.chance("big", 1, 40):                                       # larger meshes and grids
        c["mesh"][:2] = [t.between("big", 1, 9), t.between("big", 1, 9)]
        c["par"]["energy_step"] = t.choice("big", [40, 300])
        c["nq"] = t.between("big", 1, 12)
    return c


def kind_ok(c):
    """The Coulomb potential of q = 0 is infinite."""
    return c["kind"] != "epsilon"


def calc(c, mpi):
    import tbplas as tb
    cell = models.build_pc(c["pc"])
    s = tb.Lindhard(cell, kmesh_size=tuple(c["mesh"]), dimension=c["dim"], enable_mpi=mpi, **c["par"])
    g = models.rnd(c["qseed"])
    qg = g.integers(-3, 4, (c["nq"], 3))
    if c["dim"] == 2:
        qg[:, 2] = 0
    qc = np.round(g.uniform(-3, 3, (c["nq"], 3)), 3)
    if c["special"] == "zero":
        qg[-1] = 0
        if kind_ok(c):
            qc[-1] = 0.0
    elif c["special"] == "same":
        qg[-1], qc[-1] = qg[0], qc[0]
    if c["lists"]:
        qg, qc = qg.tolist(), qc.tolist()
    out = []
    kind = c["kind"]
    for rep in range(2 if c["twice"] else 1):
        if kind in ("regular", "mixed"):
            out += list(s.calc_dyn_pol_regular(qg, use_fortran=c["fortran"]))
        if kind in ("arbitrary", "mixed"):
            out += list(s.calc_dyn_pol_arbitrary(qc, use_fortran=c["fortran"]))
        if kind == "epsilon":
            _, dp = s.calc_dyn_pol_arbitrary(qc, use_fortran=c["fortran"])
            out += [s.calc_epsilon(qc, dp)]
        if kind in ("ac", "mixed"):
            out += list(s.calc_ac_cond(c["comp"], use_fortran=c["fortran"]))
        if kind == "epsilon_q0":
            om, ac = s.calc_ac_cond(c["comp"], use_fortran=c["fortran"])
            out += [s.calc_epsilon_q0(om + 0.1, ac)]
    return [np.array(x) for x in out]


def run(t, st):
    c = gen(t)
    items = int(np.prod(c["mesh"]))
    size = draw_size(t, items=items)
    st.descr = {"case": c["kind"], "mesh": c["mesh"], "n_q": c["nq"], "fortran": c["fortran"], "ranks": size}
    ref = serial(calc, c, False)
    if ref[0] == "error":
        raise ref[1]
    w, job = run_ranks(t, st, size, lambda p: calc(c, True))
    st.hit("case:" + c["kind"])
    if size > items:
        st.hit("more_ranks_than_items")
    st.mix(c["kind"], size, items, c["nq"])
    st.nontrivial = size > 1
    judge(w, ref, c["kind"])
