"""C05: post-processing gives every process the single-process answer."""
import numpy as np

from .. import models, tbpm
from ..core import Violation
from ..mpirun import draw_size, judge, run_ranks
from ..util import serial

QUICK_RUNS, THOROUGH_RUNS = 7000, 120000
RULE = ("random sample, configuration and correlation functions, 1-4 analysis calls in a row on one analyser, 1-17 ranks, "
        "drawn schedule, stalls and clock skew; non-trivial: at least two ranks")
ASSUMPTIONS = ["all processes pass the same correlation functions (as the solver returns them)"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code from /repo's working tree, NumPy/SciPy",
              "simulated": "MPI, process scheduling, clocks, OpenMP runtime (team of 1)"}
KINDS = ["dos", "ldos", "ac", "dyn_pol", "epsilon", "eps_q0", "dc", "diff", "hall"]


def gen(t):
    c = {"sample": models.sample_spec(t, connected=False), "conf": tbpm.config_spec(t, max_steps=8)}
    c["dim"] = t.between("opt", 2, 3)
    c["kinds"] = [t.choice("kind", KINDS) for _ in range(t.between("kind", 1, 4))]
    c["win"] = t.choice("opt", [None, "window_hanning", "window_exp", "window_exp_ten"])
    c["order"] = t.choice("opt", ["C", "F"])
    c["seed"] = t.draw("opt", 1 << 30)
    c["values"] = t.weighted("opt", [("random", 6), ("real", 1), ("zero", 1), ("huge", 1)])
    if t.chance("opt", 1, 10):
        c["conf"]["elim"] = (100.0, 101.0)                     # no energy is selected
    c["unit"] = t.choice("opt", ["h_bar", "h"])
    tbpm.enlarge(t, c)
    return c


def calc(c, mpi):
    import tbplas as tb
    smp = models.build_sample(c["sample"])
    conf = tbpm.build_config(c["conf"], smp.num_orb)
    a = tb.Analyzer(smp, conf, dimension=c["dim"], enable_mpi=mpi)
    n, nq = c["conf"]["steps"], c["conf"]["nq"]
    g = models.rnd(c["seed"])
    w = {} if c["win"] is None else {"window": getattr(tb, c["win"])}

    def arr(*shape, cplx=True):
        x = g.normal(size=shape)
        if cplx:
            x = x + 1j * g.normal(size=shape)
        if c["values"] == "real":
            x = np.real(x).astype(x.dtype)
        elif c["values"] == "zero":
            x[..., 1:] = 0.0
        elif c["values"] == "huge":
            x *= 10.0 ** g.integers(-200, 200, shape[-1])
        return np.array(x, order=c["order"])

    out = []
    for k in c["kinds"]:
        args = []
        if k in ("dos", "ldos"):
            args = [arr(n + 1)]
            r = (a.calc_dos if k == "dos" else a.calc_ldos)(*args, **w)
        elif k == "ac":
            args = [arr(4, n)]
            r = a.calc_ac_cond(*args, **w)
        elif k == "dyn_pol":
            args = [arr(nq, n, cplx=False)]
            r = a.calc_dyn_pol(*args, **w)
        elif k == "epsilon":
            args = [arr(nq, n)]
            r = (a.calc_epsilon(*args),)
        elif k == "eps_q0":
            if c["dim"] != 3:
                continue
            args = [np.abs(arr(n, cplx=False)) + 0.1, arr(4, n)]
            r = (a.calc_epsilon_q0(*args),)
        elif k in ("dc", "diff"):
            ne = tbpm.dc_indices(c["conf"], smp.energy_range)
            args = [arr(n), arr(2, ne, n)]
            r = a.calc_dc_cond(*args) if k == "dc" else a.calc_diff_coeff(args[1])
        else:
            args = [arr(c["conf"]["nk"], c["conf"]["nk"])]
            r = a.calc_hall_cond(*args, unit=c["unit"])
        out += [np.array(x) for x in r]
    return out


def run(t, st):
    c = gen(t)
    size = draw_size(t)
    st.descr = {"analysis": c["kinds"], "dimension": c["dim"], "ranks": size}
    ref = serial(calc, c, False)
    if ref[0] == "error":
        raise ref[1]
    w, job = run_ranks(t, st, size, lambda p: calc(c, True))
    for k in c["kinds"]:
        st.hit("case:" + k)
    st.mix(c["kinds"], size)
    st.nontrivial = size > 1
    judge(w, ref, "+".join(c["kinds"]))
    for p in w.procs[1:]:
        for i, (x, y) in enumerate(zip(p.result, w.procs[0].result)):
            if x.tobytes() != y.tobytes():
                raise Violation("ranks-differ", "%s: output %d differs between rank 0 and %s" % (c["kinds"], i, p.name))
