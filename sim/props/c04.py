"""C04: every parallel calculation terminates with matching collectives on all ranks."""
import numpy as np

from .. import models, tbpm
from ..core import Violation
from ..mpirun import draw_size, run_ranks
from . import c01, c02, c03, c05

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 5000, 120000
RULE = ("1-4 drawn calculations (all diagonalisation, response, propagation and analysis calculators, and calculations "
        "that have to be refused) one after another in one job of 1-14 ranks, with stalled and skewed ranks; "
        "non-trivial: at least two ranks")
ASSUMPTIONS = ["arguments are the same on all processes"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code from /repo's working tree, NumPy/SciPy, local file system",
              "simulated": "MPI, process scheduling, clocks, OpenMP runtime (team of 1)"}
REFUSALS = ["bad_config", "bessel", "psi_t", "haydock", "hall_unit", "dimension", "states_solver"]


class Refused(Exception):
    pass


def refusal(kind, c, size):
    """Runs a calculation that has to fail; returns True if it failed cleanly."""
    import tbplas as tb
    smp = models.build_sample(c["sample"])
    conf = tbpm.build_config(c["conf"], smp.num_orb)
    try:
        if kind == "bad_config":
            conf.generic["no_such_parameter"] = 1
            tb.Solver(smp, conf, enable_mpi=True, directory="out", prefix="r")
        elif kind == "bessel":
            conf.generic["Bessel_max"] = 2
            tb.Solver(smp, conf, enable_mpi=True, directory="out", prefix="r").calc_corr_dos()
        elif kind in ("psi_t", "haydock"):
            if size == 1:
                return
            s = tb.Solver(smp, conf, enable_mpi=True, directory="out", prefix="r")
            tbpm.call(s, kind, c["conf"], smp.num_orb)
        elif kind == "hall_unit":
            tb.Analyzer(smp, conf, enable_mpi=True).calc_hall_cond(np.ones((3, 3), dtype=complex), unit="furlong")
        elif kind == "dimension":
            tb.Analyzer(smp, conf, dimension=5, enable_mpi=True)
        else:
            return
    except (ValueError, RuntimeError):
        return
    raise Refused(kind)


def gen(t):
    steps = []
    for _ in range(t.between("steps", 1, 3)):
        k = t.choice("steps", ["diag", "response", "tbpm", "analysis", "refusal", "env"])
        if k == "diag":
            steps.append((k, c01.gen(t)))
        elif k == "response":
            steps.append((k, c02.gen(t)))
        elif k == "tbpm":
            c = c03.gen(t)
            c["conf"]["samples"] = min(c["conf"]["samples"], 3)
            steps.append((k, c))
        elif k == "analysis":
            steps.append((k, c05.gen(t)))
        elif k == "refusal":
            steps.append((k, {"kind": t.choice("steps", REFUSALS), "sample": models.sample_spec(t, connected=False),
                              "conf": tbpm.config_spec(t, max_samples=2, max_steps=4)}))
        else:
            steps.append((k, {"n": t.between("steps", 1, 4)}))
    return steps


def name(s):
    k, c = s
    return k + ":" + ("+".join(c["kinds"]) if "kinds" in c else str(c.get("kind", "")))


def body(p, steps, size):
    from tbplas.parallel import MPIEnv
    for i, (k, c) in enumerate(steps):
        if k == "diag":
            c01.calc(c, True)
        elif k == "response":
            c02.calc(c, True)
        elif k == "tbpm":
            c03.calc(c, True, prefix="s%d" % i)
        elif k == "analysis":
            c05.calc(c, True)
        elif k == "refusal":
            refusal(c["kind"], c, size)
        else:
            env = MPIEnv(enable_mpi=True, echo_details=True)
            for j in range(c["n"]):
                env.log("step %d" % j)
                env.barrier()
        p.done_steps = i + 1
    return "finished"


def run(t, st):
    steps = gen(t)
    size = draw_size(t, items=t.choice("P", [3, 9, 12]))
    names = [name(s) for s in steps]
    st.descr = {"steps": names, "ranks": size}
    w, job = run_ranks(t, st, size, body, (steps, size))
    for n in names:
        st.hit("case:" + n.split(":")[0])
    st.mix(names, size)
    st.nontrivial = size > 1
    if w.problem is not None:
        raise Violation(w.problem.cls, "%s: %s" % (names, w.problem.msg))
    for p in w.procs:
        if isinstance(p.exc, Refused):
            raise Violation("not-refused", "%s was accepted on %s of %d processes" % (p.exc, p.name, size))
        if p.exc is not None:
            raise Violation("rank-failed", "%s: %s of %d failed with %s: %s" % (names, p.name, size,
                                                                              type(p.exc).__name__, p.exc))
        if p.result != "finished":
            raise Violation("rank-lost", "%s: %s did not finish" % (names, p.name))
