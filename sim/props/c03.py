"""C03: TBPM on P processes equals one process running all the samples."""
import numpy as np

from .. import models, tbpm
from ..core import Violation
from ..mpirun import draw_size, judge, run_ranks
from ..util import serial

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 5000, 80000
RULE = ("random sample (1-2 supercells, vacancies, extra and inter-supercell hoppings, magnetic field), random "
        "configuration, 1-17 ranks, 1-3 calculations in a row on one solver, drawn schedule, stalls and clock skew; "
        "in some runs the samples 1-10 of a calculation are compared with each other; "
        "non-trivial: at least two ranks")
ASSUMPTIONS = ["seed > 0 (seed 0 makes every random sample identical by construction), up to 31 bits",
               "floating-point sums over processes may be reordered"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code from /repo's working tree, NumPy/SciPy, local file system",
              "simulated": "MPI, process scheduling, clocks, OpenMP runtime (team of 1)"}


def gen(t):
    c = {"sample": models.sample_spec(t), "conf": tbpm.config_spec(t)}
    n = t.weighted("kind", [(1, 3), (2, 1), (3, 1)])
    c["kinds"] = [t.choice("kind", tbpm.KINDS) for _ in range(n)]
    tbpm.enlarge(t, c)
    return c


def calc(c, mpi, size=1, prefix="p"):
    import tbplas as tb
    smp = models.build_sample(c["sample"])
    total = c["conf"]["samples"]
    total = -(-total // size) * size
    conf = tbpm.build_config(c["conf"], smp.num_orb, samples=None if mpi else total)
    s = tb.Solver(smp, conf, enable_mpi=mpi, directory="out", prefix=prefix)
    out = []
    for k in c["kinds"]:
        out += tbpm.call(s, k, c["conf"], smp.num_orb)
    return [np.array(x) for x in out], int(conf.generic["nr_random_samples"])


def samples_of(c, n):
    """The contributions of samples 1..n to a calculation, from runs with 1..n samples."""
    import tbplas as tb
    smp = models.build_sample(c["sample"])
    means = []
    for k in range(1, n + 1):
        conf = tbpm.build_config(c["conf"], smp.num_orb, samples=k)
        s = tb.Solver(smp, conf, directory="out", prefix="one")
        means.append(np.concatenate([np.ravel(x) for x in tbpm.call(s, c["kinds"][0], c["conf"], smp.num_orb)]))
    one = [means[0]] + [(k + 1) * means[k] - k * means[k - 1] for k in range(1, n)]
    h = np.zeros((smp.num_orb, smp.num_orb), complex)
    smp.set_ham_dense(np.zeros(3), h)
    return one, np.linalg.eigvalsh(h)


def distinct(t, st):
    """No two random samples of a calculation are the same."""
    c = gen(t)
    if t.chance("kind", 1, 2):
        c["kinds"] = ["dos"]
    kind = c["kinds"][0]
    n = t.between("kind", 2, 10)
    c["conf"]["seed"] = t.weighted("kind", [(c["conf"]["seed"], 8), (1, 2), (2, 1), (2 ** 31 - 1 - 2 * c["conf"]["seed"], 4), (2 ** 30, 1)])
    st.descr = {"calculation": kind, "samples": n, "seed": c["conf"]["seed"]}
    r = serial(samples_of, c, n)
    if r[0] == "error":
        raise r[1]
    one, eng = r[1]
    st.hit("samples_compared", n)
    st.mix("distinct", kind, n)
    scale = max(np.abs(x).max() if x.size else 0.0 for x in one)
    if not np.isfinite(scale):
        return
    same = [(i, j) for i in range(n) for j in range(i) if np.abs(one[i] - one[j]).max(initial=0.0) <= 1e-9 * scale]
    # some models give every sample the same contribution; a density of states with two levels depends on the sample
    if len(same) == n * (n - 1) // 2 and not (kind == "dos" and eng[-1] - eng[0] > 0.5):
        return
    if same:
        i, j = same[0]
        raise Violation("duplicate-sample", "samples %d and %d of %s are identical (seed %d )" %
                        (j + 1, i + 1, kind, c["conf"]["seed"]))


def run(t, st):
    if t.chance("kind", 1, 12):
        return distinct(t, st)
    c = gen(t)
    size = draw_size(t, items=c["conf"]["samples"])
    st.descr = {"calculations": c["kinds"], "samples": c["conf"]["samples"], "ranks": size, "seed": c["conf"]["seed"]}
    ref = serial(calc, c, False, size, "ref")
    if ref[0] == "error":
        raise ref[1]
    w, job = run_ranks(t, st, size, lambda p: calc(c, True))
    for k in c["kinds"]:
        st.hit("case:" + k)
    if c["conf"]["samples"] % size:
        st.hit("samples_rounded_up")
    st.mix(c["kinds"], size, c["conf"]["samples"])
    st.nontrivial = size > 1
    if w.problem is None:
        for p in w.procs:
            if p.exc is None and p.result[1] != ref[1][1]:
                raise Violation("sample-count", "%s worked on %d samples in total instead of %d for %d processes" %
                                (p.name, p.result[1], ref[1][1], size))
            if p.exc is None:
                p.result = p.result[0]
    judge(w, ("ok", ref[1][0]), "+".join(c["kinds"]))
