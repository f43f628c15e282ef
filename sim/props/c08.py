"""C08: native kernels do not depend on the number or interleaving of OpenMP threads."""
import numpy as np

from .. import kernels, loader
from ..core import Violation

VARIANT = "omp"
SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 3500, 60000
RULE = ("every native entry point on random models; team of 2-9 simulated threads (fixed or changing from region to "
        "region), preempted at drawn memory accesses (mean distance 1 to 3000 accesses), drawn wake-up order; "
        "non-trivial: at least one preemption inside a parallel region")
ASSUMPTIONS = ["accesses are sequentially consistent: one simulated thread runs at a time, so effects of weak memory "
               "ordering are not produced", "results may differ by floating-point summation order"]
COMPONENTS = {"real": "Fortran kernels from /repo's working tree compiled with -O0 -fopenmp -fsanitize=thread, tbplas "
              "Python code", "simulated": "OpenMP runtime (libgomp), thread scheduling"}


def run(t, st):
    import tbplas                                              # noqa
    c = kernels.gen(t, kernels.KINDS)
    team = t.weighted("omp", [(2, 3), (3, 3), (4, 2), (5, 1), (7, 1), (9, 1), (-5, 2)])
    rate = t.choice("omp", [1, 3, 10, 50, 300, 3000])
    order = t.draw("omp", 2)
    seed = t.draw("omp", 1 << 40) + 1
    omp = loader.omp
    omp.config(team=1)
    ref, _, tol = kernels.reference(c)
    st.descr = {"kernel": c["kind"], "team": team, "mean_distance": rate}
    st.hit("case:" + c["kind"])
    if tol is None:
        st.hit("ill_conditioned_skipped")
        return
    omp.config(seed=seed, team=team, rate=rate, order=order)
    sw = t.replay.get("switch") if t.replay is not None else None
    if sw:
        omp.replay([(x // 16, x % 16) for x in sw])
    got, _ = kernels.calc(c)
    s = omp.stats()
    rec = omp.switches()
    omp.config(team=1)
    if rec is not None and len(rec) < 20000:
        t.rec["switch"] = [e * 16 + to for e, to in rec]
    st.hit("fault:preemption", s["switches"])
    st.hit("regions", s["multi"])
    st.mix(c["kind"], team, s["hash"])
    st.nontrivial = s["switches"] > 0
    if len(got) != len(ref):
        raise Violation("wrong-result", "%s: %d outputs instead of %d" % (c["kind"], len(got), len(ref)))
    for i, (a, b) in enumerate(zip(got, ref)):
        if a.shape != b.shape:
            raise Violation("wrong-result", "%s: shape %s instead of %s" % (c["kind"], a.shape, b.shape))
        bad = ~(np.abs(a - b) <= tol[i])
        if bad.any():
            j = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("thread-dependent", "%s with %d threads: output %d element %s is %s instead of %s" % (
                c["kind"], s["maxteam"], i, j, a[j], b[j]))
