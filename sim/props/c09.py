"""C09: native results do not depend on previous memory contents or calls."""
import gc

import numpy as np

from .. import kernels, loader
from ..core import Violation

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 3000, 150000
RULE = ("every native entry point (Fortran and Cython) on random models, in fresh memory that contains NaN, small, huge "
        "or integer garbage (heap, NumPy buffers and stack), after 0-3 other calculations; non-trivial: at least one "
        "poisoned allocation")
ASSUMPTIONS = ["the reference run in the freshly forked process with unpoisoned memory is the intended result"]
COMPONENTS = {"real": "Fortran (-O2) and Cython kernels from /repo's working tree, tbplas Python code",
              "simulated": "contents of newly allocated memory (malloc, NumPy data allocator, stack), OpenMP runtime "
              "(team of 1-4, no preemption)"}


def compare(c, got, ref, tol, what):
    if len(got) != len(ref):
        raise Violation("wrong-result", "%s: %d outputs instead of %d" % (c["kind"], len(got), len(ref)))
    for i, (a, b) in enumerate(zip(got, ref)):
        if a.shape != b.shape:
            raise Violation("wrong-result", "%s: shape %s instead of %s" % (c["kind"], a.shape, b.shape))
        bad = ~(np.abs(a - b) <= tol[i])
        if bad.any():
            j = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("memory-dependent", "%s %s: output %d element %s is %s instead of %s" % (
                c["kind"], what, i, j, a[j], b[j]))


def run(t, st):
    import simmem
    c = kernels.gen(t, kernels.KINDS + kernels.CY, small=False)
    hist = [kernels.gen(t, kernels.KINDS + kernels.CY) for _ in range(t.draw("hist", 4))]
    mode = t.weighted("mem", [(1, 3), (2, 3), (3, 2), (4, 2)])
    seed = t.draw("mem", 1 << 40) + 1
    team = t.weighted("mem", [(1, 3), (2, 1), (4, 1)])
    omp = loader.omp
    omp.config(team=1)
    ref, ch, tol = kernels.reference(c)
    st.descr = {"kernel": c["kind"], "memory": mode, "history": [h["kind"] for h in hist]}
    st.hit("case:" + c["kind"])
    if ch:
        raise Violation("input-modified", "%s modified input array %s" % (c["kind"], ch))
    if tol is None:
        st.hit("ill_conditioned_skipped")
        return
    gc.collect()
    omp.config(seed=seed, team=team, mem=mode, mem_seed=seed)
    simmem.set(mode, seed)
    try:
        for h in hist:
            omp.poison_stack()
            kernels.calc(h)
        omp.poison_stack()
        got, ch = kernels.calc(c)
        omp.poison_stack()
        again, ch2 = kernels.calc(c)
        n = int(omp.stats()["mallocs"]) + int(simmem.count())
    finally:
        simmem.set(0, 1)
        omp.config(team=1)
    st.hit("fault:poisoned_allocation", n)
    st.hit("fault:memory_mode_%d" % mode)
    st.mix(c["kind"], mode, team, [h["kind"] for h in hist], seed)
    st.nontrivial = n > 0
    if ch or ch2:
        raise Violation("input-modified", "%s modified input array %s" % (c["kind"], ch or ch2))
    compare(c, got, ref, tol, "in memory with stale data")
    compare(c, again, got, tol, "when repeated")
