"""C13: concurrent processes and jobs do not trip over each other's output."""
import os
import re

import numpy as np

from .. import models, tbpm
from ..core import Violation
from ..storage import Storage, _exists
from ..util import close, quiet, serial
from ..world import World

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 5000, 100000
RULE = ("2-4 jobs of 1-3 ranks (with or without MPI) with different prefixes started together in one output directory that "
        "may or may not exist, random calculations, drawn interleaving of all storage operations and collectives, "
        "clock skew, stalls, short writes; or one job of 2-5 ranks which prints, logs, plots and saves a sample "
        "from every rank; non-trivial: at least two processes")
ASSUMPTIONS = ["jobs started together are given different prefixes", "drawing of figures is replaced by a recorder "
               "(matplotlib state is per process)"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code, NumPy, local file system in a scratch directory",
              "simulated": "MPI, process scheduling, file operations, clocks", "stub": "Figure.savefig, pyplot.show"}


def run(t, st):
    if t.chance("mode", 1, 3):
        return one_job(t, st)
    return jobs(t, st)


def jobs(t, st):
    import tbplas as tb
    nj = t.between("mode", 2, 4)
    directory = t.choice("mode", ["out", "sim_data"])
    specs = []
    for j in range(nj):
        size = t.weighted("P", [(1, 3), (2, 2), (3, 1)])
        specs.append({"size": size, "mpi": size > 1 or t.chance("P", 1, 3), "sample": models.sample_spec(t, max_dim=2),
                      "conf": tbpm.config_spec(t, max_samples=3, max_steps=5),
                      "kinds": [t.choice("kind", tbpm.KINDS) for _ in range(t.between("kind", 1, 2))],
                      "prefix": "job%d" % j})
        if t.chance("kind", 1, 30):                            # a result of 5000 numbers
            specs[-1]["kinds"] = ["hall"]
            specs[-1]["conf"].update(nk=71, samples=1)
    if t.chance("mode", 1, 3):
        specs[t.draw("mode", nj)]["prefix"] = None            # a time stamp: differs from the other jobs' prefixes
    if t.chance("mode", 1, 4):
        os.mkdir(directory)
    st.descr = {"jobs": [(s["size"], s["mpi"], s["kinds"], s["prefix"]) for s in specs]}

    def calc(s, mpi, directory, total=None, prefix="x", check=None):
        smp = models.build_sample(s["sample"])
        c = tbpm.build_config(s["conf"], smp.num_orb, samples=total)
        kw = {} if prefix is None else {"prefix": prefix}
        sol = tb.Solver(smp, c, enable_mpi=mpi, directory=directory, **kw)
        if check is not None:
            check()
        out = []
        for k in s["kinds"]:
            out.append(tbpm.call(sol, k, s["conf"], smp.num_orb, **({"save_data": True} if k == "qe" else {})))
        return out

    refs = []
    for j, s in enumerate(specs):
        total = -(-s["conf"]["samples"] // s["size"]) * s["size"]
        r = serial(calc, s, False, "ref%d" % j, total)
        if r[0] == "error":
            raise r[1]
        refs.append(r[1])
    w = World(t, st)

    def main(p):
        s = specs[p.job.index]

        def check():
            if not _exists(directory):
                w.fail("no-directory", "%s proceeds although the output directory does not exist yet" % p.name)
        return calc(s, s["mpi"], directory, prefix=s["prefix"], check=check)

    for s in specs:
        w.add_job(s["size"], main)
    w.choose_policy()
    if t.chance("clock", 2, 3):
        w.skew_clocks()
    disk = Storage(t, st, world=w)
    if t.chance("fault", 1, 3):
        disk.short = t.between("fault", 5, 60)
    with disk:
        w.run()
    st.mix([(i, x) for _, i, x in w.log])
    st.nontrivial = True
    if w.problem is not None:
        raise Violation(w.problem.cls, w.problem.msg)
    for p in w.procs:
        if p.exc is not None:
            raise Violation("job-failed", "%s of %d jobs failed: %s: %s" %
                            (p.name, nj, type(p.exc).__name__, p.exc))
        if p.rank != 0 and p.out:
            raise Violation("printed-twice", "%s, which is not the master, printed %r" % (p.name, "".join(p.out)[:80]))
        if p.rank == 0 and not p.out:
            raise Violation("not-printed", "%s, the master, printed nothing" % p.name)
    for name, rank, op, rel in disk.log:
        if rank != 0 and op in ("write", "create", "mkdir", "rename", "replace", "unlink"):
            raise Violation("not-master", "%s does %s on %s" % (name, op, rel))
    files = sorted(os.listdir(directory))
    own = {s["prefix"] for s in specs}
    stamps = sorted({f.split(".")[0] for f in files} - own)
    if None in own and len(stamps) != 1:
        raise Violation("names-disagree", "one job without a prefix left files under %s" % stamps)
    for j, s in enumerate(specs):
        pre = s["prefix"] if s["prefix"] is not None else stamps[0]
        last = {}
        for i, k in enumerate(s["kinds"]):
            for n, key in enumerate(tbpm.FILES[k]):
                last[key] = (i, n)
        for key, (i, n) in last.items():
            path = "%s/%s.%s.npy" % (directory, pre, key)
            try:
                a = np.load(path)
            except Exception as e:
                raise Violation("result-missing", "result %s of job %d: %s: %s" % (path, j, type(e).__name__, e))
            for r in range(s["size"]):
                res = w.jobs[j].procs[r].result
                ok, msg = close(a, res[i][n])
                if not ok:
                    raise Violation("foreign-result", "%s is not what job %d computed: %s" % (path, j, msg))
            ok, msg = close(a, refs[j][i][n])
            if not ok:
                raise Violation("wrong-result", "%s of job %d: %s" % (path, j, msg))
        path = "%s/%s.config.pkl" % (directory, pre)
        with quiet():
            c = tb.read_config(path)
        if c.generic["seed"] != s["conf"]["seed"]:
            raise Violation("foreign-config", "%s is not the configuration of job %d" % (path, j))
        st.hit("job_verified")


def one_job(t, st):
    """All ranks of one job print, log, plot and save the same sample."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import tbplas as tb
    size = t.between("P", 2, 5)
    acts = [t.choice("act", ["print", "log", "plot", "wfc", "plot3d", "scalar", "vector", "phases", "bands", "save", "save"])
            for _ in range(t.between("act", 1, 3))]
    if t.chance("act", 1, 2):
        acts = [a for a in acts if a in ("print", "log", "save")] + ["save"]
    st.descr = {"ranks": size, "actions": acts}
    spec = models.sample_spec(t, max_dim=2, connected=False)
    more = [t.draw("act", 4) for _ in acts]       # options of the plots
    shown, decorated = [], []
    w = World(t, st)

    def savefig(self, fname, **kw):
        p = w.current
        shown.append((p.rank, str(fname)))
        with open(fname, "wb") as f:
            f.write(b"figure")

    def show(*a, **kw):
        shown.append((w.current.rank, "show"))

    def main(p):
        v = tb.Visualizer(enable_mpi=True)
        smp = models.build_sample(spec)
        smp.init_orb_pos()
        names = []
        for i, a in enumerate(acts):
            fig = None if (i + size) % 4 == 0 else "fig%d.png" % i
            g = models.rnd(i)
            x = np.arange(8.0)
            opt = more[i]
            kw = {"beautifier": lambda: decorated.append((p.rank, i))} if opt & 2 else {}
            if a == "print":
                v.print("message %d" % i)
                v.print()
            elif a == "log":
                v.log("event %d" % i)
                v.log(fmt="%H")
                v.log("", "%Y")
            elif a == "plot" and opt & 1:
                v.plot_dos(x, x, fig_name=fig, **kw)
            elif a == "plot":
                v.plot_xy(x, x, fig_name=fig, x_label="x", y_label="y", x_lim=(0, 1), y_lim=(0, 1), **kw)
            elif a == "bands":
                v.plot_bands(x, np.outer(x, [1, 2]), np.array([0, 7]), ["A", "B"], fig_name=fig, **kw)
            elif a == "phases":
                v.plot_phases(np.arange(4) / 4.0, g.normal(size=(4, 2)), fig_name=fig, polar=bool(opt & 1),
                              scatter=opt == 0, **kw)
            elif a == "scalar":
                v.plot_scalar(g.normal(size=12), g.normal(size=12), g.normal(size=12), fig_name=fig, scatter=bool(opt & 1),
                              with_colorbar=opt == 3, **kw)
            elif a == "vector":
                if opt & 1:
                    kw["model"] = smp
                v.plot_vector(g.normal(size=12), g.normal(size=12), g.normal(size=12), g.normal(size=12), fig_name=fig, **kw)
            elif a == "wfc" and opt & 1:
                v.plot_wfc(tb.make_graphene_diamond(), g.normal(size=2), fig_name=fig, scatter=True, **kw)
            elif a == "wfc":
                v.plot_wfc(smp, g.normal(size=smp.num_orb), fig_name=fig, with_model=opt == 0, **kw)
            elif a == "plot3d":
                pc = tb.make_graphene_diamond()
                if opt & 1:
                    kw = {"rn_max": np.zeros(3, dtype=int), "cube_size": np.array([.04, .04, .04]), "resolution": .02}
                else:
                    kw = {"resolution": 0.4}
                v.plot_wfc3d(pc, np.array([1, 1j]), np.array([[6, 2, 1, 0], [6, 2, 1, 0]]), cube_name="wfc%d.cube" % i, **kw)
            elif a == "save":
                smp.save_array("snap%d" % (i % 2))
        return True

    w.add_job(size, main)
    w.choose_policy()
    if t.chance("clock", 2, 3):
        w.skew_clocks()
    disk = Storage(t, st, world=w)
    if t.chance("fault", 1, 3):
        disk.short = t.between("fault", 5, 60)
    old = matplotlib.figure.Figure.savefig, plt.show
    matplotlib.figure.Figure.savefig, plt.show = savefig, show
    try:
        with disk:
            w.run()
    finally:
        matplotlib.figure.Figure.savefig, plt.show = old
    st.mix(acts, [(i, x) for _, i, x in w.log])
    st.nontrivial = True
    if w.problem is not None:
        raise Violation(w.problem.cls, w.problem.msg)
    for p in w.procs:
        if p.exc is not None:
            raise Violation("rank-failed", "%s of %d failed: %s: %s (actions %s)" %
                            (p.name, size, type(p.exc).__name__, p.exc, acts))
        text = "".join(p.out)
        if p.rank != 0 and text:
            raise Violation("printed-twice", "%s, which is not the master, printed %r" % (p.name, text[:80]))
        if p.rank == 0:
            for i, a in enumerate(acts):
                if a in ("print", "log"):
                    n = len(re.findall(r"(message|event) %d\b" % i, text))
                    if n != 1:
                        raise Violation("message-count", "message %d appears %d times in the master's output" % (i, n))
    nplot = sum(1 for a in acts if a not in ("print", "log", "save", "plot3d"))
    if any(r != 0 for r, _ in shown) or len(shown) != nplot:
        raise Violation("figure-count", "%d plots produced figures %s (rank, file)" % (nplot, shown))
    want = [(0, i) for i, a in enumerate(acts) if more[i] & 2 and a not in ("print", "log", "save", "plot3d")]
    if decorated != want:
        raise Violation("figure-count", "figures beautified by (rank, action) %s instead of %s" % (decorated, want))
    for name, rank, op, rel in disk.log:
        if rank != 0 and op in ("write", "create") and not rel.startswith("snap"):
            raise Violation("not-master", "%s does %s on %s" % (name, op, rel))
    for i, a in enumerate(acts):
        if a == "plot3d" and not (os.path.exists("wfc%d.cube" % i) and os.path.getsize("wfc%d.cube" % i) > 100):
            raise Violation("figure-missing", "cube file of action %d" % i)
    for r, f in shown:
        if f != "show" and not os.path.exists(f):
            raise Violation("figure-missing", f)
    with quiet():
        ref = models.build_sample(spec)
        ref.init_orb_pos()
        for i in range(2):
            if not any(a == "save" and k % 2 == i for k, a in enumerate(acts)):
                continue
            s = models.build_sample(spec, rescale=False)
            try:
                s.load_array("snap%d" % i)
            except Exception as e:
                raise Violation("save-unreadable", "saved by %d ranks at once: %s: %s" % (size, type(e).__name__, e))
            for k in ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr"):
                if not np.array_equal(getattr(s, k) if getattr(s, k) is not None else np.zeros(0), getattr(ref, k)):
                    raise Violation("save-incomplete", "%s saved by %d ranks at once does not load back" % (k, size))
            if s.rescale != ref.rescale:
                raise Violation("save-incomplete", "rescale saved by %d ranks at once does not load back" % size)
            st.hit("snapshot_verified")
