"""C11: an acknowledged calculation leaves its complete result on disk."""
import os
import sys

import numpy as np

from .. import models, tbpm
from ..core import HarnessError, Violation
from ..storage import Storage, draw_plan
from ..util import close, serial
from ..world import World

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 7000, 100000
RULE = ("random sample and configuration, 1-4 ranks, 1-2 successive jobs with one directory and prefix, 1-3 calculations "
        "each; per job a kill at a drawn scheduling step or storage operation, a power loss, a full disk or an I/O error, "
        "short writes; one run in 12 is a propagation that breaks down; non-trivial: a fault fired or several ranks")
ASSUMPTIONS = ["directory operations are ordered and survive a power loss; of file contents not synchronised a prefix "
               "survives, so a result acknowledged just before a power loss may be unreadable afterwards",
               "calc_corr_dos and calc_corr_dc_cond both announce corr_DOS (documented); the later one wins"]
COMPONENTS = {"real": "tbplas Python, Cython and Fortran code, NumPy file format code, local file system in a scratch "
                      "directory", "simulated": "MPI, process scheduling and death, file operations, clocks"}


PLACES = [("out", "p"), ("out", "q"), ("out", "p.corr_DOS"), ("out/sub", "p")]


def breakdown(t, st):
    """A propagation with a Hamiltonian outside of [-1, 1] must not look like a success."""
    import tbplas as tb
    spec = models.sample_spec(t, max_dim=2, connected=False)
    conf = tbpm.config_spec(t)
    kind = t.choice("kind", ["dos", "ldos", "ac", "dyn_pol", "dc", "qe", "psi_t"])
    st.descr = {"breakdown": kind}
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            smp = models.build_sample(spec, rescale=False)
            smp.init_orb_eng()
            smp.init_hop()
            smp.orb_eng = smp.orb_eng * 30.0
            smp.hop_v = smp.hop_v * 30.0
            c = tbpm.build_config(conf, smp.num_orb)
            c.generic["nr_time_steps"] = 64
            c.generic["wfn_check_steps"] = 3
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            s = tb.Solver(smp, c, directory="out", prefix="p")
            r = tbpm.call(s, kind, dict(conf, steps=8), smp.num_orb)
            with np.errstate(all="ignore"):
                code = 77 if all(np.isfinite(x).all() for x in r) else 78
        except BaseException:
            code = 3
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    st.hit("fault:breakdown")
    code = os.waitstatus_to_exitcode(status)
    if code in (0,):
        raise Violation("breakdown-success", "%s broke down but the process ended with exit status 0" % kind)
    st.hit("breakdown_status:%s:%d" % (kind, code))
    if code not in (77, 78):
        for key in tbpm.FILES[kind]:
            if os.path.exists("out/p.%s.npy" % key):
                raise Violation("breakdown-result", "%s broke down but left a result file" % kind)
    st.nontrivial = True
    st.mix("breakdown", kind, code)


def run(t, st):
    import tbplas as tb
    if t.chance("mode", 1, 12):
        return breakdown(t, st)
    size = t.weighted("P", [(1, 3), (2, 3), (3, 2), (4, 1)])
    spec = models.sample_spec(t, max_dim=2)
    if t.chance("big", 1, 25):
        spec["scs"][0]["dim"][0] += t.between("big", 4, 16)
    njobs = t.between("mode", 1, 2)
    kinds_all = tbpm.KINDS + (["haydock", "psi_t"] if size == 1 else [])
    prev = {}          # key -> list of arrays that may legitimately be there
    must = {}          # key -> array acknowledged last
    everywhere = set()
    st.descr = {"ranks": size, "jobs": []}
    pool_kinds = [t.choice("kind", kinds_all) for _ in range(2)]
    mpi = size > 1 or t.chance("mode", 1, 2)
    for j in range(njobs):
        conf = tbpm.config_spec(t, max_samples=3, max_steps=6)
        kinds = [t.choice("kind", pool_kinds) for _ in range(t.between("kind", 1, 3))]
        if t.chance("kind", 1, 40):                            # a result of 5000 numbers
            kinds = ["hall"]
            conf.update(nk=71, samples=1)
        savek = {k: t.chance("kind", 2, 3) for k in kinds}
        places = [("out", "p")]
        for _ in kinds[1:]:                                    # the output may be redirected in between
            places.append(t.choice("place", PLACES) if t.chance("place", 1, 5) else places[-1])
        everywhere |= set(places)

        def calc(ack, mpi, directory, total=None):
            smp = models.build_sample(spec)
            c = tbpm.build_config(conf, smp.num_orb, samples=total)
            s = tb.Solver(smp, c, enable_mpi=mpi, directory=directory, prefix="p")
            out = []
            for i, k in enumerate(kinds):
                if i and places[i] != places[i - 1] and directory == "out":
                    s.set_output(*places[i])
                kw = {"save_data": savek[k]} if k in ("qe", "psi_t") else {}
                ack("start", i, k, None)
                r = tbpm.call(s, k, conf, smp.num_orb, **kw)
                ack("end", i, k, r)
                out.append(r)
            return out

        total = -(-conf["samples"] // size) * size
        ref = serial(calc, lambda *a: None, False, "ref%d" % j, total)
        if ref[0] == "error":
            raise ref[1]
        ref = ref[1]
        events = []
        w = World(t, st)

        def rank_main(p):
            def ack(what, i, k, r):
                if not p.dead:
                    events.append((p.rank, what, i, k, None if r is None else [np.array(x) for x in r]))
            return calc(ack, mpi, "out")

        w.add_job(size, rank_main)
        w.choose_policy()
        w.abort_on_error = True
        disk = Storage(t, st, world=w)
        kind = draw_plan(t, disk, 14 + 10 * len(kinds), kinds=("none", "crash", "power", "enospc", "eio", "kill"),
                         cap_max=4000)
        if kind == "kill":
            w.kill_step = t.draw("fault", 40 + 60 * size)
        with disk:
            w.run()
        disk.settle()
        fired = list(disk.fired)
        killed = any(p.crashed for p in w.procs)
        st.mix(kinds, size, kind, [(i, x) for _, i, x in w.log], fired)
        st.descr["jobs"].append({"calculations": kinds, "fault": kind, "fired": [str(f) for f in fired][:3]})
        if w.problem is not None:
            raise Violation(w.problem.cls, w.problem.msg)
        for p in w.procs:
            if p.exc is not None and not fired and not killed:
                raise Violation("unexpected-failure", "%s failed without a fault: %r" % (p.name, p.exc))
            if p.exc is not None and not isinstance(p.exc, OSError):
                raise Violation("wrong-error", "%s failed with %r after %s" % (p.name, p.exc, fired))
        for name, rank, op, rel in disk.log:
            if rank != 0 and op in ("write", "create", "mkdir", "rename", "replace", "unlink"):
                raise Violation("not-master", "rank %d does %s on %s" % (rank, op, rel))
        # expectations per result file
        master = [e for e in events if e[0] == 0]
        for rank, what, i, k, r in master:
            fs = tbpm.FILES[k]
            if k in ("qe", "psi_t") and not savek[k]:
                fs = []
            for n, key in enumerate(fs):
                n = 1 if k == "haydock" else n
                key = places[i] + (key,)
                if what == "start":
                    prev.setdefault(key, []).append(np.array(ref[i][n]))
                    if key in must:
                        prev[key].append(must.pop(key))
                else:
                    must[key] = r[n]
                    prev.setdefault(key, []).append(r[n])
        if disk.power_lost:
            must.clear()
        # judge
        for key in sorted(pl + (f,) for pl in everywhere for f in set(sum(tbpm.FILES.values(), []))):
            path = "%s/%s.%s.npy" % key
            try:
                a = np.load(path)
            except FileNotFoundError:
                a = None
                if key in must:
                    raise Violation("result-missing", "%s was acknowledged but %s does not exist (fault %s, fired %s)" %
                                    (key[2], path, kind, fired))
                continue
            except Exception as e:
                st.hit("unreadable_result")
                if key in must:
                    raise Violation("result-unreadable", "%s was acknowledged but reading it fails with %s: %s (fault %s, "
                                    "fired %s)" % (key[2], type(e).__name__, e, kind, fired))
                continue
            if key in must:
                m = must[key]
                if a.shape != m.shape or a.dtype != m.dtype or not np.array_equal(a, m, equal_nan=True):
                    raise Violation("result-differs", "%s on disk is not the acknowledged result: %s" %
                                    (key[2], close(a, m)[1] or "dtype %s instead of %s" % (a.dtype, m.dtype)))
                st.hit("result_verified")
                continue
            if not any(close(a, b)[0] for b in prev.get(key, [])):
                raise Violation("wrong-result-file", "%s is readable but is neither an earlier result nor the new one "
                                "(fault %s, fired %s)" % (path, kind, fired))
            st.hit("old_or_new_result")
        st.nontrivial = st.nontrivial or size > 1 or bool(fired) or killed
