"""C12: a saved configuration reads back equal or is rejected."""
import copy
import os

import numpy as np

from .. import models
from ..core import Violation
from ..storage import Storage, draw_plan
from ..util import quiet
from ..world import World

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 10000, 200000
RULE = ("history of 1-3 jobs (1-3 ranks each) which create solvers with random parameters in every section, change "
        "parameters, save again under the same or another name, each possibly killed, cut off by a power loss, a full "
        "disk or an I/O error; files possibly truncated; then reads with short reads and read errors; non-trivial: a fault "
        "fired or several saves")
ASSUMPTIONS = ["directory operations are ordered and survive a power loss; of file contents not synchronised a prefix "
               "survives", "files are damaged by truncation only"]
COMPONENTS = {"real": "tbplas, pickle, local file system in a scratch directory",
              "simulated": "MPI, process scheduling and death, file operations, clocks"}
SECTIONS = ("generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb", "quasi_eigenstates")
KINDS = ("none", "crash", "power", "enospc", "eio", "kill")


def value(t, old):
    s = "val"
    if isinstance(old, bool):
        return t.chance(s, 1, 2)
    if isinstance(old, int):
        v = t.between(s, 1, 5000) if not t.chance(s, 1, 6) else -t.draw(s, 2)
        return v if not t.chance("big", 1, 40) else t.choice("big", [2 ** 31, 2 ** 40 + 1, 10 ** 30, -2 ** 63])
    if isinstance(old, float):
        v = t.real(s, -10, 10)
        return v if not t.chance("big", 1, 40) else t.choice("big", [0.0, 1e-300, 1e300, float("inf"), -0.0, 1 / 3])
    n = t.between(s, 0, 40)
    if t.chance("big", 1, 200):
        n = t.choice("big", [300, 3000])
    kind = t.draw(s, 4)
    if kind == 0:
        return [t.draw(s, 100) for _ in range(n)]
    if kind == 1:
        return [[t.real(s) for _ in range(3)] for _ in range(n)]
    if kind == 2:
        return np.array([t.real(s) for _ in range(n)])
    return tuple(t.real(s) for _ in range(n))


def randomise(t, c, some=False):
    for sec in SECTIONS:
        d = getattr(c, sec)
        for k in sorted(d):
            if some and not t.chance("val", 1, 4):
                continue
            d[k] = value(t, d[k])
        if t.chance("val", 1, 12):                # a parameter of the user's own
            d["user_%d" % t.draw("val", 3)] = value(t, t.choice("val", [1, 1.0, True, []]))
    c.set_legal_params()


def grab(c):
    return {sec: copy.deepcopy(getattr(c, sec)) for sec in SECTIONS}


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def differs(a, b):
    for sec in SECTIONS:
        for k in sorted(set(a[sec]) | set(b[sec])):
            if k not in a[sec] or k not in b[sec] or not eq(a[sec][k], b[sec][k]):
                return "%s[%r]" % (sec, k)
    return None


def run(t, st):
    import tbplas as tb
    njobs = t.between("mode", 1, 3)
    spec = {"kind": "graphene"}
    cand, must = {}, {}              # file -> candidate contents; acknowledged content
    st.descr = {"jobs": []}
    nontriv = False
    for j in range(njobs):
        size = t.weighted("P", [(1, 3), (2, 1), (3, 1)])
        mpi = size > 1 or t.chance("P", 1, 3)
        base = tb.Config()
        randomise(t, base)
        edits = []
        for _ in range(t.draw("mode", 3)):
            e = copy.deepcopy(base)
            randomise(t, e, some=True)
            edits.append((t.choice("mode", ["config.pkl", "other.pkl"]), grab(e), t.chance("mode", 1, 3)))
        prefix = t.choice("mode", ["p", "q"])
        events = []

        def main(p):
            def ack(what, f, c):
                if p.rank == 0 and not p.dead:
                    events.append((what, "out/%s.%s" % (prefix, f), grab(c)))
            sc = tb.SuperCell(tb.make_graphene_diamond(), dim=(3, 3, 1), pbc=(True, True, False))
            smp = tb.Sample(sc)
            c = copy.deepcopy(base)
            before = grab(c)
            ack("start", "config.pkl", c)
            s = tb.Solver(smp, c, enable_mpi=mpi, directory="out", prefix=prefix)
            if differs(before, grab(c)):
                raise Violation("save-altered", "creating a solver changed %s" % differs(before, grab(c)))
            ack("end", "config.pkl", c)
            for f, g, reset in edits:
                for sec in SECTIONS:
                    getattr(c, sec).clear()
                    getattr(c, sec).update(copy.deepcopy(g[sec]))
                before = grab(c)
                ack("start", f, c)
                if reset and f == "config.pkl":
                    s.set_output("out", prefix)
                elif f == "config.pkl":
                    s.save_config()
                else:
                    s.save_config(f)
                if differs(before, grab(c)):
                    raise Violation("save-altered", "saving changed %s" % differs(before, grab(c)))
                ack("end", f, c)

        w = World(t, st)
        w.add_job(size, main)
        w.choose_policy()
        w.abort_on_error = True
        disk = Storage(t, st, world=w)
        kind = draw_plan(t, disk, 10 + 5 * len(edits), kinds=KINDS, cap_max=6000)
        if kind == "kill":
            w.kill_step = t.draw("fault", 20 + 10 * size)
        with disk:
            w.run()
        disk.settle()
        fired = list(disk.fired)
        killed = any(p.crashed for p in w.procs)
        st.mix(size, kind, [(i, x) for _, i, x in w.log], fired)
        st.descr["jobs"].append({"ranks": size, "fault": kind, "fired": [str(f) for f in fired]})
        if w.problem is not None:
            raise Violation(w.problem.cls, w.problem.msg)
        for p in w.procs:
            if isinstance(p.exc, Violation):
                raise p.exc
            if p.exc is not None and not fired and not killed:
                raise Violation("unexpected-failure", "%s failed without a fault: %r" % (p.name, p.exc))
        for what, f, g in events:
            cand.setdefault(f, []).append(g)
            if what == "start":
                must.pop(f, None)
            else:
                must[f] = g
        if disk.power_lost:
            must.clear()
        nontriv = nontriv or bool(fired) or killed or len(events) > 2
    # damage, then read in another process
    if t.chance("damage", 1, 4):
        for f in sorted(cand):
            if os.path.exists(f) and t.chance("damage", 1, 2):
                n = os.path.getsize(f)
                k = t.draw("damage", n + 1)
                if k < n:
                    os.truncate(f, k)
                    must.pop(f, None)
                    st.hit("fault:file_truncated")
                    nontriv = True
    for f in sorted(cand):
        disk = Storage(t, st)
        draw_plan(t, disk, 3, kinds=("none", "none", "eio"), stream="rfault")
        with disk, quiet():
            disk.as_session("reader")
            try:
                c, exc = tb.read_config(f), None
            except Exception as e:
                c, exc = None, e
            disk.session = None
        if exc is not None:
            st.hit("rejected")
            if f in must and not disk.fired:
                raise Violation("unreadable", "%s was saved completely but reading it fails with %s: %s" %
                                (f, type(exc).__name__, exc))
            continue
        g = grab(c)
        if f in must:
            d = differs(must[f], g)
            if d:
                raise Violation("not-equal", "%s reads back with a different %s" % (f, d))
            st.hit("verified")
        elif not any(differs(x, g) is None for x in cand[f]):
            raise Violation("partial", "%s reads back as none of the saved configurations (%s differs from the last)" %
                            (f, differs(cand[f][-1], g)))
        try:
            c.check_params()
        except Exception as e:
            raise Violation("not-legal", "configuration read back is refused: %r" % e)
    st.nontrivial = nontriv
