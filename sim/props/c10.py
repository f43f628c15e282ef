"""C10: saved sample arrays load back as one consistent snapshot or not at all."""
import os

import numpy as np

from .. import models
from ..core import Violation
from ..storage import Storage, draw_plan
from ..util import quiet, stale_memory
from ..world import SimCrash

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 12000, 200000
RULE = ("random history of 1-4 saves of samples in different states (different models, different subsets of arrays "
        "initialised, rescaled or in a magnetic field) into one directory by successive processes, each possibly "
        "killed, cut off by a power loss, a full disk or an I/O error at a drawn operation, then possibly damaged files, "
        "then loads into samples with own state; non-trivial: a fault fired or more than one save")
ASSUMPTIONS = ["directory operations (create, rename, unlink) are ordered and survive a power loss; of file contents not "
               "synchronised a prefix survives",
               "files are only damaged by truncation or loss, not by bit flips",
               "an array which was not initialised at the save is legitimately absent from it"]
COMPONENTS = {"real": "tbplas, NumPy file format code, local file system in a scratch directory",
              "simulated": "file operations (yield points, short transfers, errors, crashes), process lifetimes"}
HOP = ("hop_i", "hop_j", "hop_v", "dr", "rescale")
GROUPS = (("orb_eng",), ("orb_pos",), HOP)


def make(spec, state):
    s = models.build_sample(spec, rescale=False)
    if state["eng"]:
        s.init_orb_eng()
    if state["pos"]:
        s.init_orb_pos()
    if state["hop"]:
        s.init_hop()
    if state["rescale"]:
        s.rescale_ham(state["rescale"])
    if state["field"]:
        s.set_magnetic_field(state["field"], state["gauge"])
    return s


def snap(s):
    d = {}
    for k in ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr"):
        v = getattr(s, k)
        d[k] = None if v is None else np.array(v)
    d["rescale"] = s.rescale
    return d


def same(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def gsame(a, b, g):
    return all(same(a[k], b[k]) for k in g)


def has(s, g):
    return s[g[0]] is not None


def show(s):
    return ", ".join("%s=%s" % (k, "None" if v is None else (v.shape if isinstance(v, np.ndarray) else v))
                     for k, v in s.items())


def gen_state(t, i):
    return {"eng": t.chance("state", 2, 3), "pos": t.chance("state", 1, 2), "hop": t.chance("state", 3, 4),
            "rescale": round(3.0 + i + t.draw("state", 100) / 97.0, 6) if t.chance("state", 1, 2) else None,
            "field": 20.0 + 7 * i if t.chance("state", 1, 3) else 0, "gauge": t.draw("state", 3)}


def run(t, st):
    nsave = t.between("hist", 1, 4)
    disk = Storage(t, st)
    specs = [models.sample_spec(t, max_dim=2, connected=False)]
    if t.chance("hist", 1, 2):
        specs.append(models.sample_spec(t, max_dim=2, connected=False))
    for s in specs:
        if t.chance("big", 1, 25):                             # files of more than one block
            s["scs"][0]["dim"][0] += t.between("big", 4, 16)
    data = t.choice("hist", ["data", "sample", "a/b c"])
    arg = () if data == "sample" else (data,)
    saves = []                 # (snapshot, outcome)
    own_i = 0
    faulty_from = None
    st.descr = {"saves": nsave, "faults": []}
    history = []
    with disk, stale_memory(t, st), quiet():
        for i in range(nsave):
            state = gen_state(t, i)
            smp = make(specs[t.draw("hist", len(specs))], state)
            disk.as_session("save%d" % i)
            disk.session.index = i
            disk.ops = 0
            disk.crash_op, disk.capacity, disk.eio, disk.short = None, None, {}, 0
            disk.power_lost = disk.crash_power = False
            nfired = len(disk.fired)
            kind = draw_plan(t, disk, 40)
            before = snap(smp)
            saves.append([before, "failed"])
            try:
                smp.save_array(*arg)
                saves[-1][1] = "ok"
            except SimCrash:
                saves[-1][1] = "crashed"
            except OSError as e:
                if len(disk.fired) == nfired:
                    raise Violation("save-failed", "save %d failed without a fault: %r" % (i, e))
            fired = disk.fired[nfired:]
            if fired and saves[-1][1] == "ok" and fired[0][0] != "crash":
                # an injected error must not be swallowed unless the data are all there; judged by the load below
                st.hit("save_survived_error")
            if not all(same(before[k], snap(smp)[k]) for k in before):
                raise Violation("save-changed-sample", "saving changed the sample itself")
            disk.session.dead = True
            disk.settle()
            history.append((saves[-1][1], [f[0] for f in fired]))
            st.hit("save:" + saves[-1][1])
        disk.session = None
        st.descr["history"] = history
        # damage
        damaged = set()
        if t.chance("damage", 1, 3) and os.path.isdir(data):
            fs = sorted(os.listdir(data))
            for f in t.sample("damage", fs, t.between("damage", 1, 2)):
                path = data + "/" + f
                if t.chance("damage", 1, 2):
                    os.remove(path)
                    st.hit("fault:file_lost")
                else:
                    n = os.path.getsize(path)
                    with open(path, "r+b") as h:
                        h.truncate(t.draw("damage", n + 1))
                    st.hit("fault:file_truncated")
                damaged.add(f)
            st.descr["damaged"] = sorted(damaged)
        clean = all(s[1] == "ok" for s in saves) and not damaged and not any(
            h == "power" for _, hs in history for h in hs)
        last_ok = saves[-1][1] == "ok" and not damaged
        for n in range(t.between("load", 1, 2)):
            smp = make(specs[t.draw("load", len(specs))], gen_state(t, 20 + n))
            disk.ops, disk.crash_op, disk.capacity, disk.eio, disk.short = 0, None, None, {}, 0
            disk.power_lost = disk.crash_power = False
            nfired = len(disk.fired)
            draw_plan(t, disk, 60, kinds=("none", "none", "eio"))
            before = snap(smp)
            there = [all(os.path.exists("%s/%s.npy" % (data, k)) for k in g) for g in GROUPS]
            disk.as_session("load%d" % n)
            try:
                smp.load_array(*arg)
                exc = None
            except Exception as e:
                exc = e
            after = snap(smp)
            fired = disk.fired[nfired:]
            disk.session = None
            if exc is not None:
                st.hit("load_error")
                if last_ok and not fired:
                    raise Violation("load-failed", "loading an acknowledged save failed: %s: %s" %
                                    (type(exc).__name__, exc))
                if not all(same(before[k], after[k]) for k in before):
                    bad = [k for k in before if not same(before[k], after[k])]
                    raise Violation("failed-load-changed-sample", "loading failed with %s but changed %s" %
                                    (type(exc).__name__, ", ".join(bad)))
                continue
            st.hit("load_ok")
            own = [gsame(after, before, g) for g in GROUPS]
            for i, g in enumerate(GROUPS):
                if there[i] and own[i] and not any(has(s, g) and gsame(after, s, g) for s, _ in saves):
                    raise Violation("silently-skipped", "loading succeeds although %s, whose files are there, was not restored "
                                    "(faults %s, damaged %s)" % ("/".join(g), [f[0] for f in fired], sorted(damaged)))
            ok = []
            for e, (s, outcome) in enumerate(saves):
                if all(own[i] or (has(s, g) and gsame(after, s, g)) for i, g in enumerate(GROUPS)):
                    ok.append(e)
            if not ok:
                src = []
                for i, g in enumerate(GROUPS):
                    m = [e for e, (s, _) in enumerate(saves) if has(s, g) and gsame(after, s, g)]
                    src.append("%s from %s" % ("/".join(g), "own state" if own[i] else ("save %s" % m if m else "nowhere")))
                raise Violation("mixed-snapshot", "loaded arrays are no single snapshot: %s (history %s, damaged %s)" %
                                ("; ".join(src), history, sorted(damaged)))
            if last_ok and not fired:
                s = saves[-1][0]
                for i, g in enumerate(GROUPS):
                    want = s if has(s, g) else before
                    if not gsame(after, want, g):
                        raise Violation("snapshot-lost", "after an acknowledged save, %s is not %s" %
                                        ("/".join(g), "that of the save" if has(s, g) else "left alone"))
            if os.path.isdir(data) and t.chance("load", 1, 2):  # what was loaded no longer depends on the files
                for f in os.listdir(data):
                    with open(data + "/" + f, "r+b") as h:
                        h.write(bytes(os.path.getsize(data + "/" + f)))
                if not all(same(after[k], snap(smp)[k]) for k in after):
                    raise Violation("not-loaded", "loaded arrays change when the files are overwritten")
                smp.rescale_ham(0.5)
                smp.set_magnetic_field(3.0)
                break
    st.mix(history, sorted(damaged), disk.log)
    st.nontrivial = bool(disk.fired) or bool(damaged) or nsave > 1
