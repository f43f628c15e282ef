"""Command line of the checks.

  check --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
  check --replay FILE            re-executes a replay file (exit 1 if the violation shows again)
  check --property C01 --selftest N   determinism: N seeds twice, in other processes, other hash seed

Each run executes in a process forked for it alone, so that a run is a function of its tape only.
"""
import argparse
import hashlib
import importlib
import itertools
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SCRATCH = os.path.join(VERIF, ".work", "scratch-%d" % os.getpid())
_count = itertools.count()


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (base, prop, i)).encode()).digest()[:7], "little")


# ---------------------------------------------------------------- one run in a child
def execute(mod, tape):
    """Runs one case in this process; returns a JSON-able record."""
    from .core import Violation, HarnessError, Stats
    st = Stats()
    rec = {}
    try:
        mod.run(tape, st)
        rec["outcome"] = "ok"
    except Violation as v:
        rec["outcome"] = "violation"
        rec["cls"], rec["msg"] = v.cls, v.msg
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        here = os.path.join(VERIF, "sim") + os.sep
        mine = max([k for k, f in enumerate(tb) if f.filename.startswith(here)], default=-1)
        theirs = [f for f in tb[mine + 1:] if f.filename.startswith(REPO + os.sep)]
        broken = isinstance(e, Exception) and not isinstance(e, (HarnessError, MemoryError))
        if theirs and broken:
            # the code under test failed where it has to work (itself, or in a library it called)
            rec["outcome"] = "violation"
            rec["cls"] = "unexpected-error"
            rec["msg"] = "%s: %s at %s (%s)" % (type(e).__name__, e, theirs[-1].name,
                                                os.path.relpath(theirs[-1].filename, REPO))
        elif broken and isinstance(e, (ValueError, IndexError, KeyError, TypeError, ArithmeticError)):
            # what it returned cannot even be compared with the reference (wrong shape, kind or range)
            rec["outcome"] = "violation"
            rec["cls"] = "malformed-result"
            rec["msg"] = "%s: %s while judging the result (%s)" % (type(e).__name__, e, tb[-1].name if tb else "?")
        else:
            rec["outcome"] = "harness"
            rec["msg"] = traceback.format_exc()[-3000:]
    rec["stats"] = st.c
    rec["sig"] = st.sig.hexdigest()[:20]
    rec["nontrivial"] = bool(st.nontrivial)
    rec["sim_time"] = st.sim_time
    rec["descr"] = st.descr
    rec["streams"] = tape.rec
    return rec


def child_limits():
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    except Exception:
        pass


class Child:
    def __init__(self, mod, key, tape, timeout):
        self.key, self.t0, self.timeout = key, time.monotonic(), timeout
        self.dir = None
        if getattr(mod, "SCRATCH", False):
            self.dir = os.path.join(SCRATCH, "%d" % next(_count))
            os.makedirs(self.dir)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                child_limits()
                if self.dir:
                    os.chdir(self.dir)
                # native code prints to fd 1; keep the check's own output clean
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("SIM_DEBUG"):
                    os.dup2(dn, 2)
                rec = execute(mod, tape)
                data = json.dumps(rec).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, []

    def read(self):
        d = os.read(self.fd, 1 << 16)
        if d:
            self.buf.append(d)
            return False
        return True

    def finish(self, killed=False):
        os.close(self.fd)
        if killed:
            os.kill(self.pid, signal.SIGKILL)
        _, status = os.waitpid(self.pid, 0)
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        if killed:
            return {"outcome": "violation", "cls": "hang", "stats": {}, "sig": "", "nontrivial": False,
                    "sim_time": 0.0, "descr": None, "streams": None,
                    "msg": "the run made no progress for %d s and was stopped" % self.timeout}
        try:
            return json.loads(b"".join(self.buf))
        except ValueError:
            if os.WIFSIGNALED(status):
                return {"outcome": "violation", "cls": "process-crash", "stats": {}, "sig": "", "nontrivial": False,
                        "sim_time": 0.0, "descr": None, "streams": None,
                        "msg": "the simulated process died from signal %d" % os.WTERMSIG(status)}
            return {"outcome": "violation", "cls": "process-exit", "stats": {}, "sig": "", "nontrivial": False,
                    "sim_time": 0.0, "descr": None, "streams": None,
                    "msg": "the simulated process ended by itself (status %d)" % status}


def pool(mod, items, jobs, timeout, on_result, deadline=None):
    """items: iterator of (key, tape).  on_result(key, rec) -> True to stop."""
    live = {}
    it = iter(items)
    exhausted = False
    stop = False
    while True:
        while not exhausted and not stop and len(live) < jobs:
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                break
            try:
                key, tape = next(it)
            except StopIteration:
                exhausted = True
                break
            c = Child(mod, key, tape, timeout)
            live[c.fd] = c
        if not live:
            return
        rd, _, _ = select.select(list(live), [], [], 1.0)
        now = time.monotonic()
        for fd in rd:
            c = live[fd]
            if c.read():
                del live[fd]
                if on_result(c.key, c.finish()):
                    stop = True
        for fd, c in list(live.items()):
            if now - c.t0 > c.timeout:
                del live[fd]
                if on_result(c.key, c.finish(killed=True)):
                    stop = True
        if stop:
            for fd, c in list(live.items()):
                os.close(fd)
                os.kill(c.pid, signal.SIGKILL)
                os.waitpid(c.pid, 0)
                if c.dir:
                    shutil.rmtree(c.dir, ignore_errors=True)
            return


def run_one(mod, tape, timeout=120):
    out = []
    pool(mod, [(0, tape)], 1, timeout, lambda k, r: out.append(r))
    return out[0]


# ---------------------------------------------------------------------- minimisation
def minimise(mod, rec, seed, budget_s, jobs):
    from .core import Tape
    cls = rec["cls"]
    if rec["streams"] is None:                 # crashed or hung: only the seed is known
        return None, rec
    best = {k: list(v) for k, v in rec["streams"].items()}
    best_rec = rec
    t_end = time.monotonic() + budget_s

    def attempts(cands):
        """First candidate (in order) that still fails in the same way."""
        nonlocal best, best_rec
        cands = [c for c in cands if c != best]
        for i in range(0, len(cands), jobs):
            if time.monotonic() > t_end:
                return False
            batch = cands[i:i + jobs]
            res = {}
            pool(mod, [(j, Tape(streams=c)) for j, c in enumerate(batch)], jobs, 60,
                 lambda k, r: res.__setitem__(k, r) and False)
            for j in range(len(batch)):
                r = res.get(j)
                if r and r["outcome"] == "violation" and r["cls"] == cls and r["streams"] is not None:
                    cost = lambda s: (sum(len(x) for x in s.values()), sum(sum(x) for x in s.values()))
                    new = {k: list(v) for k, v in r["streams"].items()}
                    for k in new:               # trailing zeros are implied
                        while new[k] and new[k][-1] == 0:
                            new[k].pop()
                    if cost(new) < cost(best):
                        best, best_rec = new, r
                        return True
        return False

    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for s in sorted(best, key=lambda k: -len(best[k])):
            n = len(best[s])
            if n == 0:
                continue
            cands = []
            for cut in (0, n // 2, (3 * n) // 4, n - 1):
                cands.append(dict(best, **{s: best[s][:cut]}))
            size = max(1, n // 2)
            while size >= 1 and len(cands) < 120:
                for a in range(0, n, size):
                    cands.append(dict(best, **{s: best[s][:a] + best[s][a + size:]}))
                    if any(best[s][a:a + size]):
                        cands.append(dict(best, **{s: best[s][:a] + [0] * len(best[s][a:a + size]) + best[s][a + size:]}))
                if size == 1:
                    break
                size //= 2
            if n <= 40:
                for a in range(n):
                    v = best[s][a]
                    for nv in {v // 2, v - 1}:
                        if 0 <= nv < v:
                            cands.append(dict(best, **{s: best[s][:a] + [nv] + best[s][a + 1:]}))
            if attempts(cands):
                progress = True
                break
    return best, best_rec


# ------------------------------------------------------------------------------ main
def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop and e["status"] == "known"]


def match_known(known, rec):
    for e in known:
        if e["class"] == rec["cls"] and re.search(e["match"], rec["msg"]):
            return e
    return None


def write_replay(prop, base, idx, seed, streams, rec):
    d = os.path.join(VERIF, ".work", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop, base, idx))
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": base, "run": idx, "seed": seed, "class": rec["cls"],
                   "message": rec["msg"], "case": rec.get("descr"), "streams": streams}, f, indent=1)
    return path


def load_prop(prop):
    return importlib.import_module("sim.props." + prop.lower())


def do_replay(path):
    from .core import Tape
    d = json.load(open(path))
    mod = load_prop(d["property"])
    prepare(mod)
    tape = Tape(streams=d["streams"]) if d["streams"] is not None else Tape(seed=d["seed"])
    rec = run_one(mod, tape, getattr(mod, "RUN_TIMEOUT", 120))
    if rec["outcome"] == "violation":
        same = rec["cls"] == d["class"] and (rec["msg"] == d["message"])
        print("replay of %s: %s: %s" % (path, rec["cls"], rec["msg"]))
        print("same class and message as recorded: %s" % same)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("replay of %s: %s" % (path, rec["outcome"]), rec.get("msg", ""))
    return 0 if rec["outcome"] == "ok" else 2


def prepare(mod):
    from . import loader
    loader.load(getattr(mod, "VARIANT", "fast"))
    if hasattr(mod, "setup"):
        mod.setup()


def selftest(mod, prop, base, n, jobs):
    """Digest of every run; prints one line per seed for comparison across processes."""
    from .core import Tape
    res = {}

    def cb(k, r):
        h = hashlib.sha256(json.dumps([r["outcome"], r.get("cls"), r.get("msg"), r["sig"], r["stats"], r["streams"]],
                                      sort_keys=True).encode()).hexdigest()[:16]
        res.setdefault(k[0], []).append(h)
        return False
    items = [((i, rep), Tape(seed=seed_of(base, prop, i))) for i in range(n) for rep in range(2)]
    pool(mod, items, jobs, 300, cb)
    bad = 0
    for i in range(n):
        if len(set(res[i])) != 1:
            bad += 1
            print("NONDETERMINISTIC seed index %d: %s" % (i, res[i]))
    dg = hashlib.sha256(json.dumps([res[i] for i in range(n)]).encode()).hexdigest()
    print("selftest %s: %d seeds twice, %d differ, digest %s" % (prop, n, bad, dg))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", type=int)
    ap.add_argument("--one", type=int, help="run this seed index in the foreground, with output")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    from .core import Tape
    prop = a.property
    t0 = time.monotonic()
    mod = load_prop(prop)
    prepare(mod)
    t_build = time.monotonic() - t0
    if a.one is not None:
        print("seed", seed_of(a.seed, prop, a.one))
        if getattr(mod, "SCRATCH", False):
            os.makedirs(SCRATCH)
            os.chdir(SCRATCH)
        rec = execute(mod, Tape(seed=seed_of(a.seed, prop, a.one)))
        rec.pop("streams")
        print(json.dumps(rec, indent=1))
        if "msg" in rec:
            print(rec["msg"])
        return 0
    if a.selftest:
        return selftest(mod, prop, a.seed, a.selftest, a.jobs)

    quick = a.tier == "quick"
    runs = a.runs or (mod.QUICK_RUNS if quick else mod.THOROUGH_RUNS)
    budget = a.budget or (getattr(mod, "QUICK_BUDGET", 240) if quick else getattr(mod, "THOROUGH_BUDGET", 3600))
    known = load_known(prop)
    print("property %s tier %s VERIF_SEED %d: up to %d runs, build+import %.1f s" % (prop, a.tier, a.seed, runs, t_build))
    sys.stdout.flush()

    tot, sigs, samples = {}, set(), []
    agg = {"n": 0, "sim_time": 0.0, "nontrivial": 0}
    fail, harness, seen_known = [], [], {}

    def on_result(i, rec):
        agg["n"] += 1
        agg["sim_time"] += rec["sim_time"]
        for k, v in rec["stats"].items():
            tot[k] = tot.get(k, 0) + v
        if rec["nontrivial"]:
            agg["nontrivial"] += 1
            sigs.add(rec["sig"])
        if rec.get("descr") and len(samples) < 6:
            samples.append({"run": i, "seed": seed_of(a.seed, prop, i), "case": rec["descr"], "outcome": rec["outcome"]})
        if rec["outcome"] == "violation":
            e = match_known(known, rec)
            if e is not None:
                seen_known[e["id"]] = e
                return False
            fail.append((i, rec))
            return True
        if rec["outcome"] == "harness":
            harness.append((i, rec))
            return len(harness) >= 3
        return False

    t1 = time.monotonic()
    pool(mod, ((i, Tape(seed=seed_of(a.seed, prop, i))) for i in range(runs)), a.jobs,
         getattr(mod, "RUN_TIMEOUT", 120), on_result, deadline=t1 + budget)
    t_runs = time.monotonic() - t1

    code = 0
    if fail:
        i, rec = fail[0]
        sd = seed_of(a.seed, prop, i)
        print("run %d (seed %d): %s: %s" % (i, sd, rec["cls"], rec["msg"]))
        streams, mrec = minimise(mod, rec, sd, 60 if quick else 240, a.jobs)
        path = write_replay(prop, a.seed, i, sd, streams, mrec)
        print("minimised to %s choices: %s" %
              (sum(len(v) for v in streams.values()) if streams else "seed only", mrec["msg"]))
        r = subprocess.run([sys.executable, "-m", "sim.runner", "--replay", path], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        print("replay in a fresh process reproduces it: %s" % (r.returncode == 1))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif harness:
        print("HARNESS ERROR in run %d:\n%s" % (harness[0][0], harness[0][1]["msg"]))
        code = 2
    elif agg["n"] == 0:
        code = 2
    for e in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))

    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("fault:")}
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {
              "evaluations": agg["n"], "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples,
              "nontrivial_runs": agg["nontrivial"],
              "runs_per_hour": round(agg["n"] / max(t_runs, 1e-3) * 3600),
              "simulated_seconds": round(agg["sim_time"], 3),
              "faults_injected": faults,
              "probes": {k: v for k, v in sorted(tot.items()) if not k.startswith("fault:")},
              "interleaving_measure": "distinct_nontrivial counts distinct SHA-256 signatures of (case, executed "
                                      "schedule, fired faults)",
              "components": mod.COMPONENTS,
              "requested_runs": runs},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(fail)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial) in %.1f s, faults %s -> exit %d" %
          (prop, agg["n"], len(sigs), wall, faults, code))
    return code


if __name__ == "__main__":
    try:
        code = main()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(code)
