"""The simulated machine: processes (ranks of one or more jobs), scheduler, clocks.

Every simulated process is a real thread, but exactly one of them holds the baton; who gets it next
is drawn from the tape at each yield point (collectives, I/O, clock reads).
"""
import builtins
import contextlib
import datetime as _dt
import io
import os
import random
import sys
import threading
import time

import numpy as np

from .core import Violation, HarnessError, Stats

EPOCH = 1_700_000_000.0
threading.stack_size(128 << 20)


class SimKilled(BaseException):
    """The world is being torn down."""


class SimCrash(BaseException):
    """Injected death of a simulated process: nothing it does afterwards has any effect."""


class Proc:
    def __init__(self, world, job, rank, fn, args):
        self.world, self.job, self.rank, self.fn, self.args = world, job, rank, fn, args
        self.index = len(world.procs)
        self.sem = threading.Semaphore(0)
        self.state = "ready"          # ready | blocked | done
        self.wait = None              # predicate while blocked
        self.where = "start"
        self.result = None
        self.exc = None
        self.crashed = False
        self.dead = False             # process is gone; effects of unwinding code are dropped
        self.out = []                 # text written to stdout
        self.wall_off = 0.0
        self.mono_off = 0.0
        self.stalled_until = None
        self.entropy = 0
        self.np_state = None
        self.py_state = None
        self.thread = None

    @property
    def name(self):
        return "job%d/rank%d" % (self.job.index, self.rank)


class World:
    current_world = None

    def __init__(self, tape, stats=None, max_steps=200000):
        self.tape = tape
        self.stats = stats if stats is not None else Stats()
        self.procs = []
        self.jobs = []
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.log = []
        self.problem = None           # Violation found by the simulator itself
        self.teardown = False
        self.policy = "uniform"
        self.prio = []
        self.stall_rate = 0
        self.tick_max = 0             # clock advance per step, in ms
        self.last = None
        self.abort_on_error = False
        self.memory = 0               # contents of fresh NumPy buffers (see util.memory)
        self.kill_step = None         # scheduling step at which the job of the chosen process is killed

    # ------------------------------------------------------------------ set-up
    def add_job(self, size, fn, args=()):
        from .mpi import Comm
        job = Comm(self, size, index=len(self.jobs))
        self.jobs.append(job)
        for r in range(size):
            p = Proc(self, job, r, fn, args)
            self.procs.append(p)
            job.procs.append(p)
        return job

    def choose_policy(self, stream="policy", stalls=True):
        t = self.tape
        self.policy = t.choice(stream, ["rr", "uniform", "sticky", "prio", "reverse", "slowone"])
        n = len(self.procs)
        if self.policy in ("prio", "slowone"):
            self.prio = t.perm(stream, n)
        self.stats.hit("policy:" + self.policy)
        if stalls and t.chance(stream, 1, 3):
            self.stall_rate = 1 + t.draw(stream, 10)
        self.tick_max = t.choice(stream, [0, 1, 50, 5000])
        self.memory = t.weighted("mem", [(0, 1), (1, 2), (2, 1), (3, 1)])
        if self.memory:
            self.stats.hit("fault:stale_memory_%d" % self.memory)

    def skew_clocks(self, stream="clock", max_s=4):
        for p in self.procs:
            p.wall_off = self.tape.between(stream, 0, max_s * 2) - max_s + self.tape.draw(stream, 1000) / 1000.0
            p.mono_off = self.tape.draw(stream, 100000) / 7.0
        self.stats.hit("fault:clock_skew")

    # --------------------------------------------------------------- scheduling
    def _pick(self, run):
        t = self.tape
        if len(run) == 1:
            return run[0]
        if self.policy == "uniform":
            return run[t.draw("sched", len(run))]
        if self.policy == "rr":
            li = self.last.index if self.last is not None else -1
            for p in run:
                if p.index > li:
                    return p
            return run[0]
        if self.policy == "reverse":
            return run[-1]
        if self.policy == "sticky":
            if self.last in run and not t.chance("sched", 1, 8):
                return self.last
            return run[t.draw("sched", len(run))]
        if self.policy == "prio":
            if t.chance("sched", 1, 20):          # priority change point
                i = t.draw("sched", len(self.prio))
                self.prio[i] = -self.steps
            return max(run, key=lambda p: (self.prio[p.index], p.index))
        if self.policy == "slowone":
            slow = self.prio[0]
            fast = [p for p in run if p.index != slow] or run
            return fast[t.draw("sched", len(fast))]
        raise HarnessError(self.policy)

    def _runnable(self):
        out = []
        for p in self.procs:
            if p.state == "ready" or (p.state == "blocked" and (p.dead or p.wait())):
                out.append(p)
        return out

    def run(self):
        World.current_world = self
        patches = install_seams(self)
        try:
            for p in self.procs:
                th = threading.Thread(target=self._body, args=(p,), daemon=True)
                p.thread = th
                th.start()
            while True:
                run = self._runnable()
                if not run:
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    self.problem = Violation("no-progress", "more than %d simulation steps" % self.max_steps)
                    break
                act = [p for p in run if p.stalled_until is None or p.stalled_until <= self.now]
                if not act:      # everybody who could run is stalled: time passes
                    self.now = min(p.stalled_until for p in run)
                    continue
                if self.tick_max:
                    self.now += self.tape.draw("tick", self.tick_max + 1) / 1000.0
                p = self._pick(act)
                if self.stall_rate and len(self.procs) > 1 and self.tape.chance("stall", self.stall_rate, 100):
                    p.stalled_until = self.now + 0.001 * (1 + self.tape.draw("stall", 100000))
                    self.stats.hit("fault:stall")
                    self.log.append((self.steps, p.index, "stall"))
                    continue
                p.stalled_until = None
                if self.kill_step is not None and self.steps >= self.kill_step:
                    self.kill_step = None
                    self.stats.hit("fault:process_kill")
                    self.log.append((self.steps, p.index, "kill"))
                    self.kill_job(p.job)
                self._resume(p)
                if self.problem is not None:
                    break
            left = [p for p in self.procs if p.state != "done"]
            if left and self.problem is None:
                self.problem = Violation(
                    "deadlock", "; ".join("%s waits at %s" % (p.name, p.where) for p in left) + " | finished: " +
                    ", ".join("%s (%s)" % (p.name, "error %r" % (p.exc,) if p.exc is not None else "returned")
                              for p in self.procs if p.state == "done"))
            self.teardown = True
            for p in left:
                if p.state != "done":
                    self._resume(p)
        finally:
            remove_seams(patches)
            World.current_world = None
        for p in self.procs:
            p.thread.join(20)
            if isinstance(p.exc, HarnessError):
                raise p.exc
        self.stats.sim_time += self.now
        self.stats.hit("steps", self.steps)
        return self

    def _resume(self, p):
        p.state = "ready"
        p.wait = None
        self.current = p
        self.last = p
        self.log.append((self.steps, p.index, p.where))
        np.random.set_state(p.np_state) if p.np_state is not None else np.random.seed(7919 + 31 * p.index)
        if p.py_state is not None:
            random.setstate(p.py_state)
        else:
            random.seed(7919 + 31 * p.index)
        p.sem.release()
        self.main_sem.acquire()
        p.np_state = np.random.get_state()
        p.py_state = random.getstate()
        self.current = None

    def _body(self, p):
        p.sem.acquire()
        try:
            if self.memory:                      # the allocator is chosen per thread
                import simmem
                simmem.set(self.memory, 2 * p.rank + 3)
            if not self.teardown and not p.dead:
                p.result = p.fn(p, *p.args)
        except SimKilled:
            pass
        except SimCrash:
            p.crashed = True
        except BaseException as e:           # noqa: the outcome of the simulated process
            p.exc = e
            if self.abort_on_error:              # the MPI launcher kills the job
                p.state = "done"
                self.kill_job(p.job)
        p.state = "done"
        self.main_sem.release()

    def yield_point(self, where, wait=None):
        """Called by the running process: hand the baton back; come back when chosen (and wait() holds)."""
        p = self.current
        if p is None:
            raise HarnessError("yield outside of a process")
        if self.teardown:
            raise SimKilled()
        if p.dead:
            raise SimCrash()
        p.where = where
        if wait is not None:
            p.state = "blocked"
            p.wait = wait
        self.main_sem.release()
        p.sem.acquire()
        if self.teardown:
            raise SimKilled()
        if p.dead:
            raise SimCrash()

    def kill_job(self, job):
        """All processes of a job die; whatever they do while unwinding has no effect."""
        for p in job.procs:
            if p.state != "done":
                p.dead = True
                p.crashed = True

    def fail(self, cls, msg):
        """The simulator noticed a violation inside a process: stop the world."""
        if self.problem is None:
            self.problem = Violation(cls, msg)
        self.yield_point("violation", wait=lambda: False)

    # -------------------------------------------------------------------- clocks
    def wall(self):
        p = self.current
        return EPOCH + self.now + (p.wall_off if p else 0.0)

    def mono(self):
        p = self.current
        return 1000.0 + self.now + (p.mono_off if p else 0.0)


# ------------------------------------------------------------------------- seams
class StdoutProxy(io.TextIOBase):
    def __init__(self, world):
        self.world = world

    def write(self, s):
        p = self.world.current
        if p is not None and not p.dead:
            p.out.append(s)
        return len(s)

    def flush(self):
        pass

    @property
    def encoding(self):
        return "utf-8"


_real_time = {n: getattr(time, n) for n in
              ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
               "process_time_ns", "thread_time",
               "sleep", "localtime", "gmtime", "strftime", "ctime", "asctime")}
_real_datetime = _dt.datetime
_real_rng = np.random.default_rng


def clock_patches(wall, mono, sleep):
    """Replacement functions of the time module for given clock functions."""
    r = _real_time

    class SimDateTime(_real_datetime):
        @classmethod
        def now(cls, tz=None):
            return _real_datetime.fromtimestamp(wall(), tz)

        @classmethod
        def today(cls):
            return _real_datetime.fromtimestamp(wall())

        @classmethod
        def utcnow(cls):
            return _real_datetime.utcfromtimestamp(wall())

    return {
        "time": lambda: wall(),
        "time_ns": lambda: int(wall() * 1e9),
        "monotonic": lambda: mono(),
        "monotonic_ns": lambda: int(mono() * 1e9),
        "perf_counter": lambda: mono() + 4321.0,          # another epoch than monotonic()
        "perf_counter_ns": lambda: int((mono() + 4321.0) * 1e9),
        "process_time": lambda: mono() * 0.25,            # most of the time is spent waiting
        "process_time_ns": lambda: int(mono() * 0.25e9),
        "thread_time": lambda: mono() * 0.25,
        "sleep": sleep,
        "localtime": lambda s=None: r["localtime"](wall() if s is None else s),
        "gmtime": lambda s=None: r["gmtime"](wall() if s is None else s),
        "strftime": lambda f, t=None: r["strftime"](f, r["localtime"](wall()) if t is None else t),
        "ctime": lambda s=None: r["ctime"](wall() if s is None else s),
        "asctime": lambda t=None: r["asctime"](r["localtime"](wall()) if t is None else t),
    }, SimDateTime


def install_clock(wall, mono, sleep):
    fns, sdt = clock_patches(wall, mono, sleep)
    for k, f in fns.items():
        setattr(time, k, f)
    _dt.datetime = sdt


def remove_clock():
    for k, f in _real_time.items():
        setattr(time, k, f)
    _dt.datetime = _real_datetime


def install_seams(world):
    def sleep(d):
        if world.current is None:
            return
        p = world.current
        t0 = world.now + d
        world.yield_point("sleep", wait=lambda: True)
        if world.now < t0:
            world.now = t0

    install_clock(world.wall, world.mono, sleep)

    def default_rng(seed=None):
        if seed is None and world.current is not None:
            p = world.current
            p.entropy += 1
            return _real_rng([p.index, p.entropy, 4242])
        return _real_rng(seed)

    np.random.default_rng = default_rng
    old = sys.stdout
    sys.stdout = StdoutProxy(world)
    return old


def remove_seams(old):
    sys.stdout = old
    np.random.default_rng = _real_rng
    remove_clock()
