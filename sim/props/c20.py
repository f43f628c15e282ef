"""C20: measured times never go wrong when the system clock is adjusted."""
import re

from ..core import Violation
from ..world import World

QUICK_RUNS, THOROUGH_RUNS = 10000, 400000
RULE = ("1-3 processes, each with one or two timers and a random history of 3-25 start, stop, report and reset calls and bursts of short intervals on "
        "1-4 slots, also out of order, while time passes and the system clock of a process is stepped forwards or "
        "backwards; non-trivial: the clock was stepped, or several slots were used")
ASSUMPTIONS = ["a second start of a running slot restarts it", "times are printed with 5 decimals"]
COMPONENTS = {"real": "tbplas.Timer", "simulated": "clocks, process scheduling"}
LINE = re.compile(r"^\s*(.*\S)\s*:\s*(\S+)\s*$")
SLOTS = ["a", "long_slot_name", "b2", "C", "ab", "c", "a b", "long_slot_name_2"]


def run(t, st):
    import tbplas as tb
    w = World(t, st)
    n = t.weighted("P", [(1, 2), (2, 1), (3, 1)])

    def main(p):
        s = "ops%d" % p.index
        timers = [tb.Timer() for _ in range(t.between(s, 1, 2))]
        state = [{"start": {}, "last": {}, "total": {}, "order": []} for _ in timers]
        slots = t.sample(s, SLOTS, 4)
        for _ in range(t.between(s, 3, 25)):
            # time passes; the system clock may be stepped
            w.now += t.choice(s, [0.0, 0.001, 0.5, 3.25, 120.0, 7200.0, 0.00037, 12.34567]) * (1 + t.draw(s, 4))
            if t.chance(s, 1, 4):
                p.wall_off += t.choice(s, [3600.0, -3600.0, -0.25, 86400.0 * 400, -86400.0])
                st.hit("fault:clock_step")
            w.yield_point("op")
            k = t.draw(s, len(timers))
            tm, m = timers[k], state[k]
            op = t.weighted(s, [("tic", 4), ("toc", 4), ("report", 1), ("total", 2), ("reset", 1), ("burst", 1)])
            slot = t.choice(s, slots)
            where = "%s, timer %d, %s %s" % (p.name, k, op, slot if op in ("tic", "toc") else "")
            at = len(p.out)
            spent = []
            if op == "burst":                       # many short intervals add up
                count, dt = t.choice(s, [10, 40, 150]), t.choice(s, [1e-6, 3.7e-6, 4.2e-5, 1.01])
                st.hit("burst")
            try:
                if op == "tic":
                    tm.tic(slot)
                elif op == "toc":
                    tm.toc(slot)
                elif op == "burst":
                    for _ in range(count):
                        tm.tic(slot)
                        t0 = w.now
                        w.now += dt
                        tm.toc(slot)
                        spent.append(w.now - t0)
                elif op == "report":
                    tm.report_time()
                elif op == "total":
                    tm.report_total_time()
                else:
                    tm.reset()
                exc = None
            except Exception as e:
                exc = e
            text = "".join(p.out[at:])
            now = w.now
            running = any(v is not None for v in m["start"].values())
            if op == "tic":
                ok = exc is None
                m["start"][slot] = now
            elif op == "toc":
                if m["start"].get(slot) is None:
                    ok = isinstance(exc, RuntimeError)
                else:
                    ok = exc is None
                    d = now - m["start"][slot]
                    m["start"][slot] = None
                    m["last"][slot] = d
                    m["total"][slot] = m["total"].get(slot, 0.0) + d
            elif op == "burst":
                ok = exc is None
                m["start"][slot] = None
                m["last"][slot] = (spent or [0.0])[-1]
                m["total"][slot] = m["total"].get(slot, 0.0) + sum(spent)
            elif op == "reset":
                ok = exc is None
                state[k] = {"start": {}, "last": {}, "total": {}}
            elif running:
                ok = isinstance(exc, RuntimeError)
                st.hit("refused_report")
            else:
                ok = exc is None
            if not ok:
                raise Violation("outcome", "%s: %s" % (where, "accepted" if exc is None else "refused with %r" % exc))
            if op in ("report", "total") and not running:
                want = m["last" if op == "report" else "total"]
                got = {}
                for line in text.splitlines():
                    if not line.strip():
                        continue
                    g = LINE.match(line)
                    if not g:
                        raise Violation("format", "%s prints %r" % (where, line))
                    if g.group(1) in got:
                        raise Violation("format", "%s prints slot %s twice" % (where, g.group(1)))
                    got[g.group(1)] = float(g.group(2))
                if sorted(got) != sorted(want):
                    raise Violation("slots", "%s reports slots %s instead of %s" % (where, sorted(got), sorted(want)))
                for x in want:
                    if abs(got[x] - want[x]) > 2e-5 + 1e-9 * abs(want[x]):
                        raise Violation("time", "%s reports %.5f s for %s although %.5f s passed" %
                                        (where, got[x], x, want[x]))
                st.hit("times_verified", len(want))
            st.mix(p.index, op, slot)
        if sum(len(m["total"]) for m in state) > 1:
            st.hit("multi_slot")

    w.add_job(n, main)
    w.choose_policy()
    w.tick_max = 0
    w.skew_clocks(max_s=3600)
    w.run()
    if w.problem is not None:
        raise Violation(w.problem.cls, w.problem.msg)
    for p in w.procs:
        if p.exc is not None:
            raise p.exc
    st.descr = {"processes": n, "simulated_seconds": w.now}
    st.nontrivial = st.c.get("fault:clock_step", 0) > 0 or "multi_slot" in st.c
