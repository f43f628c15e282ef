"""Fault injection into pure Python code: an interruption or a failed allocation at a drawn line of the code under test.

  with Interrupt(k, MemoryError) as it:  query()
raises the exception at the k-th line event in files of the repository; it.fired tells whether it happened.
"""
import os
import sys

from . import build

KINDS = (KeyboardInterrupt, MemoryError)


class Interrupt:
    def __init__(self, k, exc):
        self.k, self.exc = k, exc
        self.lines = 0
        self.fired = None
        self.prefix = os.path.join(build.REPO, "tbplas") + os.sep

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines == self.k:
                self.fired = "%s:%s" % (os.path.relpath(frame.f_code.co_filename, build.REPO), frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc("injected")
        return self._local

    def _global(self, frame, event, arg):
        if self.fired is None and frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, et, ev, tb):
        sys.settrace(None)
        return False


def draw_point(t, stream="fault", top=400):
    """A line number: small ones are likely, because short queries execute few lines."""
    hi = t.choice(stream, [8, 24, 60, 150, top])
    return 1 + t.draw(stream, hi)


def count_lines(fn):
    """Lines of the code under test that fn executes."""
    it = Interrupt(0, None)
    with it:
        fn()
    return it.lines


def late_point(t, lines, stream="fault"):
    """A point of an execution of known length; its last lines, where results are stored, are likely."""
    if t.chance(stream, 1, 2):
        return max(1, lines - t.draw(stream, 8))
    return 1 + t.draw(stream, max(lines, 1))


def attempt(t, st, fn, stream="fault", top=400, at=None):
    """Runs fn with an interruption at a drawn point.  Returns (completed, value, where)."""
    kind = KINDS[t.draw(stream, len(KINDS))]
    it = Interrupt(at or draw_point(t, stream, top), kind)
    try:
        with it:
            v = fn()
    except kind:
        if it.fired is None:
            raise
        st.hit("fault:" + ("interrupt" if kind is KeyboardInterrupt else "alloc_failure"))
        return False, None, it.fired
    except Exception:
        # the injected exception was turned into another one on its way: still a failed query
        if it.fired is None:
            raise
        st.hit("fault:converted")
        return False, None, it.fired
    if it.fired is not None:
        st.hit("fault:swallowed")        # the code claims to have completed nevertheless: judged like any completed call
    return True, v, None
