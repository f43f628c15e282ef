"""Comparison helpers."""
import contextlib
import io
import sys

import numpy as np

from .core import Violation


class quiet:
    """Swallows stdout of the code under test outside of a world (serial reference runs)."""
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = io.StringIO()
        return sys.stdout

    def __exit__(self, *a):
        sys.stdout = self.old


def close(a, b, rtol=1e-9, atol=1e-10):
    """Element-wise closeness with matching shapes; NaN only equals NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, "shape %s instead of %s" % (a.shape, b.shape)
    if a.size == 0:
        return True, ""
    with np.errstate(all="ignore"):
        scale = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0.0
        ok = np.isclose(a, b, rtol=rtol, atol=atol + rtol * scale, equal_nan=True)
    if ok.all():
        return True, ""
    i = tuple(int(x) for x in np.argwhere(~ok)[0])
    return False, "element %s is %s instead of %s (%d of %d elements differ)" % (
        i, a[i], b[i], int((~ok).sum()), a.size)


def require_close(cls, what, a, b, rtol=1e-9, atol=1e-10):
    ok, msg = close(a, b, rtol, atol)
    if not ok:
        raise Violation(cls, "%s: %s" % (what, msg))


def serial(fn, *args):
    """Reference execution outside of any world.  Returns ('ok', value) or ('error', type name)."""
    from .core import HarnessError
    with quiet():
        try:
            return "ok", fn(*args)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            return "error", e


def flat(x):
    """Flattens nested results into a list of arrays."""
    if isinstance(x, (tuple, list)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [np.asarray(x)]


class memory:
    """Contents of fresh NumPy buffers in this thread: mode 0 as they come, 1 NaN, 2 small, 3 huge, 4 integer garbage."""
    current = (0, 1)

    def __init__(self, mode, seed=1):
        self.want = (mode, seed)

    def __enter__(self):
        import simmem
        self.old = memory.current
        memory.current = self.want
        simmem.set(*self.want)
        return self

    def __exit__(self, *a):
        import simmem
        memory.current = self.old
        simmem.set(*self.old)


def stale_memory(t, st):
    """Drawn contents of fresh memory for the run of the code under test."""
    mode = t.weighted("mem", [(0, 2), (1, 3), (2, 2), (3, 1), (4, 1)])
    if mode:
        st.hit("fault:stale_memory_%d" % mode)
    return memory(mode, t.draw("mem", 1 << 30) * 2 + 1 if mode else 1)


# ------------------------------------------------------------------------------------------- figures
class Canvas:
    """Takes the place of figures and axes; accepts every drawing operation."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Canvas()

    def __getitem__(self, key):
        return Canvas()

    def __call__(self, *a, **kw):
        return Canvas()


@contextlib.contextmanager
def no_figures():
    """Drawing goes nowhere."""
    import matplotlib.pyplot as plt
    names = ("savefig", "show", "close", "autoscale", "tight_layout", "figure", "gca", "gcf")
    old = {n: getattr(plt, n) for n in names + ("subplots",)}
    for n in names:
        setattr(plt, n, Canvas())
    plt.subplots = lambda *a, **kw: (Canvas(), Canvas())
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(plt, n, f)
