"""Imports tbplas: Python files straight from /repo, native modules from the simulation build."""
import ctypes
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import build


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, out, variant):
        self.out, self.variant = out, variant

    def find_spec(self, name, path, target=None):
        if name == "tbplas.fortran.f2py":
            f = os.path.join(self.out, "f2py_%s.so" % self.variant)
        elif name.startswith("tbplas.cython."):
            f = os.path.join(self.out, "cy_%s.so" % name.rsplit(".", 1)[1])
        elif name == "simmem":
            f = os.path.join(self.out, "simmem.so")
        else:
            return None
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(
            name, f, loader=importlib.machinery.ExtensionFileLoader(name, f))


class SimOmp:
    """Control interface of the simulated OpenMP runtime."""
    def __init__(self, path):
        lib = self.lib = ctypes.CDLL(path)
        lib.sim_config.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_uint, ctypes.c_int, ctypes.c_int,
                                   ctypes.c_uint64]
        self.config()

    def config(self, seed=1, team=1, rate=0, order=0, mem=0, mem_seed=1):
        self.lib.sim_config(seed & (2**64 - 1), team, rate, order, mem, mem_seed & (2**64 - 1))

    def replay(self, switches):
        n = len(switches)
        ev = (ctypes.c_uint64 * max(n, 1))(*[e for e, _ in switches])
        to = (ctypes.c_int * max(n, 1))(*[t for _, t in switches])
        self.lib.sim_replay(ev, to, ctypes.c_uint(n))

    def switches(self, mx=65536):
        ev = (ctypes.c_uint64 * mx)()
        to = (ctypes.c_int * mx)()
        n = self.lib.sim_switches(ev, to, ctypes.c_uint(mx)) & 0xffffffff
        if n == 0xffffffff:
            return None
        return [(int(ev[i]), int(to[i])) for i in range(n)]

    def stats(self):
        o = (ctypes.c_uint64 * 8)()
        self.lib.sim_stats(o)
        return dict(regions=int(o[0]), multi=int(o[1]), events=int(o[2]), switches=int(o[3]), hash=int(o[4]),
                    mallocs=int(o[5]), maxteam=int(o[6]))

    def poison_stack(self, kib=512):
        self.lib.sim_poison_stack(ctypes.c_uint(kib))

    def flush(self):
        self.lib.sim_flush()


omp = None
out_dir = None


def load(variant="fast"):
    """Build if needed, install all import seams, import tbplas.  Once per process."""
    global omp, out_dir
    if omp is not None:
        return
    out = build.ensure((variant,))
    out_dir = out
    from . import mpi
    mpi.install()
    sys.dont_write_bytecode = True
    sys.path.insert(0, build.REPO)
    sys.meta_path.insert(0, Finder(out, variant))
    import matplotlib
    matplotlib.use("Agg")
    import tbplas                                   # noqa
    import tbplas.fortran.f2py as f2py
    assert f2py.__file__.startswith(out), f2py.__file__
    assert tbplas.__file__.startswith(build.REPO + os.sep), tbplas.__file__
    import simmem                                   # noqa
    omp = SimOmp(os.path.join(out, "f2py_%s.so" % variant))
