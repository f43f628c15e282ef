"""Builds the native modules of /repo's current working tree for simulation.

Two variants of the Fortran module exist, both linked with the simulated OpenMP runtime (simomp.c):
  fast  -O2, team switches only at OpenMP calls        (used by the MPI / storage / history checks)
  omp   -O0 -fsanitize=thread with our own hooks       (used by the OpenMP-schedule checks)
Products go to /verif/.work/build-<hash of everything that went in>/, never into /repo.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
NATIVE = os.path.join(VERIF, "sim", "native")
PY = sys.executable


class BuildError(Exception):
    pass


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def tree_files(sub):
    base = os.path.join(REPO, sub)
    out = []
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".c", ".o", ".mod")):
                continue
            out.append(os.path.join(root, f))
    return sorted(out)


def digest():
    h = hashlib.sha256()
    for p in tree_files("tbplas/fortran") + tree_files("tbplas/cython") + \
            [os.path.join(REPO, "CMakeLists.txt")] + \
            sorted(os.path.join(NATIVE, f) for f in os.listdir(NATIVE)) + [os.path.abspath(__file__)]:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    import numpy
    h.update((sys.version + numpy.__version__).encode())
    return h.hexdigest()[:16]


def cmake_sources():
    """Sources of the f2py module, in the order the project's own build lists them."""
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    exported = re.search(r"-m numpy\.f2py(.*?)-m f2py", text, re.S).group(1)
    exp = re.findall(r"tbplas/fortran/([\w.]+)", exported)
    body = re.search(r"python_add_library\(f2py MODULE(.*?)WITH_SOABI", text, re.S).group(1)
    src = re.findall(r"tbplas/fortran/([\w.]+)", body)
    cyx = re.search(r"set\(CYX_PREFIX ([^)]*)\)", text).group(1).split()
    return exp, src, cyx


def ensure(variants=("fast",)):
    """Returns the directory with the built modules."""
    os.makedirs(WORK, exist_ok=True)
    dg = digest()
    out = os.path.join(WORK, "build-" + dg)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        todo = [v for v in variants if not os.path.exists(os.path.join(out, v + ".ok"))]
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            if not os.path.exists(os.path.join(out, "base.ok")):
                jobs += [ex.submit(build_base, out, ex)]
            for v in todo:
                jobs.append(ex.submit(build_fortran, out, v))
            for j in jobs:
                j.result()
        # keep the work area small: only the newest few builds stay
        dirs = sorted((d for d in os.listdir(WORK) if d.startswith("build-")),
                      key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
        for d in dirs[:-6]:
            if d != "build-" + dg:
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    return out


def _inc():
    import numpy
    import numpy.f2py
    return (["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()], numpy.f2py.get_include())


def build_cython(out, pref):
    inc, _ = _inc()
    tmp = os.path.join(out, "cy-" + pref)
    shutil.rmtree(tmp, ignore_errors=True)
    # mirror the package layout, so that Cython derives the right module names
    pk = os.path.join(tmp, "tbplas", "cython")
    os.makedirs(pk)
    shutil.copy(os.path.join(REPO, "tbplas", "__init__.py"), os.path.join(tmp, "tbplas"))
    for f in tree_files("tbplas/cython"):
        shutil.copy(f, pk)
    cython = os.path.join(os.path.dirname(PY), "cython")
    run([cython, os.path.join(pk, pref + ".pyx"), "--output-file", os.path.join(tmp, pref + ".c")], tmp)
    run(["gcc", "-O2", "-w", "-fPIC", "-shared"] + inc + [pref + ".c", "-o", os.path.join(out, "cy_" + pref + ".so")], tmp)
    shutil.rmtree(tmp, ignore_errors=True)


def build_base(out, ex):
    inc, f2inc = _inc()
    _, _, cyx = cmake_sources()
    js = [ex.submit(build_cython, out, p) for p in cyx]
    run(["gcc", "-O2", "-w", "-fPIC", "-shared"] + inc + [os.path.join(NATIVE, "simmem.c"), "-o",
        os.path.join(out, "simmem.so")], out)
    for j in js:
        j.result()
    open(os.path.join(out, "base.ok"), "w").close()


def build_fortran(out, variant):
    inc, f2inc = _inc()
    exp, src, _ = cmake_sources()
    tmp = os.path.join(out, "f-" + variant)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    fdir = os.path.join(tmp, "src")
    os.makedirs(fdir)
    for f in tree_files("tbplas/fortran"):
        shutil.copy(f, fdir)
    run([PY, "-m", "numpy.f2py"] + [os.path.join(fdir, f) for f in exp] + ["-m", "f2py", "--lower"], tmp)
    flags = {"fast": ["-O2"], "omp": ["-O0", "-fsanitize=thread"]}[variant]
    objs = []
    for f in src:
        o = os.path.join(tmp, f + ".o")
        run(["gfortran", "-cpp", "-fopenmp", "-fno-second-underscore", "-w", "-g", "-fPIC"] + flags +
            ["-J" + tmp, "-I" + fdir, "-c", os.path.join(fdir, f), "-o", o], tmp)
        objs.append(o)
    for c, fl in ((os.path.join(tmp, "f2pymodule.c"), []), (os.path.join(f2inc, "fortranobject.c"), []),
                  (os.path.join(NATIVE, "simomp.c"), ["-fvisibility=hidden"])):
        o = os.path.join(tmp, os.path.basename(c) + ".o")
        run(["gcc", "-O2", "-w", "-fPIC", "-g"] + fl + inc + ["-I" + f2inc, "-c", c, "-o", o], tmp)
        objs.append(o)
    run(["gcc", "-shared", "-o", os.path.join(out, "f2py_%s.so" % variant)] + objs +
        ["-Wl,--wrap=malloc", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-lgfortran", "-lmvec", "-lm",
         "-Wl,--unresolved-symbols=ignore-in-object-files" if False else "-Wl,-z,lazy", "-Wl,-z,undefs"], tmp)
    # anything OpenMP that our runtime does not provide is a build error, not a crash at run time
    und = run(["nm", "-D", "--undefined-only", os.path.join(out, "f2py_%s.so" % variant)], tmp)
    bad = [l.split()[-1] for l in und.splitlines() if re.search(r"\b(GOMP_|omp_|__tsan_)", l)]
    if bad:
        raise BuildError("OpenMP symbols without a simulated implementation: %s" % bad)
    shutil.rmtree(tmp, ignore_errors=True)
    open(os.path.join(out, variant + ".ok"), "w").close()


if __name__ == "__main__":
    import time
    t = time.time()
    print(ensure(sys.argv[1:] or ("fast", "omp")), "%.1f s" % (time.time() - t))
