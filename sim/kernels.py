"""Workloads that reach every native entry point through the public API (C08, C09)."""
import os
import pickle

import numpy as np

from . import models, tbpm
from .util import quiet

KINDS = ["dos", "ldos", "ac", "dyn_pol", "dc", "hall", "qe", "haydock", "psi_t", "hall_cond", "lind_reg", "lind_arb",
         "lind_ac"]
CY = ["cy_lind_reg", "cy_lind_arb", "cy_lind_ac", "sample", "bands", "super"]


def gen(t, kinds, max_steps=4, small=True):
    k = t.choice("kind", kinds)
    c = {"kind": k}
    if "lind" in k:
        c["pc"] = models.pc_spec(t, min_orb=2, max_orb=4)
        c["mesh"] = [t.between("opt", 1, 3), t.between("opt", 1, 3), 1]
        c["nq"] = t.between("opt", 1, 2)
        c["ne"] = t.between("opt", 2, 6)
        c["rseed"] = t.draw("opt", 1 << 30)
        c["comp"] = t.choice("opt", [a + b for a in "xyz" for b in "xyz"])
    elif k == "bands":
        c["pc"] = models.pc_spec(t, min_orb=1, max_orb=5)
        c["conv"] = t.between("opt", 1, 2)
        c["kpts"] = models.k_points(t, max_n=3).tolist()
    else:
        c["sample"] = models.sample_spec(t, max_dim=2 if small else 3, connected=not small or t.chance("opt", 1, 3))
        c["conf"] = tbpm.config_spec(t, max_samples=2, max_steps=max_steps)
        c["conf"]["chk"] = 128
        c["conf"]["fft"] = t.choice("opt", [64, 128, 256])
        c["conf"]["depth"] = t.between("opt", 1, 4)
        c["kpts"] = models.k_points(t, max_n=2).tolist()
    return c


def calc(c, eps=0.0):
    """Runs the case; eps perturbs the model (conditioning probe).  Returns (outputs, inputs before/after)."""
    import tbplas as tb
    k = c["kind"]
    watch = []

    def keep(*arrs):
        for a in arrs:
            watch.append((a, np.array(a)))

    with quiet():
        if "lind" in k:
            spec = c["pc"]
            pc = models.build_pc(spec)
            if eps:
                pc.set_orbital(0, energy=pc.get_orbital(0).energy * (1 + eps) + eps)
            s = tb.Lindhard(pc, kmesh_size=tuple(c["mesh"]), dimension=2, energy_max=3.0, energy_step=c["ne"],
                            temperature=3000.0, delta=0.1, enable_mpi=False)
            g = models.rnd(c["rseed"])
            qg = g.integers(-2, 3, (c["nq"], 3))
            qg[:, 2] = 0
            qc = np.round(g.uniform(-3, 3, (c["nq"], 3)), 3)
            fort = not k.startswith("cy_")
            keep(qg, qc, pc.orb_pos, pc.orb_eng, pc.hop_ind, pc.hop_eng)
            if k.endswith("reg"):
                out = s.calc_dyn_pol_regular(qg, use_fortran=fort)
            elif k.endswith("arb"):
                out = s.calc_dyn_pol_arbitrary(qc, use_fortran=fort)
            else:
                out = s.calc_ac_cond(c["comp"], use_fortran=fort)
        elif k == "bands":
            pc = models.build_pc(c["pc"])
            kp = np.array(c["kpts"])
            keep(kp)
            out = []
            pc.sync_array()
            for q in kp:
                h = np.zeros((pc.num_orb, pc.num_orb), dtype=complex)
                pc.set_ham_dense(q, h, c["conv"])
                out += [h, pc.set_ham_csr(q, c["conv"]).toarray()]
        else:
            smp = models.build_sample(c["sample"])
            if eps:
                smp.hop_v *= (1 + eps)
                smp.orb_eng *= (1 + eps)
            if k in ("sample", "super"):
                smp.init_orb_pos()
                keep(smp.orb_eng, smp.orb_pos, smp.hop_i, smp.hop_j, smp.hop_v, smp.dr)
                out = sample_arrays(smp, c)
            else:
                f = tbpm.build_config(c["conf"], smp.num_orb)
                f.LDOS["recursion_depth"] = c["conf"]["depth"]
                if k == "haydock":
                    f.LDOS["site_indices"] = f.LDOS["site_indices"][:1]
                smp.init_orb_pos()
                keep(smp.orb_eng, smp.orb_pos, smp.hop_i, smp.hop_j, smp.hop_v, smp.dr)
                if k == "hall_cond":
                    g = models.rnd(c["conf"]["rseed"] + 9)
                    n = c["conf"]["nk"]
                    mu = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
                    keep(mu)
                    out = tb.Analyzer(smp, f, dimension=2).calc_hall_cond(mu * (1 + eps) if eps else mu)
                else:
                    s = tb.Solver(smp, f, directory="out", prefix="k")
                    out = tbpm.call(s, k, c["conf"], smp.num_orb)
    changed = [i for i, (a, b) in enumerate(watch) if not np.array_equal(a, b)]
    return [np.array(x) for x in out], changed


def sample_arrays(smp, c):
    out = [smp.orb_eng, smp.orb_pos, smp.hop_v, smp.dr, smp.hop_i, smp.hop_j]
    m = smp.build_ham_csr()
    m.sort_indices()
    out += [m.toarray()]
    for x in smp.build_dxy_csr():
        out.append(x.toarray())
    ip, ind, hop, dx, dy = smp.build_ham_dxy()
    n = len(ip) - 1
    d = np.zeros((3, n, n), dtype=complex)
    for i in range(n):
        for j in range(ip[i], ip[i + 1]):
            d[0, i, ind[j]] += hop[j]
            d[1, i, ind[j]] += dx[j]
            d[2, i, ind[j]] += dy[j]
    out.append(d)
    for q in c["kpts"]:
        h = np.zeros((n, n), dtype=complex)
        smp.set_ham_dense(np.array(q), h)
        out += [h, smp.set_ham_csr(np.array(q)).toarray()]
    return out


def reference(c):
    """Single-threaded reference and per-output tolerance from a perturbed model; (ref, changed inputs, tol or None).

    The perturbed calculation runs in a process of its own, so that state left behind by one calculation cannot pass
    for ill-conditioning of the other."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            pert, _ = calc(c, eps=1e-12)
            with os.fdopen(w, "wb") as f:
                pickle.dump(pert, f)
            os._exit(0)
        except BaseException as e:                             # noqa: the reference below meets the same error
            os.write(2, repr(e).encode())
        finally:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ref, ch = calc(c)
    return ref, ch, tolerance(ref, pickle.loads(data)) if data else None


def tolerance(ref, pert):
    tol = []
    for a, b in zip(ref, pert):
        if a.shape != b.shape or not (np.isfinite(a).all() and np.isfinite(b).all()):
            return None
        d = np.abs(a - b).max() if a.size else 0.0
        s = np.abs(a).max() if a.size else 0.0
        if d > 1e-8 * max(s, 1e-6):
            return None
        tol.append(1e-9 * s + 1e-10 + 200 * d)
    return tol
