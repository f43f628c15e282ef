"""Workloads on the propagation solver shared by several properties."""
import numpy as np

from . import models

KINDS = ["dos", "ldos", "ac", "dyn_pol", "dc", "hall", "qe"]
FILES = {"dos": ["corr_DOS"], "ldos": ["corr_LDOS"], "ac": ["corr_AC"], "dyn_pol": ["corr_dyn_pol"],
         "dc": ["corr_DOS", "corr_DC"], "hall": ["hall_mu"], "qe": ["qe"], "haydock": ["ldos_haydock"],
         "psi_t": ["psi_t"]}


def config_spec(t, stream="conf", max_samples=6, max_steps=12):
    c = {"steps": t.between(stream, 2, max_steps), "samples": t.between(stream, 1, max_samples),
         "seed": 1 + t.draw(stream, 50000), "temp": t.choice(stream, [3000.0, 1000.0, 300.0]),
         "mu": t.choice(stream, [0.0, 0.3, -0.5]), "spin": t.chance(stream, 1, 3),
         "chk": t.choice(stream, [128, 2, 3]), "fft": t.choice(stream, [2 ** 9, 2 ** 10]),
         "nsite": t.between(stream, 1, 3), "nq": t.between(stream, 1, 3), "elim": t.choice(stream, [(-0.5, 0.5), (-2., 2.)]),
         "nk": t.between(stream, 2, 12), "dir": t.between(stream, 1, 2), "nen": t.between(stream, 1, 4),
         "rseed": t.draw(stream, 1 << 30)}
    return c


def enlarge(t, c, stream="big"):
    """Makes one case in forty much larger."""
    if t.chance(stream, 1, 40):
        f = c["conf"]
        f["steps"] = t.choice(stream, [f["steps"], 40, 260])
        f["samples"] = t.choice(stream, [f["samples"], 20, 40]) if f["steps"] < 100 else f["samples"]
        f["nsite"], f["nq"] = t.between(stream, 1, 12), t.between(stream, 1, 12)
        f["nk"], f["nen"] = t.choice(stream, [f["nk"], 40]), t.between(stream, 1, 30)
        for s in c["sample"]["scs"]:
            s["dim"][0] += t.draw(stream, 7)


def build_config(c, num_orb, samples=None):
    import tbplas as tb
    g = models.rnd(c["rseed"])
    f = tb.Config()
    f.generic["nr_time_steps"] = c["steps"]
    f.generic["nr_random_samples"] = samples if samples is not None else c["samples"]
    f.generic["seed"] = c["seed"]
    f.set_temperature(c["temp"])
    f.generic["mu"] = c["mu"]
    f.generic["correct_spin"] = c["spin"]
    f.generic["wfn_check_steps"] = c["chk"]
    f.generic["nr_Fermi_fft_steps"] = c["fft"]
    f.LDOS["site_indices"] = sorted(int(x) for x in g.choice(num_orb, size=min(c["nsite"], num_orb), replace=False))
    f.LDOS["recursion_depth"] = 20
    f.dyn_pol["q_points"] = np.round(g.uniform(-2, 2, (c["nq"], 3)), 3).tolist()
    if c["rseed"] % 8 == 5:
        f.dyn_pol["q_points"][-1] = [0.0, 0.0, 0.0]
    f.DC_conductivity["energy_limits"] = tuple(c["elim"])
    f.dckb["n_kernel"] = c["nk"]
    f.dckb["direction"] = c["dir"]
    f.dckb["energies"] = [round(-0.2 + 0.1 * i, 3) for i in range(c["nen"])]
    f.dckb["ne_integral"] = 32
    f.quasi_eigenstates["energies"] = np.round(g.uniform(-1, 1, c["nen"]), 3).tolist()
    return f


def call(solver, kind, conf, num_orb, **kw):
    if kind == "dos":
        return [solver.calc_corr_dos()]
    if kind == "ldos":
        return [solver.calc_corr_ldos()]
    if kind == "ac":
        return [solver.calc_corr_ac_cond()]
    if kind == "dyn_pol":
        return [solver.calc_corr_dyn_pol()]
    if kind == "dc":
        return list(solver.calc_corr_dc_cond())
    if kind == "hall":
        return [solver.calc_hall_mu()]
    if kind == "qe":
        return [solver.calc_quasi_eigenstates(**kw)]
    if kind == "haydock":
        return list(solver.calc_ldos_haydock())
    if kind == "psi_t":
        g = models.rnd(conf["rseed"] + 3)
        psi = g.normal(size=num_orb) + 1j * g.normal(size=num_orb)
        n = conf["steps"]
        log = sorted(set([0, n, int(g.integers(n + 1)), int(g.integers(n + 1))]))
        watch = kw.pop("watch", np.array)
        return [solver.calc_psi_t(watch(psi), watch(np.array(log)), **kw)]
    raise AssertionError(kind)


def dc_indices(c, energy_range):
    n = c["steps"]
    e = np.array([0.5 * i * energy_range / n - energy_range / 2. for i in range(n * 2)])
    return int(((e >= c["elim"][0]) & (e <= c["elim"][1])).sum())
