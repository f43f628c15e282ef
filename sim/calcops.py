"""Histories of calculations on shared calculators: plain-data states, edits, calculations."""
import copy

import numpy as np

from . import models, tbpm

GENERIC = 1.0
ENG = (0.137, -0.411, 0.893, -1.0, -2.0, 0.557, 1.291, -0.733)
HOP = (0.613, -0.287, 0.411 + 0.223j, -1.0, -2.0, 0.171 - 0.317j, -0.859)
COMPS = ("z", "x", "y")


# ---------------------------------------------------------------------------------- plain states
def new_state(t, kind):
    spec = models.pc_spec(t, min_orb=2, max_orb=4, dims=2 if kind == "sample" else None)
    lat, orbs, hops = models.pc_data(spec)
    s = {"kind": kind, "lat": lat, "orbs": [list(o) for o in orbs], "hops": {(h[0], h[1], h[2]): complex(h[3]) for h in hops},
         "occ": t.between("model", 1, 2), "major": not t.chance("model", 1, 2), "kgrid": models.k_points(t, "model", 4),
         "lind": {"kmesh_size": (t.between("model", 1, 3), t.between("model", 1, 2), 1), "dimension": t.between("model", 2, 3),
                  "energy_max": 4.0, "energy_step": t.between("model", 1, 6), "mu": t.choice("model", [0.0, 0.3]),
                  "delta": 0.1, "g_s": t.between("model", 1, 2), "temperature": 3000.0}}
    if kind == "overlap":
        s["onsite"] = {i: 1.0 + 0.05 * i for i in range(len(orbs))}
        s["offsite"] = {sorted(s["hops"])[0]: 0.01}
    if kind == "fake":
        s["par"] = [1.0, 0.5, 0.2]
    if kind == "sample":
        s["dim"] = (3, t.between("model", 3, 4), 1)
        s["pbc"] = (not t.chance("model", 1, 4), not t.chance("model", 1, 4), False)
        s["vac"] = []
        s["mods"] = [("rescale", None)]
        s["conf"] = conf(t)
        s["adim"] = t.between("model", 2, 3)
    return s


def conf(t):
    c = tbpm.config_spec(t, max_samples=2, max_steps=6)
    c["nk"] = min(c["nk"], 5)
    c["bprec"] = t.choice("conf", [1e-14, 1e-14, 1e-7, 1e-4])
    c["arrays"] = t.chance("conf", 1, 2)
    return c


def make_config(c, num):
    f = tbpm.build_config(c, num)
    f.generic["Bessel_precision"] = c["bprec"]
    f.generic["wfn_check_thr"] = max(1e-9, 1e3 * c["bprec"])
    f.LDOS["recursion_depth"] = 4
    if c["arrays"]:                               # parameters given as arrays instead of lists
        f.dyn_pol["q_points"] = np.array(f.dyn_pol["q_points"])
        f.dckb["energies"] = np.array(f.dckb["energies"])
        f.quasi_eigenstates["energies"] = np.array(f.quasi_eigenstates["energies"])
        f.LDOS["site_indices"] = np.array(f.LDOS["site_indices"])
    return f


def sites(s):
    return s["dim"][0] * s["dim"][1] * len(s["orbs"]) - len(s["vac"])


# ------------------------------------------------------------------------------------------ edits
def draw_edit(t, s):
    """One permitted change of the model or the configuration; None if there is nothing to do."""
    n, kind = len(s["orbs"]), s["kind"]
    if kind == "fake":
        return ("par", t.draw("op", 3), t.choice("op", [0.3, 0.7, -1.0, -2.0]))
    ops = [("eng", 4), ("hop", 4), ("pos", 2), ("newhop", 2), ("delhop", 1)]
    if kind == "cell":
        ops += [("addorb", 2), ("delorb", 2), ("kgrid", 2), ("kset", 1)]
    if kind == "overlap":
        ops = [("eng", 3), ("hop", 3), ("onsite", 3), ("offsite", 3)]
    if kind == "sample":
        ops += [("vac", 2), ("rescale", 2), ("field", 2), ("reset", 1), ("conf", 5)]
    op = t.weighted("op", ops)
    if op == "eng":
        return (op, t.draw("op", n), t.choice("op", ENG))
    if op == "pos":
        return (op, t.draw("op", n), tuple(round(t.real("op", 0, 1), 3) for _ in range(3)))
    if op in ("hop", "delhop"):
        key = t.choice("op", sorted(s["hops"]))
        if op == "delhop":
            return (op,) + key if len(s["hops"]) > 2 else None
        return (op,) + key + (t.choice("op", HOP),)
    if op == "newhop":
        rn = (t.draw("op", 3) - 1, t.draw("op", 3) - 1, 0)
        i, j = t.draw("op", n), t.draw("op", n)
        if (rn == (0, 0, 0) and i == j) or (rn, i, j) in s["hops"] or (tuple(-x for x in rn), j, i) in s["hops"]:
            return None
        return ("hop", rn, i, j, t.choice("op", HOP))
    if op == "addorb":
        return (op, tuple(round(t.real("op", 0, 1), 3) for _ in range(3)), t.choice("op", ENG)) if n < 6 else None
    if op == "delorb":
        i = t.draw("op", n)
        left = [k for k in s["hops"] if i not in k[1:]]
        return (op, i) if n > max(2, s["occ"]) and left else None
    if op in ("kgrid", "kset"):
        return (op, models.k_points(t, "op", 4)) if op == "kset" else (
            op, t.draw("op", len(s["kgrid"])), t.draw("op", 3), t.choice("op", [-1.0, -2.0, 0.25, 0.1]))
    if op == "onsite":
        return (op, t.draw("op", n), 1.0 + 0.03 * t.draw("op", 5))
    if op == "offsite":
        return (op,) + t.choice("op", sorted(s["hops"])) + (t.choice("op", [0.01, -0.02, 0.03]),)
    if op == "vac":
        k = t.draw("op", 3)
        return (op, sorted(set((t.draw("op", s["dim"][0]), t.draw("op", s["dim"][1]), 0, t.draw("op", n)) for _ in range(k))))
    if op == "rescale":
        return (op, t.choice("op", [None, 40.0, 60.0]))
    if op == "field":
        return (op, t.choice("op", [50.0, -500.0]), t.draw("op", 3))
    if op == "reset":
        return (op,)
    if op == "conf":
        return (op, conf(t))
    raise AssertionError(op)


def plain_edit(s, op):
    k = op[0]
    reset = s["kind"] == "sample"
    if k == "eng":
        s["orbs"][op[1]][1] = op[2]
    elif k == "pos":
        s["orbs"][op[1]][0] = op[2]
    elif k == "hop":
        s["hops"][op[1:4]] = complex(op[4])
    elif k == "delhop":
        del s["hops"][op[1:4]]
    elif k == "addorb":
        s["orbs"].append([op[1], op[2]])
    elif k == "delorb":
        x = op[1]
        del s["orbs"][x]
        s["hops"] = {(rn, i - (i > x), j - (j > x)): e for (rn, i, j), e in s["hops"].items() if x not in (i, j)}
    elif k == "kgrid":
        s["kgrid"][op[1], op[2]] = op[3]
    elif k == "kset":
        s["kgrid"] = op[1].copy()
    elif k == "onsite":
        s["onsite"][op[1]] = op[2]
    elif k == "offsite":
        s["offsite"][op[1:4]] = op[4]
    elif k == "par":
        s["par"][op[1]] = op[2]
    elif k == "vac":
        s["vac"] = op[1]
    elif k == "conf":
        s["conf"] = op[1]
        reset = False
    elif k in ("rescale", "field"):
        s["mods"].append(op)
        reset = False
    elif k == "reset":
        pass
    else:
        raise AssertionError(k)
    if reset:
        s["mods"] = [("rescale", None)]           # every change of the model is followed by a new rescaling
    return s


# ------------------------------------------------------------------------------------ real objects
class Live:
    """Models and calculators built from a plain state; calculators are created on first use and then reused."""
    def __init__(self, s, mpi=False):
        import tbplas as tb
        self.s, self.mpi, self.obj = s, mpi, {}
        self.ov = self.sample = None
        self.kgrid = s["kgrid"].copy()
        if s["kind"] == "fake":
            self.model = fake(s)
            return
        pc = tb.PrimitiveCell(lat_vec=s["lat"].copy(), unit=tb.NM)
        for pos, eng in s["orbs"]:
            pc.add_orbital(pos, energy=eng)
        for (rn, i, j), e in s["hops"].items():
            pc.add_hopping(rn, i, j, e)
        self.pc = self.model = pc
        if s["kind"] == "overlap":
            self.ov = tb.Overlap(pc)
            for i, v in s["onsite"].items():
                self.ov.set_onsite(i, v)
            for k, v in s["offsite"].items():
                self.ov.add_offsite(*k, v)
        if s["kind"] == "sample":
            self.sc = tb.SuperCell(pc, dim=s["dim"], pbc=s["pbc"], vacancies=s["vac"] or None)
            self.model = self.sample = tb.Sample(self.sc)
            for m in s["mods"]:
                self.modify(m)
            self.config = make_config(s["conf"], sites(s))

    def modify(self, m):
        if m[0] == "rescale":
            self.sample.rescale_ham(m[1])
        else:
            self.sample.set_magnetic_field(m[1], m[2])

    def edit(self, op, s):
        """Applies op to the real objects; s is the plain state after the change."""
        self.s = s
        k, pc = op[0], getattr(self, "pc", None)
        if k in ("eng", "pos", "hop", "delhop", "addorb", "delorb"):
            if self.sample is not None:
                pc.unlock()
            if k == "eng":
                pc.set_orbital(op[1], energy=op[2])
            elif k == "pos":
                pc.set_orbital(op[1], position=op[2])
            elif k == "hop":
                pc.add_hopping(*op[1:])
            elif k == "delhop":
                pc.remove_hopping(*op[1:])
            elif k == "addorb":
                pc.add_orbital(op[1], energy=op[2])
            elif k == "delorb":
                pc.remove_orbital(op[1])
            if self.sample is not None:
                pc.update()
                self.sample.rescale_ham()
        elif k == "kgrid":
            self.kgrid[op[1], op[2]] = op[3]
            if "spin" in self.obj:
                self.obj["spin"].k_grid = self.kgrid
        elif k == "kset":
            self.kgrid = op[1].copy()
            if "spin" in self.obj:
                self.obj["spin"].k_grid = self.kgrid
        elif k == "onsite":
            self.ov.set_onsite(op[1], op[2])
        elif k == "offsite":
            self.ov.add_offsite(*op[1:])
        elif k == "par":
            self.model.par[op[1]] = op[2]
        elif k == "vac":
            self.sc.unlock()
            self.sc.set_vacancies(op[1])
            self.sc.update()
            self.sample.rescale_ham()
        elif k in ("rescale", "field"):
            self.modify(op)
        elif k == "reset":
            self.sample.reset_array()
            self.sample.rescale_ham()
        elif k == "conf":
            pass
        else:
            raise AssertionError(k)
        if self.sample is not None:              # site indices depend on the number of orbitals
            new = make_config(s["conf"], sites(s))
            for a in ("generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb", "quasi_eigenstates"):
                getattr(self.config, a).update(getattr(new, a))

    def get(self, name):
        import tbplas as tb
        from tbplas.diagonal import DiagSolver
        s = self.s
        if name not in self.obj:
            kw = dict(enable_mpi=self.mpi, echo_details=False)
            self.obj[name] = {
                "diag": lambda: DiagSolver(self.model, self.ov, **kw),
                "spin": lambda: tb.SpinTexture(self.model, self.kgrid, s["major"], **kw),
                "z2": lambda: tb.Z2(self.model, s["occ"], **kw),
                "lind": lambda: tb.Lindhard(self.model, **s["lind"], **kw),
                "tbpm": lambda: tb.Solver(self.sample, self.config, directory="out", prefix="x", **kw),
                "vis": lambda: tb.Visualizer(enable_mpi=self.mpi),
                "ana": lambda: tb.Analyzer(self.sample, self.config, dimension=s["adim"], **kw)}[name]()
        return self.obj[name]


def fake(s):
    from tbplas.diagonal import FakePC

    class F(FakePC):
        par = list(s["par"])

        def set_ham_dense(self, k, ham, convention=1):
            a, b, c = self.par
            for i in range(self.num_orb):
                ham[i, i] += 0.3 * i + a * np.cos(2 * np.pi * k[0]) + b * np.cos(2 * np.pi * k[1])
                for j in range(i):
                    v = c * np.exp(2j * np.pi * (k[0] * (i - j) + 0.3 * k[2]))
                    ham[i, j] += v
                    ham[j, i] += np.conj(v)
    return F(len(s["orbs"]), s["lat"], 1.0)


# ----------------------------------------------------------------------------------- calculations
def draw_calc(t, s, legal=False):
    """legal: only calculations that succeed."""
    n, kind = len(s["orbs"]), s["kind"]
    what = {"cell": ["bands", "states", "dos", "spin", "z2", "regular", "arbitrary", "ac"],
            "overlap": ["bands", "states", "dos"], "fake": ["bands", "states", "dos", "spin", "z2"],
            "sample": ["bands", "states", "dos"] + tbpm.KINDS * 2 + ["haydock", "psi_t"]}[kind]
    if not legal and kind in ("cell", "sample"):
        what = what + ["wfc3d"]
    what = t.choice("calc", what)
    if legal and what == "spin" and n % 2:
        what = "bands"
    c = {"what": what, "k": models.k_points(t, "calc", 4)}
    if what in ("bands", "states", "dos"):
        nn = sites(s) if kind == "sample" else n
        c["conv"] = 1 if kind == "sample" else t.between("calc", 1, 2)
        if what != "states" and t.chance("calc", 1, 3):
            c["orb"] = [t.draw("calc", nn) for _ in range(2)]
        if kind in ("cell", "sample") and nn >= 4 and t.chance("calc", 1, 6):
            c["arpack"] = t.between("calc", 1, 2)
        if what == "dos":
            c["dos"] = {"e_step": 0.2, "basis": t.choice("calc", ["Gaussian", "Lorentzian"]), "g_s": t.between("calc", 1, 2)}
            if t.chance("calc", 1, 2):
                c["dos"].update(e_min=-2.5, e_max=2.0)
    elif what == "spin":
        c["comp"] = t.choice("calc", COMPS)
    elif what == "z2":
        c["nka"], c["nkb"] = t.between("calc", 2, 4), t.between("calc", 1, 3)
        if t.chance("calc", 1, 4):
            c["reorder"] = (t.choice("calc", [0.1, 1.0]), t.chance("calc", 1, 2), t.draw("calc", 1 << 20))
    elif what in ("regular", "arbitrary"):
        g = models.rnd(t.draw("calc", 1 << 30))
        q = t.between("calc", 1, 2)
        c["q"] = g.integers(-2, 3, (q, 3)) if what == "regular" else np.round(g.uniform(-2, 2, (q, 3)), 3)
        if what == "regular":
            c["q"][:, 2] = 0
        c["fortran"] = not t.chance("calc", 1, 2)
        c["eps"] = t.chance("calc", 1, 3)
    elif what == "wfc3d":
        c["seed"], c["conv"] = t.draw("calc", 1 << 30), t.between("calc", 1, 2)
        c["part"] = t.choice("calc", ["real", "imag", "abs"])
        c["rn"] = t.choice("calc", [None, [0, 0, 0], [1, 0, 0], [0, 1, 0]])
        c["given"] = t.draw("calc", 4)
    elif what == "ac":
        c["comp"] = t.choice("calc", [a + b for a in "xyz" for b in "xyz"])
        c["fortran"] = not t.chance("calc", 1, 2)
        c["eps"] = t.chance("calc", 1, 3)
    else:
        c["ana"] = t.chance("calc", 1, 2)
        c["save"] = t.chance("calc", 1, 2)
    return c


def calculate(L, c, args):
    """Performs calculation c on the calculators of L.  args collects the caller's arrays.  Returns (kind, [arrays])."""
    what, s = c["what"], L.s

    def arg(x):
        x = np.array(x)
        args.append((x, x.copy()))
        return x
    if what in ("bands", "states", "dos"):
        d = L.get("diag")
        kw = {"convention": c["conv"]}
        if c.get("arpack"):
            kw.update(solver="arpack", k=c["arpack"], which="LA")
        if c.get("orb"):
            kw["orbital_indices"] = arg(c["orb"])
        if what == "bands":
            return "plain", list(d.calc_bands(arg(c["k"]), **kw))
        if what == "states":
            return "states", list(d.calc_states(arg(c["k"]), **kw))
        return "plain", list(d.calc_dos(arg(c["k"]), **c["dos"], **kw))
    if what == "spin":
        return "spin", [L.get("spin").eval(c["comp"])]
    if what == "z2" and c.get("reorder"):
        thr, smooth, seed = c["reorder"]
        z = L.get("z2")
        ph = arg(np.sort(np.round(models.rnd(seed).uniform(-3, 3, (6, z.num_occ)), 3), axis=1))
        out = z.reorder_phases(ph, thr, smooth)
        return "plain", [out, np.array([z.count_crossing(ph, 0.3)])]
    if what == "z2":
        return "phases", list(L.get("z2").calc_phases(arg(np.linspace(-.5, .5, c["nka"])), arg(np.linspace(0, .5, c["nkb"])),
                                                      0.1))
    if what in ("regular", "arbitrary"):
        li = L.get("lind")
        fn = li.calc_dyn_pol_regular if what == "regular" else li.calc_dyn_pol_arbitrary
        om, dp = fn(arg(c["q"]), use_fortran=c["fortran"])
        if c["eps"]:
            qc = np.asarray(c["q"], float) + 0.01
            dp2 = np.array(dp)
            args.append((dp2, dp2.copy()))
            return "plain", [om, dp, li.calc_epsilon(arg(qc), dp2)]
        return "plain", [om, dp]
    if what == "ac":
        li = L.get("lind")
        out = list(li.calc_ac_cond(c["comp"], use_fortran=c["fortran"]))
        if c["eps"]:                              # and the conversions between coordinates
            f, g = arg(np.array(c["k"], float)), arg(np.array([[5, -4, 3], [0, 7, -9]]))
            out += [li.wrap_frac(f), li.wrap_grid(g), li.grid2frac(g), li.grid2cart(g), li.frac2cart(f), li.cart2frac(f)]
            if s["lind"]["dimension"] == 3:
                out.append(li.calc_epsilon_q0(arg(out[0] + 0.1), arg(out[1])))
        return "plain", out
    if what == "wfc3d":
        return "plain", [wave_function(L, c, arg)]
    sol, num = L.get("tbpm"), sites(s)
    kw = {"save_data": c["save"]} if what in ("qe", "psi_t") else {}
    if what == "psi_t":
        kw["watch"] = arg
    out = tbpm.call(sol, what, s["conf"], num, **kw)
    if c["ana"] and what in ("dos", "ldos", "ac", "dyn_pol", "dc", "hall"):
        a = L.get("ana")
        ins = [arg(x) for x in out]
        fn = {"dos": a.calc_dos, "ldos": a.calc_ldos, "ac": a.calc_ac_cond, "dyn_pol": a.calc_dyn_pol, "dc": a.calc_dc_cond,
              "hall": a.calc_hall_cond}[what]
        more = list(fn(*ins))
        if what == "dyn_pol":
            more.append(a.calc_epsilon(arg(more[2])))
        if what == "ac" and s["adim"] == 3:
            more.append(a.calc_epsilon_q0(arg(more[0] + 0.1), arg(more[1])))
        if what == "dc":
            more += list(a.calc_diff_coeff(ins[1]))
        out = out + more
    return "plain", out


def wave_function(L, c, arg):
    """Numbers in the cube file of a wave function."""
    num = sites(L.s) if L.sample is not None else len(L.s["orbs"])
    g = models.rnd(c["seed"])
    kw = {"convention": c["conv"], "kind": c["part"], "resolution": 0.2, "cube_name": "c.cube",
          "k_point": arg(np.round(g.uniform(-.5, .5, 3), 2))}
    if c["rn"] is not None:
        kw["rn_max"] = arg(c["rn"])
    if c["given"] & 1:
        kw["cube_origin"] = arg([0.1, -0.1, -0.3])
    if c["given"] & 2:
        kw["cube_size"] = arg([0.5, 0.7, 0.9])
    qn = arg([[6, 2, 1, int(m)] for m in g.integers(-1, 2, num)])
    L.get("vis").plot_wfc3d(L.model, arg(g.normal(size=num) + 1j * g.normal(size=num)), qn, **kw)
    with open("c.cube") as f:
        text = f.read()
    return np.array([float(x) for x in text.split("\n", 2)[2].split()])


# --------------------------------------------------------------------------------- model contents
def contents(L):
    """Definition of the model as seen through public queries (may bring arrays up to date)."""
    s = L.s
    if s["kind"] == "fake":
        return [np.array(L.model.par), np.array(L.model.lat_vec)]
    pc = L.pc
    out = [np.array(pc.lat_vec), np.array(pc.origin), np.array([o.position for o in pc.orbitals], float),
           np.array([o.energy for o in pc.orbitals], float), table(pc)]
    out += [np.array(pc.orb_pos), np.array(pc.orb_eng), table_arrays(pc)]
    if L.ov is not None:
        out += [np.array([o.energy for o in L.ov.orbitals], float), table(L.ov), table_arrays(L.ov)]
    if L.sample is not None:
        m = L.sample
        m.init_orb_eng()
        m.init_orb_pos()
        m.init_hop()
        out += [np.array([m.rescale, m.energy_range]), np.array(m.orb_pos), m.build_ham_csr().toarray()]
    return out


def rows(items):
    r = []
    for rn, i, j, e in items:
        rn, i, j, e = tuple(int(x) for x in rn), int(i), int(j), complex(e)
        key, conj = (rn, i, j), (tuple(-x for x in rn), j, i)
        if conj < key:
            key, e = conj, e.conjugate()
        r.append(key[0] + key[1:] + (e.real, e.imag))
    return np.array(sorted(r), float).reshape(-1, 7)


def table(pc):
    return rows((rn, p[0], p[1], e) for rn, h in pc.hoppings.items() for p, e in h.items())


def table_arrays(pc):
    return rows((r[:3], r[3], r[4], e) for r, e in zip(np.array(pc.hop_ind), np.array(pc.hop_eng)))


def config_values(cfg):
    return copy.deepcopy({a: getattr(cfg, a) for a in ("generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb",
                                                       "quasi_eigenstates")})
