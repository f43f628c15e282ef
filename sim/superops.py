"""A world of connected models (primitive cells, supercells, inter-supercell hoppings, samples) and its reference."""
import numpy as np

from . import cellops as co
from .util import Canvas, no_figures
from .cellops import need, need_close
from .refcell import RefCell
from .refsuper import POSMODS, RefSample, RefSuper, canon

DIMS = ((3, 3, 1), (3, 1, 1), (4, 3, 1), (3, 3, 3), (5, 1, 1), (3, 4, 1), (1, 1, 3), (1, 3, 3))
SHAPES = (tuple, list, np.array)


class Cell:
    def __init__(self, pc, ref):
        self.obj, self.ref, self.supers, self.reach, self.focus = pc, ref, [], [1, 1, 1], None


class Super:
    def __init__(self, sc, ref, cell):
        self.obj, self.ref, self.cell, self.inters, self.samples = sc, ref, cell, [], []

    def need_orbs(self):
        """Smallest number of orbitals for which all indices in use are legal."""
        m = self.ref.max_mod()
        for x in self.inters:
            for (_, i, j) in x.tab:
                if x.bra is self:
                    m = max(m, i)
                if x.ket is self:
                    m = max(m, j)
        return m + 1


class Inter:
    def __init__(self, hop, bra, ket):
        self.obj, self.bra, self.ket, self.tab, self.samples = hop, bra, ket, {}, []


class Smp:
    def __init__(self, s, ref):
        self.obj, self.ref = s, ref


class Models:
    def __init__(self):
        self.cells, self.supers, self.inters, self.samples = [], [], [], []


# ---------------------------------------------------------------------------------------- creation
def new_cell(t, w):
    import tbplas as tb
    lat, org = t.choice("op", co.LATS), t.choice("op", co.ORIGINS)
    pc = tb.PrimitiveCell(lat_vec=lat.copy(), origin=org.copy(), unit=co.ANG)
    c = Cell(pc, RefCell(lat * co.ANG, org * co.ANG))
    for _ in range(t.between("op", 1, 3)):
        p, e = co.coord(t), t.choice("op", co.ENERGIES)
        pc.add_orbital(p, e)
        c.ref.orbs.append([co.full3(p), e, "X"])
    for _ in range(t.between("op", 1, 5)):
        co.edit(t, pc, c.ref, resize=False)
    fill(t, c)
    if t.chance("op", 1, 3):
        c.focus = t.choice("op", co.FOCUS)
    w.cells.append(c)
    return c


def fill(t, c, least=1):
    """Keeps a cell usable: enough orbitals and at least one term."""
    while c.ref.num_orb < least:
        c.obj.add_orbital((0.5, 0.0, 0.0), 1.0)
        c.ref.orbs.append([(0.5, 0.0, 0.0), 1.0, "X"])
    if not c.ref.hops:
        d = c.reach.index(1) if 1 in c.reach else None
        if d is None:
            while c.ref.num_orb < 2:
                fill(t, c, 2)
            rn, i, j = (0, 0, 0), 0, 1
        else:
            rn, i, j = tuple(int(x == d) for x in range(3)), 0, 0
        c.obj.add_hopping(rn, i, j, -1.0)
        c.ref.set_hop(rn, i, j, -1.0)


def new_super(t, w, c):
    import tbplas as tb
    used = [max([abs(k[0][d]) for k in c.ref.hops], default=0) for d in range(3)]
    dims = [d for d in DIMS if all(d[x] >= 2 * used[x] + 1 for x in range(3))] or [(3, 3, 3)]
    dim = t.choice("op", dims)
    if t.chance("big", 1, 40) and c.ref.num_orb < 5:
        grown = list(dim)
        grown[t.draw("big", 2)] += t.choice("big", [3, 6, 9])
        dim = tuple(grown)
    pbc = tuple(t.chance("op", 1, 2) for _ in range(3))
    twin = t.choice("big", c.supers) if c.supers and t.chance("big", 1, 4) else None
    if twin is not None and all(twin.ref.dim[x] >= 2 * used[x] + 1 for x in range(3)):
        dim, pbc = tuple(twin.ref.dim), tuple(twin.ref.pbc)   # a second supercell just like the first
    else:
        twin = None
    pm = t.choice("op", POSMODS) if t.chance("op", 1, 3) else None
    ref = RefSuper(c.ref, dim, pbc)
    ref.posmod = pm
    vac = random_vacancies(t, ref) if t.chance("op", 1, 2) else None
    if twin is not None:
        vac = [v for v in sorted(twin.ref.vac) if v[3] < c.ref.num_orb]
        vac = vac if 0 < len(vac) < len(ref.ids()) else None
    args = dict(vacancies=None if vac is None else vac_arg(t, vac), orb_pos_modifier=pm)
    if dim[2] == 1 and not pbc[2] and t.chance("op", 1, 2):
        sc = tb.SuperCell(c.obj, dim[:2], pbc[:2], **args)
    else:
        sc = tb.SuperCell(c.obj, dim, pbc, **args)
    if vac:
        ref.vac |= set(vac)
    s = Super(sc, ref, c)
    c.supers.append(s)
    c.reach = [int(c.reach[d] == 1 and dim[d] >= 3) for d in range(3)]
    w.supers.append(s)
    return s


def random_vacancies(t, ref, least=0):
    free = ref.ids()
    k = t.between("op", 0, 3) if not t.chance("big", 1, 20) else t.between("big", 0, len(free))
    return t.sample("op", free, max(0, min(k, len(free) - max(1, least))))


def vac_arg(t, vac):
    k = t.draw("op", 3)
    if k == 0 or not vac:
        return list(vac)
    if k == 1:
        return np.array(vac, dtype=np.int32)
    return tuple(np.array(v) for v in vac)


def new_inter(t, w):
    import tbplas as tb
    a, b = t.choice("op", w.supers), t.choice("op", w.supers)
    if a is b:
        return None
    x = Inter(tb.SCInterHopping(a.obj, b.obj), a, b)
    a.inters.append(x)
    b.inters.append(x)
    w.inters.append(x)
    for _ in range(t.between("op", 1, 3)):
        add_inter(t, x)
    return x


def add_inter(t, x):
    rn = co.cell_index(t)
    i, j, e = t.draw("op", x.bra.ref.num_orb), t.draw("op", x.ket.ref.num_orb), t.choice("op", co.HOPS)
    x.obj.add_hopping(rn, i, j, e)
    x.tab[(rn + (0,) * (3 - len(rn)), i, j)] = e


def edit_inter(t, x):
    """One edit of an unlocked inter-supercell hopping, which keeps at least one term; returns its name."""
    op = t.weighted("op", [("add", 3), ("overwrite", 2), ("remove", 2), ("remove_rn", 1), ("remove_orbitals", 1)])
    k = t.choice("op", sorted(x.tab)) if x.tab else None
    if k is None:
        op = "add"
    if op == "overwrite":
        e = t.choice("op", co.HOPS)
        x.obj.add_hopping(t.choice("op", [tuple, list])(k[0]), k[1], k[2], e)
        x.tab[k] = e
    elif op == "remove" and len(x.tab) > 1:
        need(x.obj.remove_hopping(*k) is True, "remove_hopping", "reports that nothing was removed")
        del x.tab[k]
    elif op == "remove_rn" and any(j[0] != k[0] for j in x.tab):
        need(x.obj.remove_rn(k[0]) is True, "remove_rn", "reports that nothing was removed")
        for j in [j for j in x.tab if j[0] == k[0]]:
            del x.tab[j]
    elif op == "remove_orbitals":
        gone = t.sample("op", range(8), t.between("op", 1, 2))
        new = {(rn, i - sum(g < i for g in gone), j - sum(g < j for g in gone)): e
               for (rn, i, j), e in x.tab.items() if i not in gone and j not in gone}
        if not new:
            return "nothing"
        x.obj.remove_orbitals(t.choice("op", [list, tuple, np.array])(gone))
        x.tab.clear()
        x.tab.update(new)
    else:
        op = "add"
        add_inter(t, x)
    return "inter " + op


def new_sample(t, w):
    import tbplas as tb
    n = t.between("op", 1, min(3, len(w.supers)))
    sel = t.sample("op", w.supers, n)
    hops = [x for x in w.inters if x.bra in sel and x.ket in sel and t.chance("op", 3, 4)]
    args = sel + hops
    args = [args[i] for i in t.perm("op", len(args))]
    sel, hops = [a for a in args if isinstance(a, Super)], [a for a in args if isinstance(a, Inter)]
    s = Smp(tb.Sample(*[a.obj for a in args]),
            RefSample([a.ref for a in sel], [[sel.index(h.bra), sel.index(h.ket), h.tab] for h in hops]))
    for a in args:
        a.samples.append(s)
    w.samples.append(s)
    return s


# ------------------------------------------------------------------------------------------- edits
def samples_of_cell(c):
    return [s for sc in c.supers for s in sc.samples]


def keep_size(c):
    return None if c.focus in ("add_orbital_cart", "remove_orbitals", "trim") and any(sc.need_orbs() for sc in c.supers) else c.focus


def edit_cell(t, c):
    """1-3 edits of an unlocked primitive cell."""
    names = []
    fixed = max([sc.need_orbs() for sc in c.supers], default=0) > 0
    old = c.ref.num_orb
    for _ in range(t.between("op", 1, 3)):
        names.append(co.edit(t, c.obj, c.ref, reach=c.reach, resize=t.chance("op", 1, 2), focus=keep_size(c)))
    fill(t, c, old if fixed else 1)
    while any(len(sc.ref.ids()) == 0 for sc in c.supers):      # everything left is a vacancy
        fill(t, c, c.ref.num_orb + 1)
    return names


def edit_super(t, sc):
    """One edit of an unlocked supercell; returns its name."""
    ref, least = sc.ref, max(1, sc.need_orbs())
    op = t.weighted("op", [("add_vacancies", 3), ("set_vacancies", 2), ("add_hopping", 4), ("posmod", 2), ("trim", 1),
                           ("overwrite", 3)])
    if op == "add_vacancies":
        v = random_vacancies(t, ref, least)
        if len(v) == 1 and t.chance("op", 1, 2):
            sc.obj.add_vacancy(t.choice("op", SHAPES)(v[0]))
        else:
            sc.obj.add_vacancies(vac_arg(t, v))
        ref.vac |= set(v)
    elif op == "set_vacancies":
        keep, ref.vac = ref.vac, set()
        v = random_vacancies(t, ref, least)
        ref.vac = keep
        if v or t.chance("op", 1, 2):
            sc.obj.set_vacancies(vac_arg(t, v))
        else:
            sc.obj.set_vacancies(*t.choice("op", [(), (None,)]))
        ref.vac = set(v)
    elif op in ("add_hopping", "overwrite"):
        if op == "overwrite":
            ts = ref.terms()
            if not ts:
                return "nothing"
            i, j = t.choice("op", [x[:2] for x in ts])
            if t.chance("op", 1, 2):
                i, j = j, i
        else:
            i, j = t.draw("op", ref.num_orb), t.draw("op", ref.num_orb)
        rn = co.cell_index(t) if t.chance("op", 1, 2) else (0, 0, 0)
        r3 = rn + (0,) * (3 - len(rn))
        if i == j and r3 == (0, 0, 0):
            return "nothing"
        e = t.choice("op", co.HOPS)
        if ref.pair_used(i, j) and ref.norm(r3, i, j, e)[0] not in ref.mod:
            return "nothing"
        sc.obj.add_hopping(rn, i, j, e)
        ref.add_mod(r3, i, j, e)
    elif op == "posmod":
        ref.posmod = t.choice("op", POSMODS)
        sc.obj.set_orb_pos_modifier(ref.posmod)
    elif op == "trim":
        keep = (set(ref.vac), dict(ref.mod))
        ref.trim()
        if ref.num_orb < 1 or sc.need_orbs() > ref.num_orb:
            ref.vac, ref.mod = keep
            return "nothing"
        sc.obj.trim()
    return op


def edit_sample(t, s):
    op = t.weighted("op", [("rescale", 2), ("field", 2), ("k", 1)])
    if op == "rescale":
        f = t.choice("op", [2.0, 0.5, 10.0, 3.0, None])
        if f is None:
            eng, _, terms, scale = s.ref.arrays()
            h = s.ref.ham()[0] * scale
            e = np.abs(np.linalg.eigvalsh(h)).max() if np.isfinite(h).all() else 0.0
            if e < 1e-6:
                return "nothing"                  # nothing to estimate a factor from
            s.obj.rescale_ham()
            f = float(s.obj.rescale)
            need(f > 0.999999 * e, "rescale_ham()", "estimated factor %s, the largest eigenvalue is %s" % (f, e))
        else:
            s.obj.rescale_ham(f)
        s.ref.mods.append(("rescale", f))
    elif op == "field":
        b, g = t.choice("op", [1.0, -500.0, 50.0]), t.draw("op", 3)
        s.obj.set_magnetic_field(b, g)
        s.ref.mods.append(("field", b, g))
    else:
        k = tuple(co.kpoint(t))
        s.obj.set_k_point(np.array(k))
        s.ref.mods.append(("k", k))
    return op


# ----------------------------------------------------------------------------------------- queries
def need_terms(what, got, want):
    a, b = canon(got), canon(want)
    need(a[0].shape == b[0].shape, what, "%d terms instead of %d" % (len(a[0]), len(b[0])))
    need(np.array_equal(a[0], b[0]), what, "orbital pairs differ")
    need_close(what + " energies", a[1], b[1])
    need_close(what + " distances", a[2], b[2], 1e-8, 1e-8)


def s_counts(sc, t):
    v = (sc.obj.num_orb_sc, sc.obj.num_vac, sc.obj.num_orb_pc)
    return lambda: need(v == (sc.ref.num_orb, len(sc.ref.vac), sc.ref.cell.num_orb), "counters of the supercell", str(v))


def s_ids(sc, t):
    import tbplas.builder.exceptions as exc
    ids = sc.ref.ids()
    n = t.draw("query", len(ids))
    kind = t.choice("query", [tuple, np.array])
    many = t.choice("query", [list, lambda x: np.array(x, dtype=np.int32), lambda x: np.array(x, dtype=np.int64)])
    sel = t.sample("query", range(len(ids)), 4)
    v = t.choice("query", sorted(sc.ref.vac)) if sc.ref.vac else None

    def refused():
        try:
            return None if v is None else sc.obj.orb_id_pc2sc(v)
        except exc.IDPCVacError:
            return None

    todo = {"one": lambda: tuple(int(x) for x in sc.obj.orb_id_sc2pc(n)), "back": lambda: sc.obj.orb_id_pc2sc(kind(ids[n])),
            "arr": lambda: np.array(sc.obj.orb_id_sc2pc_array(many(sel))),
            "brr": lambda: np.array(sc.obj.orb_id_pc2sc_array(many([ids[i] for i in sel]))),
            "vac": refused}
    got = {k: todo[k]() for k in t.sample("query", sorted(todo), 5)}     # in any order: each one has to be up to date

    def chk():
        need(got["one"] == ids[n], "orb_id_sc2pc(%d)" % n, "%s instead of %s" % (got["one"], ids[n]))
        need(got["back"] == n, "orb_id_pc2sc%s" % (ids[n],), "%s instead of %s" % (got["back"], n))
        need(np.array_equal(got["arr"], np.array([ids[i] for i in sel])), "orb_id_sc2pc_array", str(got["arr"].tolist()))
        need(np.array_equal(got["brr"], np.array(sel)), "orb_id_pc2sc_array", str(got["brr"].tolist()))
        need(got["vac"] is None, "orb_id_pc2sc of a vacancy", str(got["vac"]))
    return chk


def s_eng(sc, t):
    v = np.array(sc.obj.get_orb_eng())
    return lambda: need_close("get_orb_eng", v, sc.ref.eng(), 0, 0)


def s_pos(sc, t):
    v = np.array(sc.obj.get_orb_pos())
    return lambda: need_close("get_orb_pos", v, sc.ref.pos())


def s_hop(sc, t):
    i, j, v, dr = sc.obj.get_hop()

    def chk():
        need(i.dtype.kind == "i" and j.dtype.kind == "i", "get_hop", "indices of type %s, %s" % (i.dtype, j.dtype))
        need(len(i) == len(j) == len(v) == len(dr), "get_hop", "arrays of different length")
        need_terms("get_hop", list(zip(i, j, v, dr)), sc.ref.terms())
    return chk


def s_lat(sc, t):
    lv, vol = np.array(sc.obj.sc_lat_vec), sc.obj.get_lattice_volume()
    d = t.draw("query", 3)
    area, rec = sc.obj.get_lattice_area("abc"[d]), np.array(sc.obj.get_reciprocal_vectors())

    def chk():
        lat = sc.ref.lat
        need_close("sc_lat_vec", lv, lat)
        need_close("volume", vol, abs(np.linalg.det(lat)))
        need_close("area", area, np.linalg.norm(np.cross(lat[(d + 1) % 3], lat[(d + 2) % 3])))
        need_close("reciprocal vectors", rec @ lat.T, 2 * np.pi * np.eye(3), 1e-9, 1e-9)
    return chk


def s_plot(sc, t):
    sc.obj.plot(Canvas(), with_conj=t.chance("query", 1, 2), view=t.choice("query", ["ab", "bc", "ca", "ba"]),
                hop_as_arrows=t.chance("query", 1, 2))
    return lambda: None


SUPER_QUERIES = (s_counts, s_ids, s_eng, s_pos, s_hop, s_hop, s_lat, s_plot)
SYNCED = (s_ids, s_eng, s_pos, s_hop)        # these need consistent index arrays


def i_hop(x, t):
    if not x.tab:
        return lambda: None
    i, j, v, dr = x.obj.get_hop()
    i, j = np.array(i), np.array(j)

    def chk():
        pb, pk = x.bra.ref.pos(), x.ket.ref.pos()
        want = {k: e for k, e in x.tab.items()}
        need(len(i) == len(want), "inter-supercell terms", "%d instead of %d" % (len(i), len(want)))
        # bra and ket are different supercells: compare without exchanging them
        key = lambda r: (r[0], r[1]) + tuple(np.round(r[3], 6) + 0.0)
        got = sorted([(int(a), int(b), complex(c), d) for a, b, c, d in zip(i, j, v, dr)], key=key)
        exp = sorted([(a, b, complex(e), pk[b] + np.array(rn, float) @ x.ket.ref.lat - pb[a])
                      for (rn, a, b), e in want.items()], key=key)
        need([g[:2] for g in got] == [g[:2] for g in exp], "inter-supercell terms", "orbital pairs differ")
        need_close("inter-supercell energies", [g[2] for g in got], [g[2] for g in exp], 0, 0)
        need_close("inter-supercell distances", np.array([g[3] for g in got]), np.array([g[3] for g in exp]))
    return chk


def m_counts(s, t):
    v = (s.obj.num_orb, s.obj.num_hop)
    return lambda: need(v == (s.ref.num_orb, len(s.ref.arrays()[2])), "counters of the sample", str(v))


def m_arrays(s, t):
    o = s.obj
    for f in t.sample("query", [o.init_orb_eng, o.init_orb_pos, o.init_hop], 3):
        f()
    got = [np.array(x) for x in (o.orb_eng, o.orb_pos, o.hop_i, o.hop_j, o.hop_v, o.dr)]
    res = (o.rescale, o.energy_range)

    def chk():
        eng, pos, terms, scale = s.ref.arrays()
        need_close("orb_eng", got[0], eng)
        need_close("orb_pos", got[1], pos)
        need(len({len(x) for x in got[2:]}) == 1, "hop arrays", "lengths %s" % [len(x) for x in got[2:]])
        need_terms("hopping terms of the sample", list(zip(*got[2:])), terms)
        need(res == (scale, 2 * scale), "rescale", "%s instead of %s" % (res[0], scale))
    return chk


def m_csr(s, t):
    h = s.obj.build_ham_csr().toarray()
    return lambda: need_close("build_ham_csr", h, s.ref.ham()[0])


def m_dxy(s, t):
    algo, srt = t.choice("query", ["fast", "safe"]), t.chance("query", 1, 2)
    ip, ix, h, dx, dy = [np.array(x) for x in s.obj.build_ham_dxy(algo=algo, sort_col=srt)]

    def chk():
        n = s.ref.num_orb
        need(len(ip) == n + 1 and ip[-1] == len(ix) == len(h) == len(dx) == len(dy), "build_ham_dxy", "inconsistent sizes")
        need(len(ix) == 0 or (ix.min() >= 0 and ix.max() < n), "build_ham_dxy", "column index out of range")
        out = [np.zeros((n, n), complex) for _ in range(3)]
        rows = np.repeat(np.arange(n), np.diff(ip))
        for o, d in zip(out, (h, dx, dy)):
            np.add.at(o, (rows, ix), d)
        for nm, o, w in zip(("Hamiltonian", "dx", "dy"), out, s.ref.ham()):
            need_close("build_ham_dxy(%s) %s" % (algo, nm), o, w, 1e-9, 2e-5)
    return chk


def m_dxy_csr(s, t):
    dx, dy = s.obj.build_dxy_csr()
    dx, dy = dx.toarray(), dy.toarray()

    def chk():
        _, wx, wy = s.ref.ham()
        need_close("build_dxy_csr dx", dx, wx, 1e-9, 1e-9)
        need_close("build_dxy_csr dy", dy, wy, 1e-9, 1e-9)
    return chk


def m_dense(s, t):
    k = co.kpoint(t)
    s.obj.init_orb_eng()
    s.obj.init_hop()
    if t.chance("query", 1, 2):
        h = np.zeros((s.ref.num_orb,) * 2, complex)
        s.obj.set_ham_dense(k, h)
    else:
        h = s.obj.set_ham_csr(k).toarray()
    return lambda: need_close("Hamiltonian of the sample at k", h, s.ref.ham(k)[0])


def m_bands(s, t):
    k = np.array([co.kpoint(t) for _ in range(2)])
    b = np.array(s.obj.calc_bands(k, echo_details=False)[1])
    return lambda: need_close("bands of the sample", np.sort(b, axis=1),
                              np.array([np.linalg.eigvalsh(s.ref.ham(x)[0]) for x in k]), 1e-8, 1e-8)


def m_units(s, t):
    o = s.obj
    v = (o.area_unit_cell, o.volume_unit_cell, o.extended, o.nr_orbitals)

    def chk():
        c = s.ref.supers[0].cell
        need_close("area, volume, extension and orbitals of the unit cell", v,
                   (np.linalg.norm(np.cross(c.lat[0], c.lat[1])), abs(np.linalg.det(c.lat)), 1.0, c.num_orb))
    return chk


def m_plot(s, t):
    with no_figures():
        s.obj.plot(fig_name="f.png", with_conj=t.chance("query", 1, 2), view=t.choice("query", ["ab", "bc", "ca", "ba"]),
                   hop_as_arrows=t.chance("query", 1, 2))
    return lambda: None


SAMPLE_QUERIES = (m_plot, m_units, m_counts, m_arrays, m_csr, m_dxy, m_dxy_csr, m_dense, m_arrays, m_bands)
