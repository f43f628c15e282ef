"""C18: a refused operation leaves the model unchanged."""
import numpy as np

from .. import cellops as co
from .. import superops as so
from ..core import Violation
from ..util import Canvas, no_figures, quiet, stale_memory
from . import c17

QUICK_RUNS, THOROUGH_RUNS = 5000, 200000
RULE = ("random history of 6-40 steps over primitive cells, supercells, inter-supercell hoppings, samples and hopping tables, in "
        "which operations with illegal arguments of every documented kind (also lists whose last element only is illegal, and "
        "failing constructors of dependent models) are mixed with legal edits; each must be refused, after which the model "
        "equals its reference, is as editable or as protected as before, and later legal edits give the right result; "
        "non-trivial: a legal edit and a comparison followed a refused operation")
ASSUMPTIONS = ["only arguments documented as illegal (or wrong in length, shape or type) are used",
               "a cell that is unlocked but in use is announced again before its dependents are queried"]
COMPONENTS = {"real": "tbplas.builder.base/primitive/super/sample/advanced, Cython core", "simulated": "order of events only"}


def drawn(fn):
    with no_figures():
        fn()


def bad_cell(t, c):
    import tbplas as tb
    pc, ref, n = c.obj, c.ref, c.ref.num_orb
    far = n + t.draw("op", 3)
    legal = t.draw("op", n)
    many = t.sample("op", range(n), t.between("op", 1, n))
    absent = ((5, 5, 5), 0, 0)
    lat = ref.lat / co.ANG

    def from_dict(kind):
        m = n + 1 if kind == "range" else n
        h = tb.HopDict(m)
        a = np.zeros((m, m), complex)
        a[0, m - 1 if m > 1 else 0] = 3.0
        h[(1, 0, 0)] = a.copy() if kind == "diag" else np.where(np.arange(m * m).reshape(m, m) == 0, 2.0, 0.0)
        if kind == "range":
            h[(0, 1, 0)] = a                       # legal terms first, the illegal one last
        else:
            h[(0, 0, 0)][n - 1, n - 1] = 4.0
        keep = {k: np.array(v) for k, v in h.hoppings.items()}
        try:
            pc.add_hopping_dict(h)
        finally:
            for k, v in keep.items():              # the table is not changed either and can be edited further
                co.need(np.array_equal(np.array(h[k]), v), "hopping table", "changed by a refused operation")
                h[k][0, 0] += 1.0

    def merged(kind):
        other = tb.PrimitiveCell(lat if kind != "lattice" else lat * 1.5, ref.origin / co.ANG + 0.3, unit=co.ANG)
        other.add_orbital((0.0, 0.0, 0.0), 1.0)
        ih = tb.PCInterHopping(pc, other)
        ih.add_hopping((0, 0, 0), 0 if kind != "range" else n, 0, 1.0)
        third = tb.PrimitiveCell(lat, unit=co.ANG)
        ih2 = tb.PCInterHopping(other, third)
        ih2.add_hopping((0, 0, 0), 0, 0, 1.0)
        try:
            if kind == "closure":
                tb.merge_prim_cell(other, pc, ih, ih2)
            elif kind == "type":
                tb.merge_prim_cell(other, pc, "layer")
            else:
                tb.merge_prim_cell(other, pc, ih)
        finally:
            co.need_close("orbital of the other cell", np.array(other.orb_pos), np.zeros((1, 3)))
            other.add_orbital((0.5, 0.5, 0.5))

    used = [max([abs(k[0][d]) for k in ref.hops]) for d in range(3)]
    big = tuple(2 * u + 1 for u in used)
    small = [d for d in range(3) if used[d] > 0]

    def super_cell(kind):
        dim, pbc, vac = big, (True, False, True), None
        if kind == "small":
            d = t.choice("op", small) if small else 0
            dim = tuple(2 * used[d] if x == d else big[x] for x in range(3))
        elif kind == "dimlen":
            dim = t.choice("op", [(3,), (3, 3, 3, 3)])
        elif kind == "pbclen":
            pbc = t.choice("op", [(True,), (True, True, True, True)])
        elif kind == "vacrange":
            vac = [(0, 0, 0, 0), t.choice("op", [(0, 0, 0, n), (big[0], 0, 0, 0), (0, -1, 0, 0), (0, 0, big[2], 0)])]
        elif kind == "vaclen":
            vac = [(0, 0, 0, 0), (0, 0, 0)]
        return tb.SuperCell(pc, dim, pbc, vacancies=vac)

    ops = [
        ("add_orbital short", lambda: pc.add_orbital((0.1,))),
        ("add_orbital long", lambda: pc.add_orbital((0.1, 0.2, 0.3, 0.4))),
        ("add_orbital_cart short", lambda: pc.add_orbital_cart((0.1,), energy=2.0)),
        ("set_orbital range", lambda: pc.set_orbital(far, energy=9.0)),
        ("set_orbital position", lambda: pc.set_orbital(legal, position=(0.1,), energy=9.0)),
        ("set_orbital_cart range", lambda: pc.set_orbital_cart(far, position=(0.1, 0.2, 0.3), energy=9.0)),
        ("get_orbital range", lambda: pc.get_orbital(far)),
        ("remove_orbital range", lambda: pc.remove_orbital(far)),
        ("remove_orbital negative", lambda: pc.remove_orbital(-1)),
        ("remove_orbitals range", lambda: pc.remove_orbitals(many + [far])),
        ("remove_orbitals range mixed", lambda: pc.remove_orbitals([legal, far] + many)),
        ("remove_orbitals negative", lambda: pc.remove_orbitals(np.array([legal, -1]))),
        ("add_hopping length", lambda: pc.add_hopping((1,), legal, legal, 9.0)),
        ("add_hopping range i", lambda: pc.add_hopping((1, 0, 0), far, legal, 9.0)),
        ("add_hopping range j", lambda: pc.add_hopping((1, 0, 0), legal, far, 9.0)),
        ("add_hopping negative", lambda: pc.add_hopping((1, 0, 0), legal, -1, 9.0)),
        ("add_hopping diagonal", lambda: pc.add_hopping((0, 0), legal, legal, 9.0)),
        ("remove_hopping absent", lambda: pc.remove_hopping(*absent)),
        ("remove_hopping range", lambda: pc.remove_hopping((0, 0, 0), far, legal)),
        ("get_hopping absent", lambda: pc.get_hopping(*absent)),
        ("add_hopping_dict range", lambda: from_dict("range")),
        ("add_hopping_dict diagonal", lambda: from_dict("diag")),
        ("apply_pbc length", lambda: pc.apply_pbc((False, False))),
        ("reset_lattice shape", lambda: pc.reset_lattice(np.eye(2))),
        ("reset_lattice origin", lambda: pc.reset_lattice(np.eye(3) * 2, origin=np.zeros(2))),
        ("reset_lattice origin no fix", lambda: pc.reset_lattice(np.eye(3) * 2, origin=np.zeros(4), fix_orb=False)),
        ("reset_lattice shape no fix", lambda: pc.reset_lattice(np.eye(4), origin=np.ones(3), fix_orb=False)),
        ("reset_lattice singular", lambda: pc.reset_lattice(np.ones((3, 3)), fix_orb=True)),
        ("set_orbital_cart position", lambda: pc.set_orbital_cart(legal, position=(0.1, 0.2, 0.3, 0.4), energy=9.0)),
        ("get_hopping range", lambda: pc.get_hopping((1, 0, 0), legal, far)),
        ("get_hopping diagonal", lambda: pc.get_hopping((0, 0, 0), legal, legal)),
        ("get_hopping length", lambda: pc.get_hopping((0,), legal, legal)),
        ("remove_hopping length", lambda: pc.remove_hopping((1, 0, 0, 0), legal, legal)),
        ("remove_hopping diagonal", lambda: pc.remove_hopping((0, 0, 0), legal, legal)),
        ("set_ham_dense convention", lambda: (pc.sync_array(), pc.set_ham_dense(np.zeros(3), np.zeros((n, n), complex),
                                                                                convention=t.choice("op", [0, 3])))),
        ("set_ham_csr convention", lambda: (pc.sync_array(), pc.set_ham_csr(np.zeros(3), convention=t.choice("op", [0, 3])))),
        ("print_hk convention", lambda: pc.print_hk(t.choice("op", [0, 3]))),
        ("plot view", lambda: drawn(lambda: pc.plot(fig_name="f.png", view="xy"))),
        ("extend length", lambda: tb.extend_prim_cell(pc, dim=t.choice("op", [(2,), (2, 1, 1, 1)]))),
        ("extend size", lambda: tb.extend_prim_cell(pc, dim=t.choice("op", [(2, 0, 1), (-1, 1, 1)]))),
        ("reshape shape", lambda: tb.reshape_prim_cell(pc, np.eye(2))),
        ("new cell lattice", lambda: tb.PrimitiveCell(np.eye(2))),
        ("new cell origin", lambda: tb.PrimitiveCell(lat, origin=np.zeros(2))),
        ("lock stranger", lambda: pc.lock("nobody")),
        ("merge lattice", lambda: merged("lattice")),
        ("merge range", lambda: merged("range")),
        ("merge closure", lambda: merged("closure")),
        ("merge type", lambda: merged("type")),
        ("supercell dimlen", lambda: super_cell("dimlen")),
        ("supercell pbclen", lambda: super_cell("pbclen")),
        ("supercell vacrange", lambda: super_cell("vacrange")),
        ("supercell vaclen", lambda: super_cell("vaclen")),
    ]
    if small:
        ops.append(("supercell small", lambda: super_cell("small")))
    return ops


def bad_super(t, s):
    import tbplas as tb
    sc, ref = s.obj, s.ref
    n = ref.num_orb
    ok = t.choice("op", ref.ids())
    i = t.draw("op", n)
    out = t.choice("op", [(ref.dim[0], 0, 0, 0), (0, ref.dim[1], 0, 0), (0, 0, ref.dim[2], 0), (0, 0, 0, ref.cell.num_orb),
                          (-1, 0, 0, 0), (0, 0, 0, -1)])
    k = t.draw("op", 2)
    some = t.sample("op", ref.ids(), t.between("op", 1, min(4, n)))
    lst = some + [out] if k == 0 else np.array(some + [out])

    gone = []
    if ref.vac:
        hole = t.choice("op", sorted(ref.vac))
        gone = [("orb_id_pc2sc vacancy", lambda: sc.orb_id_pc2sc(hole)),
                ("orb_id_pc2sc_array vacancy", lambda: sc.orb_id_pc2sc_array(np.array(some + [hole])))]

    def open_sample():
        other = tb.SuperCell(s.cell.obj, ref.dim, ref.pbc)
        h = tb.SCInterHopping(sc, other)
        h.add_hopping((0, 0, 0), 0, 0, 1.0)
        try:
            tb.Sample(*t.choice("op", [(sc, h), (h, sc)]))
        finally:
            h.add_hopping((0, 0, 0), 0, 1 if other.num_orb_sc > 1 else 0, 1.0)
    return [
        ("add_vacancy range", lambda: sc.add_vacancy(out)),
        ("add_vacancy length", lambda: sc.add_vacancy(t.choice("op", [(0, 0, 0), (0, 0, 0, 0, 0)]))),
        ("add_vacancies range", lambda: sc.add_vacancies(lst)),
        ("add_vacancies length", lambda: sc.add_vacancies([ok, (0, 0)])),
        ("set_vacancies range", lambda: sc.set_vacancies(lst)),
        ("set_vacancies length", lambda: sc.set_vacancies([(0, 0, 0)])),
        ("add_hopping length", lambda: sc.add_hopping((1,), i, i, 9.0)),
        ("add_hopping range i", lambda: sc.add_hopping((1, 0, 0), n, i, 9.0)),
        ("add_hopping range j", lambda: sc.add_hopping((1, 0, 0), i, n + 1, 9.0)),
        ("add_hopping negative", lambda: sc.add_hopping((1, 0, 0), i, -1, 9.0)),
        ("add_hopping diagonal", lambda: sc.add_hopping((0, 0), i, i, 9.0)),
        ("orb_id_pc2sc range", lambda: sc.orb_id_pc2sc(out)),
        ("orb_id_pc2sc range", lambda: sc.orb_id_pc2sc(np.array(out, dtype=t.choice("op", [np.int32, np.int64])))),
        ("orb_id_pc2sc length", lambda: sc.orb_id_pc2sc((0, 0, 0))),
        ("orb_id_sc2pc range", lambda: sc.orb_id_sc2pc(n)),
        ("orb_id_sc2pc_array range", lambda: sc.orb_id_sc2pc_array(np.array([0, i, t.choice("op", [n, -1, n + 3])]))),
        ("orb_id_pc2sc_array range", lambda: sc.orb_id_pc2sc_array(np.array(some + [out]))),
        ("orb_id_pc2sc type", lambda: sc.orb_id_pc2sc(list(ok))),
        ("orb_id_sc2pc_array shape", lambda: sc.orb_id_sc2pc_array(np.zeros((1, 2), dtype=np.int64))),
        ("orb_id_pc2sc_array shape", lambda: sc.orb_id_pc2sc_array(np.zeros((2, 3), dtype=np.int32))),
        ("plot view", lambda: drawn(lambda: sc.plot(Canvas(), view="xy"))),
        ("sample type", lambda: tb.Sample(sc, "layer")),
        ("sample closure", open_sample),
        ("sample void", lambda: tb.Sample()),
        ("lock stranger", lambda: sc.lock("nobody")),
    ] + gone




def bad_inter(t, x):
    h = x.obj
    nb, nk = x.bra.ref.num_orb, x.ket.ref.num_orb

    def query_illegal(k):
        h.add_hopping(*k, 1.0)
        try:
            h.get_hop()
        finally:
            h.remove_hopping(*k)

    pairs = [(a, b) for (_, a, b) in x.tab]
    twice = [("get_hop duplicate", lambda: h.get_hop(check_dup=True))] if len(set(pairs)) < len(pairs) else []
    return twice + [
        ("add_hopping length", lambda: h.add_hopping((1,), 0, 0, 9.0)),
        ("add_hopping length", lambda: h.add_hopping((1, 0, 0, 0), 0, 0, 9.0)),
        ("get_hop range bra", lambda: query_illegal(((0, 0, 0), nb + t.draw("op", 2), 0))),
        ("get_hop range ket", lambda: query_illegal(((0, 0, 0), 0, nk))),
        ("get_hop negative", lambda: query_illegal(((0, 0, 0), -1, 0))),
        ("lock stranger", lambda: h.lock("nobody")),
    ]


def bad_sample(t, s):
    h = np.zeros((s.ref.num_orb,) * 2, complex)
    return [
        ("set_magnetic_field gauge", lambda: s.obj.set_magnetic_field(10.0, gauge=t.choice("op", [3, -1]))),
        ("set_ham_dense convention", lambda: (s.obj.init_orb_eng(), s.obj.init_hop(),
                                              s.obj.set_ham_dense(np.zeros(3), h, convention=2))),
        ("set_ham_csr convention", lambda: (s.obj.init_orb_eng(), s.obj.init_hop(),
                                            s.obj.set_ham_csr(np.zeros(3), convention=3))),
        ("plot view", lambda: drawn(lambda: s.obj.plot(fig_name="f.png", view="xy"))),
        ("set_k_point shape", lambda: s.obj.set_k_point(np.zeros(2))),
        ("set_k_point shape", lambda: s.obj.set_k_point(np.zeros((2, 2)))),
    ]


def empty_inter(t, st, w, trace):
    """An inter-supercell hopping in use loses all its terms: rebuilding the samples is refused and changes nothing."""
    import tbplas.builder.exceptions as exc
    while len(w.supers) < 2:
        so.new_super(t, w, t.choice("op", w.cells))
    for _ in range(3):
        if not w.inters:
            so.new_inter(t, w)
    xs = [x for x in w.inters if x.samples and x.tab]
    if not xs:
        if w.inters and len(w.samples) < 4:
            so.new_sample(t, w)
        return
    x = t.choice("op", xs)
    s = t.choice("op", x.samples)
    if t.chance("op", 1, 2):
        trace.append(so.edit_sample(t, s))
    filled = t.chance("op", 3, 4)
    if filled:
        so.m_arrays(s, t)()                             # everything is built, possibly modified and rescaled
    keep = dict(x.tab)
    x.obj.unlock()
    for k in sorted(x.tab):
        x.obj.remove_hopping(*k)
    how = t.draw("op", 3)
    try:
        if how == 0:
            s.obj.init_hop(force_init=True)
        elif how == 1 or len(x.samples) > 1:
            s.obj.reset_array()
        else:
            x.obj.update()
        if filled or how == 0:
            raise Violation("accepted", "rebuilding a sample with an empty inter-supercell hopping was not refused")
        s.ref.mods = []
    except exc.InterHopVoidError:
        st.hit("refused:Smp empty inter-supercell hopping")
        if filled:
            so.m_arrays(s, t)()                         # as before, since rebuilding was refused
    x.obj.unlock()
    for k, e in keep.items():
        x.obj.add_hopping(*k, e)
    x.obj.update()
    c17.announced(t, w, x)
    trace.append(("emptied", how))


BAD = {so.Cell: bad_cell, so.Super: bad_super, so.Inter: bad_inter, so.Smp: bad_sample}


def must_refuse(t, st, x):
    ops = BAD[type(x)](t, x)
    name, fn = ops[t.draw("op", len(ops))]
    try:
        fn()
    except co.Wrong:
        raise
    except Exception as e:
        st.hit("refused:%s %s" % (type(x).__name__, name))
        return name, type(e).__name__
    raise Violation("accepted", "%s: %s was not refused" % (type(x).__name__, name))


def table(t, st):
    """A hopping table by itself."""
    import tbplas as tb
    n = t.between("op", 1, 3)
    h = tb.HopDict(n)
    ref = {}
    for _ in range(t.between("op", 1, 6)):
        rn = co.cell_index(t)
        r3 = rn + (0,) * (3 - len(rn))
        m = np.zeros((n, n), complex)
        m[t.draw("op", n), t.draw("op", n)] = t.choice("op", co.HOPS)
        diag = r3 == (0, 0, 0) and np.any(np.abs(np.diag(m)) >= 1e-5)
        bad = t.draw("op", 4)
        if bad == 1:
            args = (rn, np.zeros((n + 1, n)))
        elif bad == 2:
            args = ((0,), m)
        else:
            args, bad = (rn, m), int(diag)
        keep = m.copy()
        try:
            h[args[0]] = args[1]
            m[:] = 99.0                             # the table keeps its own copy
            ok = True
        except Exception:
            ok = False
            st.hit("refused:table")
        if ok != (not bad):
            raise Violation("accepted" if ok else "rejected", "hopping table: matrix %s at %s" % (keep.tolist(), args[0]))
        if ok:
            ref[r3] = keep
        got = {k: np.array(v) for k, v in h.hoppings.items()}
        co.need({k for k, v in got.items() if np.any(v)} == {k for k, v in ref.items() if np.any(v)}, "hopping table",
                "cells %s instead of %s" % (sorted(got), sorted(ref)))
        for k, v in ref.items():
            co.need(np.array_equal(h[k], v), "hopping table", "matrix at %s changed" % (k,))
    onsite = t.chance("op", 1, 2)
    if onsite:
        i = t.draw("op", n)
        h[(0, 0, 0)][i, i] = 1.0                    # an on-site energy put in behind the table's back
        ref.setdefault((0, 0, 0), np.zeros((n, n), complex))[i, i] = 1.0
    try:
        h.to_spare()
        ok = True
    except Exception:
        ok = False
    if ok == onsite:
        raise Violation("accepted" if ok else "rejected", "hopping table: conversion with%s on-site energy" % (
            "" if onsite else "out"))
    for k, v in h.hoppings.items():
        if not ok:
            co.need(isinstance(v, np.ndarray), "hopping table", "matrix at %s converted by a refused call" % (k,))
        v = v if isinstance(v, np.ndarray) else v.toarray()
        co.need(np.array_equal(v, ref.get(k, np.zeros((n, n)))), "hopping table", "matrix at %s changed" % (k,))


def run(t, st):
    trace = []
    with stale_memory(t, st), quiet():
        if t.chance("op", 1, 10):
            table(t, st)
            st.nontrivial = True
            return
        w = so.Models()
        for _ in range(t.between("op", 1, 2)):
            so.new_cell(t, w)
        phase = 0
        for _ in range(t.between("op", 6, 40)):
            st.descr = {"history": trace[-12:]}
            op = t.weighted("op", [("bad", 8), ("edit", 4), ("look", 2), ("new", 4), ("sample", 1), ("empty", 2)])
            if op == "bad":
                x = t.choice("op", c17.everything(w))
                use = not isinstance(x, so.Smp) and c17.locked(x)
                free = use and t.chance("op", 1, 2)
                if free or (use and isinstance(x, so.Inter)):
                    x.obj.unlock()
                    free = True
                trace.append((type(x).__name__,) + must_refuse(t, st, x))
                phase = max(phase, 1)
                if use and not free:
                    c17.refused(t, st, x)           # still protected
                elif not isinstance(x, so.Smp):
                    if t.chance("op", 1, 2):
                        trace.append(("then", c17.edits(t, x) if use else edit(t, x)))      # still editable
                        phase = 2
                    if use:
                        x.obj.update()
                        c17.announced(t, w, x)
                c17.look(t, x)
                c17.look(t, t.choice("query", c17.everything(w)))
                if phase == 2:
                    st.nontrivial = True
            elif op == "edit":
                x = t.choice("op", w.cells + w.supers + w.inters)
                use = c17.locked(x)
                if use:
                    x.obj.unlock()
                trace.append((type(x).__name__, c17.edits(t, x) if use else edit(t, x)))
                if use:
                    x.obj.update()
                    c17.announced(t, w, x)
                phase = 2 if phase == 1 else phase
            elif op == "empty":
                empty_inter(t, st, w, trace)
            elif op == "sample":
                if w.samples:
                    trace.append(so.edit_sample(t, t.choice("op", w.samples)))
            elif op == "look":
                c17.look(t, t.choice("query", c17.everything(w)))
                if phase == 2:
                    st.nontrivial = True
            else:
                k = t.draw("op", 4)
                if k <= 1 and len(w.supers) < 4:
                    so.new_super(t, w, t.choice("op", w.cells))
                    trace.append("new_super")
                elif k == 2 and len(w.supers) > 1 and len(w.inters) < 3:
                    so.new_inter(t, w)
                    trace.append("new_inter")
                elif w.supers and len(w.samples) < 3:
                    so.new_sample(t, w)
                    trace.append("new_sample")
        st.descr = {"history": trace[-12:], "final": True}
        for x in c17.everything(w):
            c17.look(t, x)
    st.mix(trace)


def edit(t, x):
    if isinstance(x, so.Cell):
        return so.edit_cell(t, x)
    if isinstance(x, so.Super):
        return so.edit_super(t, x)
    return so.edit_inter(t, x)
