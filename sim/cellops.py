"""Random edits of a primitive cell, applied to the real cell and to the reference model; checks of every observable."""
import ast
import contextlib
import io
import re

import numpy as np

from .core import Violation
from .refcell import RefCell, expand, table_diff
from .util import close, no_figures

# -1 and -2 (and their complex relatives) have equal Python hashes
ENERGIES = (0.0, 1.0, -1.0, -2.0, 0.5, -0.5, 2.0, -1, -2, 1e-3, 0.25)
HOPS = (1.0, -1.0, -2.0, 0.5, 1j, -1j, -2j, -1 + 0j, -2 + 0j, 0.3 - 0.7j, -0.3 + 0.7j, -1, -2, 0.0, 2.5, 1 - 1j, 1 - 2j)
COORDS = (0.0, 0.5, -1.0, -2.0, 0.25, 1.0, 1.0 / 3, 0.75, -0.5)
LATS = (np.eye(3), np.diag([2.0, 1.0, 1.5]), np.array([[1.0, 0.2, 0.0], [-0.3, 1.1, 0.0], [0.0, 0.1, 2.0]]),
        np.array([[0.0, 1.0, 0.0], [-2.0, 0.0, 0.0], [0.0, 0.0, 1.0]]))
ORIGINS = (np.zeros(3), np.array([0.1, -0.2, 0.3]), np.array([-1.0, -2.0, 0.0]), np.array([-2.0, -1.0, 0.0]))
ANG = 0.1


class Wrong(Violation):
    pass


def coord(t):
    return tuple(t.choice("op", COORDS) for _ in range(t.choice("op", [3, 2])))


def full3(c):
    return tuple(c) + (0.0,) * (3 - len(c))


def cell_index(t, reach=1):
    n = t.choice("op", [3, 2])
    if reach == "far":
        r = (1,) * 3 if not t.chance("far", 1, 12) else (t.choice("far", [2, 3, 12]),) * 3
    else:
        r = (reach,) * 3 if isinstance(reach, int) else reach
    return tuple(t.between("op", 0, 2 * r[d]) - r[d] if t.chance("op", 2, 3) else 0 for d in range(n))


def unit(t):
    """A length unit and the argument that states it, if it is not the default one."""
    r = t.draw("op", 3)
    return (1.0 if r == 2 else ANG), ({} if r == 0 else {"unit": 1.0 if r == 2 else ANG})


def as_kind(t, seq, kinds):
    k = t.draw("op", kinds)
    return [tuple(seq), list(seq), np.array(seq)][k]


FOCUS = ["set_orbital", "add_hopping", "set_orbital_cart", "remove_hopping", "reset_lattice", "apply_pbc",
         "overwrite_hopping", "spiral", "add_dict", "add_orbital_cart", "remove_orbitals", "trim",
         "toggle", "toggle"]


def populate(t, pc, ref, norb, nhop):
    """Orbitals and hopping terms to start from."""
    for _ in range(norb):
        p, e = coord(t), t.choice("op", ENERGIES)
        pc.add_orbital(p, e)
        ref.orbs.append([full3(p), e, "X"])
    for _ in range(nhop):
        rn = full3(cell_index(t))
        rn = tuple(int(x) for x in rn)
        i, j, e = t.draw("op", norb), t.draw("op", norb), t.choice("op", HOPS)
        if rn != (0, 0, 0) or i != j:
            pc.add_hopping(rn, i, j, e)
            ref.set_hop(rn, i, j, e)


def change_and_back(t, pc, ref, resize=True):
    """A change of the definition; returns the function that undoes it."""
    n = ref.num_orb
    r = t.draw("op", 4 if resize else 2)
    keys = sorted(ref.hops)
    if r == 0 or r == 1 and not keys:
        i = t.draw("op", n)
        p, e, lab = ref.orbs[i]
        pc.set_orbital(i, (0.4, 0.55, 0.6), e + 1.0)
        ref.orbs[i][:2] = [(0.4, 0.55, 0.6), e + 1.0]

        def back():
            pc.set_orbital(i, p, e)
            ref.orbs[i][:2] = [p, e]
    elif r == 1:
        k = t.choice("op", keys)
        e = ref.hops[k]
        pc.add_hopping(*k, e + 1.0)
        ref.set_hop(*k, e + 1.0)

        def back():
            pc.add_hopping(*k, e)
            ref.set_hop(*k, e)
    else:
        k = ((4, 0, 0), 0, n - 1)
        if k in ref.hops:
            return None
        pc.add_hopping(*k, 6.0)
        ref.set_hop(*k, 6.0)

        def back():
            pc.remove_hopping(*k)
            ref.del_hop(*k)
    return back


def edit(t, pc, ref, reach=1, empty_ok=True, resize=True, focus=None):
    """One random legal edit on both; returns its name."""
    n = ref.num_orb
    ops = [("set_orbital", 4), ("add_hopping", 5), ("set_orbital_cart", 1), ("remove_hopping", 2), ("reset_lattice", 1),
           ("apply_pbc", 1), ("overwrite_hopping", 3), ("spiral", 1), ("add_dict", 1), ("toggle", 1)]
    if resize:
        ops += [("add_orbital", 3), ("add_orbital_cart", 1), ("remove_orbitals", 2), ("trim", 1)]
    if focus is not None:
        ops.append((focus, 12))
    op = t.weighted("op", ops)
    if n == 0 or (op in ("add_orbital",) and n > 8):
        if not resize or n > 8:
            op = "reset_lattice"
        else:
            op = "add_orbital"
    if op in ("remove_hopping", "overwrite_hopping") and not ref.hops:
        op = "add_hopping"
    if op == "add_orbital":
        p, e, lab = coord(t), t.choice("op", ENERGIES), t.choice("op", ["X", "C", 3])
        arg = as_kind(t, p, 2)
        pc.add_orbital(arg, e, lab)
        if isinstance(arg, list):
            arg[0] = 99.0
        ref.orbs.append([full3(p), e, lab])
    elif op == "add_orbital_cart":
        p, e = coord(t), t.choice("op", ENERGIES)
        u, kw = unit(t)
        pc.add_orbital_cart(p, energy=e, **kw)
        ref.orbs.append([tuple(np.linalg.solve(ref.lat.T, np.array(full3(p)) * u - ref.origin)), e, "X"])
    elif op == "set_orbital":
        i = t.draw("op", n)
        what = t.draw("op", 4)
        p = coord(t) if what in (1, 3) else None
        e = t.choice("op", ENERGIES) if what in (0, 3) else None
        lab = t.choice("op", ["X", "N"]) if what == 2 else None
        if what == 0 and hasattr(pc, "set_onsite"):            # overlap matrix
            pc.set_onsite(i, e)
        else:
            pc.set_orbital(i, p, e, lab)
        o = ref.orbs[i]
        if p is not None:
            o[0] = full3(p)
        if e is not None:
            o[1] = e
        if lab is not None:
            o[2] = lab
    elif op == "toggle":                                       # back and forth between two definitions
        r = t.draw("op", 3)
        if r == 2 and n > 1:
            k = ((0, 0, 0), n - 2, n - 1)
            if k in ref.hops:
                pc.remove_hopping(*k)
                ref.del_hop(*k)
            else:
                pc.add_hopping(*k, 6.0)
                ref.set_hop(*k, 6.0)
        elif ref.hops and r == 1:
            k = sorted(ref.hops)[0]
            e = 0.25 if abs(ref.hops[k] - 0.5j) < 1e-9 else 0.5j
            pc.add_hopping(*k, e)
            ref.set_hop(*k, e)
        else:
            o = ref.orbs[0]
            p, e = ((0.1, 0.2, 0.3), 7.0) if o[1] == 8.0 else ((0.4, 0.5, 0.6), 8.0)
            pc.set_orbital(0, p, e)
            o[0], o[1] = p, e
    elif op == "set_orbital_cart":
        i = t.draw("op", n)
        p = coord(t) if t.chance("op", 2, 3) else None
        e = t.choice("op", ENERGIES) if p is None or t.chance("op", 1, 2) else None
        u, kw = unit(t)
        pc.set_orbital_cart(i, p, energy=e, **kw)
        o = ref.orbs[i]
        if p is not None:
            o[0] = tuple(np.linalg.solve(ref.lat.T, np.array(full3(p)) * u - ref.origin))
        if e is not None:
            o[1] = e
    elif op == "remove_orbitals":
        idx = t.sample("op", range(n), t.between("op", 1, min(2, n)))
        if len(idx) == 1 and t.chance("op", 1, 2):
            pc.remove_orbital(idx[0])
        else:
            rep = idx + idx[:1] if t.chance("op", 1, 3) else idx
            pc.remove_orbitals(as_kind(t, rep, 3))
        ref.remove(idx)
    elif op == "add_hopping":
        rn = cell_index(t, reach)
        i, j = t.draw("op", n), t.draw("op", n)
        r3 = rn + (0,) * (3 - len(rn))
        if r3 == (0, 0, 0) and i == j:
            return "nothing"
        e = t.choice("op", HOPS)
        getattr(pc, "add_offsite", pc.add_hopping)(as_kind(t, rn, 2), i, j, e)
        ref.set_hop(r3, i, j, e)
    elif op in ("overwrite_hopping", "remove_hopping"):
        k = t.choice("op", sorted(ref.hops))       # either direction of an existing term
        if op == "remove_hopping":
            pc.remove_hopping(*k)
            ref.del_hop(*k)
        else:
            e = t.choice("op", HOPS)
            pc.add_hopping(*k, e)
            ref.set_hop(*k, e)
    elif op == "trim":
        pc.trim()
        ref.trim()
    elif op == "apply_pbc":
        pbc = tuple(not t.chance("op", 1, 3) for _ in range(3))
        pc.apply_pbc() if all(pbc) and t.chance("op", 1, 2) else pc.apply_pbc(pbc)
        ref.apply_pbc(pbc)
    elif op == "reset_lattice":
        lv = t.choice("op", LATS) if t.chance("op", 2, 3) else None
        og = t.choice("op", ORIGINS) if lv is None or t.chance("op", 1, 2) else None
        fix = t.chance("op", 1, 2)
        a = None if lv is None else lv.copy()
        b = None if og is None else og.copy()
        u, kw = unit(t)
        if not fix or t.chance("op", 1, 2):
            kw["fix_orb"] = fix
        pc.reset_lattice(a, b, **kw)
        if a is not None:
            a[:] = 7.0
        if b is not None:
            b[:] = 7.0
        ref.reset_lattice(None if lv is None else lv * u, None if og is None else og * u, fix)
    elif op == "spiral":
        import tbplas as tb
        if n == 0:
            return "nothing"
        ang = t.choice("op", [0.3, np.pi / 2, -1.0])
        sh = t.choice("op", [0.0, 0.1, -0.2])
        cen = t.choice("op", ORIGINS)
        tb.spiral_prim_cell(pc, angle=ang, center=cen, shift=sh)
        c, s = np.cos(ang), np.sin(ang)
        rot = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])     # row vectors
        lat = ref.lat @ rot
        org = (ref.origin - cen) @ rot + cen
        for o in ref.orbs:
            cart = np.array(o[0]) @ lat + org + np.array([0, 0, sh])
            o[0] = tuple(np.linalg.solve(lat.T, cart - org))
        ref.lat, ref.origin = lat, org
    elif op == "add_dict":
        import tbplas as tb
        h = tb.HopDict(n)
        if t.chance("op", 1, 6):
            h = tb.HopDict(n + 1)
            h.num_orb = n
        todo = {}
        for _ in range(t.between("op", 1, 2)):
            rn = cell_index(t, reach)
            r3 = rn + (0,) * (3 - len(rn))
            if r3 in todo or RefCell.neg(r3) in todo:
                continue
            m = np.zeros((n, n), complex)
            for _ in range(2):
                i, j = t.draw("op", n), t.draw("op", n)
                if r3 == (0, 0, 0) and i >= j:
                    continue
                m[i, j] = t.choice("op", HOPS)
            todo[r3] = m.copy()
            h[rn] = m.tolist() if t.chance("op", 1, 4) else m
            m[:] = 99.0                                        # the table keeps its own copy
        if t.chance("op", 1, 3):
            h.to_spare()
        pc.add_hopping_dict(h)
        for r3, m in todo.items():
            for i, j in np.argwhere(m != 0):
                ref.set_hop(r3, int(i), int(j), m[i, j])
    return op


# ----------------------------------------------------------------------------------------- queries
def need(ok, what, msg):
    if not ok:
        raise Wrong("stale-or-wrong", "%s: %s" % (what, msg))


def need_close(what, a, b, rtol=1e-9, atol=1e-9):
    ok, msg = close(a, b, rtol, atol)
    need(ok, what, msg)


def need_table(what, rows, ref):
    full, n, dup = expand(rows)
    need(not dup, what, "terms reported twice: %s" % (dup,))
    need(n == ref.num_hop, what, "%d terms instead of %d" % (n, ref.num_hop))
    d = table_diff(full, ref.hops)
    need(d is None, what, d)


def q_counts(pc, ref, t):
    v = (pc.num_orb, pc.num_hop)
    return lambda: need(v == (ref.num_orb, ref.num_hop), "counters", "%s instead of %s" % (v, (ref.num_orb, ref.num_hop)))


def q_orbitals(pc, ref, t):
    got = [(tuple(o.position), o.energy, o.label) for o in pc.orbitals]

    def chk():
        need(len(got) == ref.num_orb, "orbitals", "%d instead of %d" % (len(got), ref.num_orb))
        for i, (p, e, l) in enumerate(got):
            need_close("position of orbital %d" % i, np.array(p, float), np.array(ref.orbs[i][0], float))
            need(e == ref.orbs[i][1] and l == ref.orbs[i][2], "orbital %d" % i, "%s %s instead of %s %s" % (
                e, l, ref.orbs[i][1], ref.orbs[i][2]))
    return chk


def q_hoppings(pc, ref, t):
    rows = [(rn, p[0], p[1], e) for rn, h in pc.hoppings.items() for p, e in h.items()]
    return lambda: need_table("hoppings", rows, ref)


def q_orb_pos(pc, ref, t):
    v = np.array(pc.orb_pos)
    return lambda: need_close("orb_pos", v.reshape(-1, 3), ref.pos())


def q_orb_eng(pc, ref, t):
    v = np.array(pc.orb_eng)
    return lambda: need_close("orb_eng", v, ref.eng(), 0, 0)


def q_orb_pos_nm(pc, ref, t):
    if ref.num_orb == 0:
        return lambda: None
    v = np.array(pc.orb_pos_nm if t.chance("query", 1, 2) else pc.orb_pos_ang / 10)
    return lambda: need_close("orb_pos_nm", v, ref.pos() @ ref.lat + ref.origin)


def q_hop(pc, ref, t):
    ind, eng = np.array(pc.hop_ind), np.array(pc.hop_eng)
    return lambda: (need(len(ind) == len(eng), "hop arrays", "%d indices for %d energies" % (len(ind), len(eng))),
                    need_table("hop_ind/hop_eng", [(r[:3], r[3], r[4], e) for r, e in zip(ind, eng)], ref))


def q_hop_eng_first(pc, ref, t):
    eng, ind = np.array(pc.hop_eng), np.array(pc.hop_ind)
    return lambda: need_table("hop_eng/hop_ind", [(r[:3], r[3], r[4], e) for r, e in zip(ind, eng)], ref)


def q_dr(pc, ref, t):
    nm = t.chance("query", 1, 2)
    dr = np.array(pc.dr_nm if nm else pc.dr)
    ind = np.array(pc.hop_ind)

    def chk():
        need(len(dr) == len(ind), "dr", "%d distances for %d terms" % (len(dr), len(ind)))
        if len(ind) == 0:
            return
        p = ref.pos()
        want = np.array([p[r[4]] + r[:3] - p[r[3]] for r in ind])
        need_close("dr_nm" if nm else "dr", dr, want @ ref.lat if nm else want)
    return chk


def q_get_orbital(pc, ref, t):
    if ref.num_orb == 0:
        return lambda: None
    i = t.draw("query", ref.num_orb)
    o = pc.get_orbital(i)
    return lambda: (need_close("get_orbital(%d).position" % i, np.array(o.position, float), np.array(ref.orbs[i][0], float)),
                    need(o.energy == ref.orbs[i][1], "get_orbital(%d).energy" % i, "%s instead of %s" % (
                        o.energy, ref.orbs[i][1])))


def q_get_hopping(pc, ref, t):
    import tbplas.builder.exceptions as exc
    n = ref.num_orb
    if n == 0:
        return lambda: None
    if ref.hops and t.chance("query", 2, 3):
        k = t.choice("query", sorted(ref.hops))
    else:
        k = (tuple(t.draw("query", 3) - 1 for _ in range(3)), t.draw("query", n), t.draw("query", n))
        if k[0] == (0, 0, 0) and k[1] == k[2]:
            return lambda: None
    try:
        v = complex(pc.get_hopping(*k))
    except exc.PCHopNotFoundError:
        v = None
    return lambda: need(v == ref.hops.get(k), "get_hopping%s" % (k,), "%s instead of %s" % (v, ref.hops.get(k)))


def kpoint(t):
    return np.array([t.choice("query", [0.0, 0.5, 0.25, 1.0 / 3, -0.1]) for _ in range(3)])


def empties(ref):
    return ref.num_orb == 0 or ref.num_hop == 0


def q_ham_dense(pc, ref, t):
    import tbplas.builder.exceptions as exc
    k, conv = kpoint(t), t.between("query", 1, 2)
    h = np.zeros((ref.num_orb, ref.num_orb), complex)
    try:
        pc.sync_array()
        fn = getattr(pc, "set_overlap_dense", pc.set_ham_dense)
        fn(k, h) if conv == 1 and t.chance("query", 1, 2) else fn(k, h, convention=conv)
        refused = False
    except (exc.PCOrbEmptyError, exc.PCHopEmptyError):
        refused = True

    def chk():
        need(refused == empties(ref), "set_ham_dense", "refused" if refused else "empty cell accepted")
        if not refused:
            need_close("Hamiltonian (dense, convention %d)" % conv, h, ref.ham(k, conv))
    return chk


def q_ham_csr(pc, ref, t):
    import tbplas.builder.exceptions as exc
    k, conv = kpoint(t), t.between("query", 1, 2)
    h = None
    try:
        pc.sync_array()
        fn = getattr(pc, "set_overlap_csr", pc.set_ham_csr)
        h = fn(k) if conv == 1 and t.chance("query", 1, 2) else fn(k, convention=conv)
        refused = False
    except (exc.PCOrbEmptyError, exc.PCHopEmptyError):
        refused = True

    def chk():
        need(refused == empties(ref), "set_ham_csr", "refused" if refused else "empty cell accepted")
        if not refused:
            need_close("Hamiltonian (csr, convention %d)" % conv, h.toarray(), ref.ham(k, conv))
    return chk


def q_bands(pc, ref, t):
    if empties(ref):
        return lambda: None
    k = np.array([kpoint(t) for _ in range(2)])
    b = np.array(pc.calc_bands(k, echo_details=False)[1])
    return lambda: need_close("bands", np.sort(b, axis=1), np.array([np.linalg.eigvalsh(ref.ham(x, 1)) for x in k]), 1e-8, 1e-8)


def q_lattice(pc, ref, t):
    lv, og, vol = np.array(pc.lat_vec), np.array(pc.origin), pc.get_lattice_volume()
    rv = np.array(pc.get_reciprocal_vectors())
    ar = pc.get_lattice_area("c")
    return lambda: (need_close("lat_vec", lv, ref.lat), need_close("origin", og, ref.origin),
                    need_close("volume", vol, abs(np.linalg.det(ref.lat))),
                    need_close("area", ar, np.linalg.norm(np.cross(ref.lat[0], ref.lat[1]))),
                    need_close("reciprocal vectors", rv @ ref.lat.T, 2 * np.pi * np.eye(3)))


def q_extend(pc, ref, t):
    import tbplas as tb
    if empties(ref):
        return lambda: None
    dim = [t.between("query", 1, 2), t.between("query", 1, 2), 1]
    k = kpoint(t)
    c = tb.extend_prim_cell(pc, dim)
    c.sync_array()
    h = np.zeros((c.num_orb, c.num_orb), complex)
    if c.num_hop == 0:
        return lambda: None
    c.set_ham_dense(k, h, convention=1)

    def chk():
        # spectrum of the extended cell at k = union of the spectra of the folded k-points
        w = []
        for a in range(dim[0]):
            for b in range(dim[1]):
                kk = np.array([(k[0] + a) / dim[0], (k[1] + b) / dim[1], k[2]])
                w += list(np.linalg.eigvalsh(ref.ham(kk, 2)))
        need_close("spectrum of the extended cell", np.sort(np.linalg.eigvalsh(h)), np.sort(w), 1e-8, 1e-8)
    return chk


def q_merge(pc, ref, t):
    """Hetero-structure of this cell with a shifted copy, coupled by one term."""
    import tbplas as tb
    if empties(ref):
        return lambda: None
    e = complex(t.choice("query", HOPS))
    i, j = t.draw("query", ref.num_orb), t.draw("query", ref.num_orb)
    rn = tuple(t.draw("query", 3) - 1 for _ in range(3))
    other = tb.PrimitiveCell(pc.lat_vec, pc.origin, unit=1.0)
    for o in ref.orbs:
        other.add_orbital(o[0], o[1])
    ih = tb.PCInterHopping(pc, other)
    ih.add_hopping(rn, i, j, e)
    k = kpoint(t)
    m = tb.merge_prim_cell(pc, other, ih)
    m.sync_array()
    h = np.zeros((m.num_orb, m.num_orb), complex)
    m.set_ham_dense(k, h, convention=2)

    def chk():
        n = ref.num_orb
        want = np.zeros((2 * n, 2 * n), complex)
        want[:n, :n] = ref.ham(k, 2)
        want[n:, n:] = np.diag(ref.eng())
        x = e * np.exp(2j * np.pi * np.dot(k, rn))
        want[i, n + j] += x
        want[n + j, i] += x.conjugate()
        need_close("Hamiltonian of the merged cell", h, want)
    return chk


def q_print_hk(pc, ref, t):
    """The printed formula of the Hamiltonian, evaluated."""
    if empties(ref):
        return lambda: None
    k, conv = kpoint(t), t.between("query", 1, 2)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pc.print_hk() if conv == 1 and t.chance("query", 1, 2) else pc.print_hk(conv)

    def chk():
        n = ref.num_orb
        env = {"ham": np.zeros((n, n), complex), "ka": k[0], "kb": k[1], "kc": k[2],
               "exp_i": lambda x: np.exp(2j * np.pi * x)}
        try:
            exec(out.getvalue().split("with ")[0], env)
        except SyntaxError:
            return                                             # not an executable formula: nothing to evaluate
        need_close("printed Hamiltonian (convention %d)" % conv, env["ham"], ref.ham(k, conv), 1e-3, 1e-3)
    return chk


def q_print(pc, ref, t):
    """The printed orbitals and hopping terms (if they can be read back)."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pc.print()

    def chk():
        head, _, hops = out.getvalue().partition("Hopping terms:")
        orbs = head.partition("Orbitals:")[2].strip().splitlines()
        try:
            rows = [[float(x) for x in re.findall(r"-?\d+\.\d{5}", line)] for line in orbs]   # the columns may touch
            if any(len(row) != 4 for row in rows):
                return
            terms = [ast.literal_eval("(" + re.sub(r"\)\s+", "), ", line.strip()) + ")") for line in hops.strip().splitlines()]
        except (ValueError, SyntaxError):
            return
        need(len(rows) == ref.num_orb, "printed orbitals", "%d instead of %d" % (len(rows), ref.num_orb))
        for row, o in zip(rows, ref.orbs):
            need_close("printed orbital", row, list(o[0]) + [o[1]], 1e-4, 1e-4)
        if all(len(x) == 3 for x in terms):
            need_table("printed hopping terms", [(tuple(rn), p[0], p[1], e) for rn, p, e in terms], ref)
    return chk


def q_plot(pc, ref, t):
    """Drawing the model shows nothing to compare, but must not disturb it."""
    if not empties(ref):
        with no_figures():
            pc.plot(fig_name="f.png", with_conj=t.chance("query", 1, 2), view=t.choice("query", ["ab", "bc", "ca", "ba"]),
                    hop_as_arrows=t.chance("query", 1, 2))
    return lambda: None


SHAPES = [np.array(m, float) for m in (
    [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 0], [1, 1, 0], [0, 0, 1]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 1], [0, 1, 0], [-1, 0, 1]])]


def q_reshape(pc, ref, t):
    """Reshaped cell, directly or as the layer of a hetero-structure."""
    import tbplas as tb
    m, k = t.choice("query", SHAPES), kpoint(t)
    p = ref.pos()
    delta = 0.0137
    frac = (p @ np.linalg.inv(m) + delta) * 2
    if empties(ref) or (p < 0).any() or (p >= 1).any() or (np.abs(frac - np.round(frac)) < 1e-6).any():
        return lambda: None
    direct = t.chance("query", 1, 2)
    c = (tb.reshape_prim_cell(pc, m, delta=delta) if direct else tb.make_hetero_layer(pc, m @ pc.lat_vec, delta=delta))
    lv = np.array(c.lat_vec)
    c.sync_array()
    h = np.zeros((c.num_orb, c.num_orb), complex)
    c.set_ham_dense(k, h, convention=1)

    def chk():
        need_close("lattice of the reshaped cell", lv, m @ ref.lat)
        w, seen = [], set()
        inv = np.linalg.inv(m)
        for n in np.ndindex(4, 4, 4):
            kk = (k + np.array(n)) @ inv.T
            key = tuple(np.round((kk - np.floor(kk + 1e-9)) * 1e6).astype(int))
            if key not in seen:
                seen.add(key)
                w += list(np.linalg.eigvalsh(ref.ham(kk, 2)))
        need(len(h) == len(w), "reshaped cell", "%d orbitals instead of %d" % (len(h), len(w)))
        need_close("spectrum of the reshaped cell", np.sort(np.linalg.eigvalsh(h)), np.sort(w), 1e-8, 1e-8)
    return chk


def q_neighbors(pc, ref, t):
    import tbplas as tb
    if ref.num_orb == 0:
        return lambda: None
    n, d = [t.draw("query", 2) for _ in range(3)], t.choice("query", [0.15, 0.35, 0.8])
    got = [(tuple(int(x) for x in r.rn), (int(r.pair[0]), int(r.pair[1])), np.array(r.rij), float(r.distance))
           for r in tb.find_neighbors(pc, a_max=n[0], b_max=n[1], c_max=n[2], max_distance=d)]

    def chk():
        p = ref.pos() @ ref.lat + ref.origin
        have = {}
        for rn, pair, rij, dist in got:
            need((rn, pair) not in have, "neighbors", "%s %s twice" % (rn, pair))
            have[rn, pair] = rij
            need_close("neighbor distance", dist, np.linalg.norm(rij))
        ds = [x[3] for x in got]
        need(ds == sorted(ds), "neighbors", "not sorted by distance")
        for rn in np.ndindex(*[2 * x + 1 for x in n]):
            rn = tuple(int(x) - y for x, y in zip(rn, n))
            for i in range(ref.num_orb):
                for j in range(ref.num_orb):
                    v = p[j] + np.array(rn) @ ref.lat - p[i]
                    x = np.linalg.norm(v)
                    if abs(x - d) < 1e-9 or x < 1e-9:
                        have.pop((rn, (i, j)), None)
                        continue
                    r = have.pop((rn, (i, j)), None)
                    need((r is not None) == (x < d), "neighbors", "pair %s %s at %s is %s" % (
                        rn, (i, j), x, "missing" if r is None else "too far"))
                    if r is not None:
                        need_close("neighbor vector %s %s" % (rn, (i, j)), r, v)
        need(not have, "neighbors", "unexpected pairs %s" % sorted(have)[:3])
    return chk


QUERIES = (q_counts, q_orbitals, q_hoppings, q_orb_pos, q_orb_eng, q_orb_pos_nm, q_hop, q_hop_eng_first, q_dr, q_get_orbital,
           q_get_hopping, q_ham_dense, q_ham_csr, q_bands, q_lattice, q_extend, q_print_hk, q_print, q_plot, q_reshape, q_neighbors, q_merge)

READ_ONLY = tuple(q for q in QUERIES if q is not q_merge)      # merging aligns the lattices of its arguments


def query_all(pc, ref, t, which=QUERIES):
    for q in which:
        q(pc, ref, t)()
