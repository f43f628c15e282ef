"""C17: a model in use cannot be changed behind its users' back."""
import numpy as np

from .. import cellops as co
from .. import superops as so
from ..core import Violation
from ..interrupt import attempt
from ..util import quiet, stale_memory

QUICK_RUNS, THOROUGH_RUNS = 8000, 200000
RULE = ("random history of 6-40 steps over a graph of primitive cells, supercells, inter-supercell hoppings and samples: "
        "creation of dependent models, attempts at every modifying operation on models in use (must raise LockError and change "
        "nothing), unlock - 0..3 changes (also ones that change nothing, are reverted or have equal hashes) - announcement, "
        "(an announcement may be interrupted or run out of memory at a drawn line and is then repeated), or all its users reset by hand, after which all dependents are compared with the reference and the model must be protected again, and unlocking one "
        "model must not unprotect another; non-trivial: an operation was refused before and after an announced change")
ASSUMPTIONS = ["between unlocking and announcing a change, the dependents of the changed model are not used",
               "containers and arrays handed out by a model are not written into"]
COMPONENTS = {"real": "tbplas.builder.base/primitive/super/sample/advanced, Cython core", "simulated": "order of events, interruption and allocation failure at any line of an announcement"}


def locked(x):
    return bool(x.supers if isinstance(x, so.Cell) else x.samples)


def cell_ops(t, c):
    import tbplas as tb
    pc, ref = c.obj, c.ref
    i = t.draw("op", ref.num_orb)
    hop = t.choice("op", sorted(ref.hops))
    h = tb.HopDict(ref.num_orb)
    m = np.zeros((ref.num_orb,) * 2, complex)
    m[0, -1] = 7.5
    h[(1, 0, 0)] = m
    return [
        ("add_orbital", lambda: pc.add_orbital((0.1, 0.2, 0.3), 5.0)),
        ("add_orbital_cart", lambda: pc.add_orbital_cart((0.1, 0.2, 0.3), energy=5.0)),
        ("set_orbital", lambda: pc.set_orbital(i, energy=17.0)),
        ("set_orbital_position", lambda: pc.set_orbital(i, position=(0.11, 0.12))),
        ("set_orbital_cart", lambda: pc.set_orbital_cart(i, position=(9.0, 8.0, 7.0))),
        ("remove_orbital", lambda: pc.remove_orbital(i)),
        ("remove_orbitals", lambda: pc.remove_orbitals([i])),
        ("add_hopping", lambda: pc.add_hopping(hop[0], hop[1], hop[2], 33.0)),
        ("add_hopping_dict", lambda: pc.add_hopping_dict(h)),
        ("remove_hopping", lambda: pc.remove_hopping(*hop)),
        ("apply_pbc", lambda: pc.apply_pbc((False, False, False))),
        ("trim", lambda: pc.trim()),
        ("reset_lattice", lambda: pc.reset_lattice(np.eye(3) * 7.7)),
        ("reset_origin", lambda: pc.reset_lattice(origin=np.array([3.0, 2.0, 1.0]))),
        ("spiral_prim_cell", lambda: tb.spiral_prim_cell(pc, angle=0.3, shift=0.2)),
    ]


def super_ops(t, s):
    sc, ref = s.obj, s.ref
    v = t.choice("op", ref.ids())
    i, j = t.draw("op", ref.num_orb), t.draw("op", ref.num_orb)
    return [
        ("add_vacancy", lambda: sc.add_vacancy(v)),
        ("add_vacancies", lambda: sc.add_vacancies([v])),
        ("set_vacancies", lambda: sc.set_vacancies([v])),
        ("add_hopping", lambda: sc.add_hopping((1, 1, 1), i, j, 33.0)),
        ("set_orb_pos_modifier", lambda: sc.set_orb_pos_modifier(lambda p: p.fill(0.5))),
        ("trim", lambda: sc.trim()),
    ]


def inter_ops(t, x):
    k = t.choice("op", sorted(x.tab))
    h = x.obj
    return [
        ("add_hopping", lambda: h.add_hopping((1, -1, 1), 0, 0, 33.0)),
        ("overwrite", lambda: h.add_hopping(k[0], k[1], k[2], 34.0)),
        ("remove_hopping", lambda: h.remove_hopping(*k)),
        ("remove_orbital", lambda: h.remove_orbital(k[1])),
        ("remove_orbitals", lambda: h.remove_orbitals([k[1]])),
        ("remove_rn", lambda: h.remove_rn(k[0])),
    ]


OPS = {so.Cell: cell_ops, so.Super: super_ops, so.Inter: inter_ops}


def refused(t, st, x, op=None):
    """Tries one modifying operation on a model in use."""
    import tbplas.builder.exceptions as exc
    ops = OPS[type(x)](t, x)
    name, fn = ops[t.draw("op", len(ops))]
    try:
        fn()
    except exc.LockError:
        st.hit("refused:%s.%s" % (type(x).__name__, name))
        return name
    raise Violation("not-protected", "%s of a %s in use was not refused" % (name, type(x).__name__.lower()))


def look(t, x):
    """Compares one model with its reference."""
    if isinstance(x, so.Cell):
        if t.chance("query", 1, 4):
            co.query_all(x.obj, x.ref, t, co.READ_ONLY)
        else:
            t.choice("query", co.READ_ONLY)(x.obj, x.ref, t)()
    elif isinstance(x, so.Super):
        t.choice("query", so.SUPER_QUERIES)(x, t)()
    elif isinstance(x, so.Inter):
        so.i_hop(x, t)()
    else:
        t.choice("query", so.SAMPLE_QUERIES)(x, t)()


def everything(w):
    return w.cells + w.supers + w.inters + w.samples


def used(w):
    return [x for x in w.cells + w.supers + w.inters if locked(x)]


def edits(t, x):
    """0-3 edits of an unlocked model, some of which leave it as it was."""
    k = t.draw("op", 4)
    if k == 0:
        return ["unchanged"]
    if isinstance(x, so.Cell):
        if k == 1:                                  # a change and its reversal, or a change with an equal hash
            i = t.draw("op", x.ref.num_orb)
            e = x.ref.orbs[i][1]
            if t.chance("op", 1, 2):
                x.obj.set_orbital(i, energy=99.0)
                x.obj.set_orbital(i, energy=e)
                return ["reverted"]
            new = {-1.0: -2.0, -2.0: -1.0}.get(float(e), -1.0)
            x.obj.set_orbital(i, energy=new)
            x.ref.orbs[i][1] = new
            return ["equal hash"]
        out = so.edit_cell(t, x)
        for s in x.supers:                          # C16 deals with vacancies that become illegal
            while s.ref.bad_vacancies():
                so.fill(t, x, x.ref.num_orb + 1)
        return out
    if isinstance(x, so.Super):
        return [so.edit_super(t, x) for _ in range(k)]
    return [so.edit_inter(t, x) for _ in range(k)]


def announced(t, w, x):
    if isinstance(x, so.Cell):
        smp = so.samples_of_cell(x)
    else:
        smp = x.samples
    for s in smp:
        s.ref.mods = []


def run(t, st):
    trace = []
    with stale_memory(t, st), quiet():
        w = so.Models()
        for _ in range(t.between("op", 1, 2)):
            so.new_cell(t, w)
        phase = 0
        for _ in range(t.between("op", 6, 40)):
            st.descr = {"history": trace[-12:]}
            op = t.weighted("op", [("refused", 6), ("change", 5), ("free", 2), ("look", 3), ("new", 4), ("sample", 1),
                                   ("announce", 1)])
            if op == "refused":
                xs = used(w)
                if not xs:
                    continue
                x = t.choice("op", xs)
                trace.append((type(x).__name__, refused(t, st, x)))
                look(t, x)
                if phase in (0, 2):
                    phase += 1
            elif op == "change":
                xs = used(w)
                if not xs:
                    continue
                x = t.choice("op", xs)
                x.obj.unlock()
                other = [y for y in xs if y is not x]
                if other and t.chance("op", 1, 3):
                    y = t.choice("op", other)
                    trace.append(("while unlocked", type(y).__name__, refused(t, st, y)))
                trace.append((type(x).__name__, edits(t, x)))
                if t.chance("fault", 1, 4):         # an announcement that fails part-way is repeated
                    done, _, where = attempt(t, st, x.obj.update, top=1500)
                    if not done:
                        trace.append(("update", where))
                if not isinstance(x, so.Cell) and t.chance("op", 1, 3):
                    for s in x.samples:             # every user takes the change over by itself
                        t.choice("op", [s.obj.reset_array, s.obj.update])()
                    st.hit("taken_over")
                elif isinstance(x, so.Cell) and x.supers and t.chance("take", 1, 3):
                    for s in x.supers:
                        s.obj.sync_array(force_sync=True)
                    for s in so.samples_of_cell(x):
                        t.choice("take", [s.obj.reset_array, s.obj.update])()
                    st.hit("taken_over_cell")
                else:
                    x.obj.update()
                    st.hit("announced")
                announced(t, w, x)
                if phase == 1:
                    phase = 2
                # protected again, at once
                trace.append(("after update", refused(t, st, x)))
                look(t, t.choice("query", everything(w)))
            elif op == "announce":                  # announcing without any change or unlocking
                xs = used(w)
                if xs:
                    x = t.choice("op", xs)
                    x.obj.update()
                    announced(t, w, x)
                    trace.append(("update", type(x).__name__))
                    refused(t, st, x)
            elif op == "free":                      # models that nobody uses can be changed freely
                xs = [x for x in w.cells + w.supers + w.inters if not locked(x)]
                if xs:
                    x = t.choice("op", xs)
                    if isinstance(x, so.Cell):
                        so.edit_cell(t, x)
                    elif isinstance(x, so.Super):
                        so.edit_super(t, x)
                    else:
                        so.edit_inter(t, x)
                    trace.append(("free", type(x).__name__))
            elif op == "sample":
                if w.samples:
                    trace.append(so.edit_sample(t, t.choice("op", w.samples)))
            elif op == "look":
                x = t.choice("query", everything(w))
                trace.append(("look", type(x).__name__))
                look(t, x)
            else:
                k = t.draw("op", 4)
                if k <= 1 and len(w.supers) < 4:
                    so.new_super(t, w, t.choice("op", w.cells))
                    trace.append("new_super")
                elif k == 2 and len(w.supers) > 1 and len(w.inters) < 3:
                    so.new_inter(t, w)
                    trace.append("new_inter")
                elif w.supers and len(w.samples) < 3:
                    so.new_sample(t, w)
                    trace.append("new_sample")
        st.descr = {"history": trace[-12:], "final": True}
        for x in used(w):
            refused(t, st, x)
        for x in everything(w):
            look(t, x)
        st.nontrivial = phase == 3
    st.mix(trace)
