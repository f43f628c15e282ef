"""C16: supercells and samples always reflect their current definition."""
from .. import cellops as co
from .. import superops as so
from ..core import Violation
from ..interrupt import attempt, count_lines, late_point
from ..util import quiet, stale_memory

QUICK_RUNS, THOROUGH_RUNS = 8000, 150000
RULE = ("random history of 5-30 steps over 1-2 primitive cells, 1-4 supercells, inter-supercell hoppings and samples built at "
        "random points: edits of every kind (unlock, change, announce), sample modifications and resets, queries; queries and "
        "announcements may be interrupted or run out of memory at a drawn line (an interrupted announcement is repeated); "
        "changes that make a vacancy illegal must be reported by every query until repaired; every answer is compared with "
        "the explicitly expanded reference; non-trivial: something was queried, changed and queried again")
ASSUMPTIONS = ["a changed model is announced with update() before its dependents are queried",
               "edits themselves are not interrupted part-way", "supercell dimensions respect the documented minimum",
               "a pair of orbitals has at most one hopping modifier (the result for several is not documented)",
               "indices used in hopping modifiers and inter-supercell terms stay legal"]
COMPONENTS = {"real": "tbplas.builder.super/sample/primitive/base, Cython core, DiagSolver",
              "simulated": "interruption and allocation failure at any line of a query or announcement"}


def announce(t, st, obj, trace):
    """update(), possibly interrupted once and then repeated."""
    if t.chance("fault", 1, 4):
        done, _, where = attempt(t, st, obj.update, top=1500)
        if done:
            return
        trace.append(("update", where))
    obj.update()


def pick_query(t, w):
    c = []
    if w.samples:
        c += [("sample", x) for x in w.samples] * 2
    c += [("super", x) for x in w.supers] + [("inter", x) for x in w.inters]
    kind, x = t.choice("query", c)
    q = {"super": lambda: t.choice("query", so.SUPER_QUERIES), "inter": lambda: so.i_hop,
         "sample": lambda: t.choice("query", so.SAMPLE_QUERIES)}[kind]()
    return q, x


def query(t, st, w, trace):
    q, x = pick_query(t, w)
    if t.chance("fault", 1, 3):
        done, chk, where = attempt(t, st, lambda: q(x, t), top=1500)
        trace.append((q.__name__, where))
        if not done:
            st.hit("interrupted:" + where.split(":")[1])
            return
    else:
        chk = q(x, t)
        trace.append(q.__name__)
    chk()


def illegal_vacancies(t, st, w, c, trace):
    """The cell lost orbitals that are vacancies of some supercell: every dependent query is refused until repaired."""
    import tbplas.builder.exceptions as exc
    bad = [sc for sc in c.supers if sc.ref.bad_vacancies()]
    try:
        c.obj.update()
        raise Violation("stale-or-wrong", "announcing a cell whose supercell has illegal vacancies was accepted")
    except exc.IDPCIndexError:
        pass
    for _ in range(t.between("query", 1, 3)):
        sc = t.choice("query", bad)
        # a query with arguments that would be legal otherwise; drawn without looking at the (undefined) orbitals
        q = t.choice("query", [lambda: sc.obj.get_orb_eng(), lambda: sc.obj.get_hop(), lambda: sc.obj.get_orb_pos(),
                               lambda: sc.obj.sync_array(), lambda: sc.obj.orb_id_sc2pc(0)])
        try:
            if t.chance("fault", 1, 4):
                done, _, where = attempt(t, st, q)
                if not done:
                    continue
            else:
                q()
        except exc.IDPCIndexError:
            st.hit("refused_query")
            continue
        raise Violation("stale-or-wrong", "a supercell with illegal vacancies answered a query")
    for sc in bad:
        sc.ref.vac = {v for v in sc.ref.vac if v[3] < c.ref.num_orb}
        sc.obj.unlock()
        sc.obj.set_vacancies(sorted(sc.ref.vac))
    trace.append("repair vacancies")


def there_and_back(t, st, w, trace):
    """Changed and back twice; the second time the update is interrupted: nothing of the detour may remain."""
    if t.chance("op", 1, 3):
        c = t.choice("op", w.cells)
        if not c.supers:
            return
        obj, method = c.obj, "update"
        samples, target = so.samples_of_cell(c), t.choice("op", c.supers)

        def there():
            obj.unlock()
            return co.change_and_back(t, obj, c.ref, resize=False)
    else:
        target = sc = t.choice("op", w.supers)
        obj, samples = sc.obj, sc.samples
        method = "update" if samples and t.chance("op", 1, 2) else "sync_array"
        keep = set(sc.ref.vac)
        sc.ref.vac = set()
        new = so.random_vacancies(t, sc.ref, max(1, sc.need_orbs()))
        sc.ref.vac = keep

        def there():
            obj.unlock()
            obj.set_vacancies(new)
            return lambda: obj.set_vacancies(sorted(keep))
    getattr(obj, method)()
    back = there()
    lines = count_lines(getattr(obj, method))
    obj.unlock()
    back()
    obj.update()
    back = there()
    where = attempt(t, st, getattr(obj, method), at=late_point(t, lines))[2]
    obj.unlock()
    back()
    if samples or method == "update":
        announce(t, st, obj, trace)
    for s in samples:
        s.ref.mods = []
    trace.append(("there and back", where))
    st.hit("there_and_back")
    t.choice("query", so.SYNCED)(target, t)()
    if samples and t.chance("query", 1, 2):
        so.m_arrays(t.choice("query", samples), t)()


def step(t, st, w, trace):
    op = t.weighted("op", [("cell", 3), ("super", 6), ("inter", 2), ("sample", 3), ("reset", 1), ("new_super", 1),
                           ("new_inter", 1), ("new_sample", 2), ("there_and_back", 1)])
    if op == "there_and_back":
        there_and_back(t, st, w, trace)
    elif op == "cell":
        c = t.choice("op", w.cells)
        c.obj.unlock()
        trace.append(("cell", so.edit_cell(t, c)))
        if any(sc.ref.bad_vacancies() for sc in c.supers):
            illegal_vacancies(t, st, w, c, trace)
        announce(t, st, c.obj, trace)
        for s in so.samples_of_cell(c):
            s.ref.mods = []
    elif op == "super":
        sc = t.choice("op", w.supers)
        if sc.samples:
            sc.obj.unlock()
        for _ in range(t.between("op", 1, 2)):
            trace.append(("super", so.edit_super(t, sc)))
        if sc.samples:
            announce(t, st, sc.obj, trace)
        for s in sc.samples:
            s.ref.mods = []
    elif op == "inter":
        if not w.inters:
            return
        x = t.choice("op", w.inters)
        x.obj.unlock()
        for _ in range(t.between("op", 1, 2)):
            trace.append(so.edit_inter(t, x))
        announce(t, st, x.obj, trace)
        for s in x.samples:
            s.ref.mods = []
    elif op == "sample":
        if w.samples:
            trace.append(("sample", so.edit_sample(t, t.choice("op", w.samples))))
    elif op == "reset":
        if w.samples:
            s = t.choice("op", w.samples)
            s.obj.reset_array()
            s.ref.mods = []
            trace.append("reset")
    elif op == "new_super":
        if len(w.supers) < 4:
            so.new_super(t, w, t.choice("op", w.cells))
            trace.append("new_super")
    elif op == "new_inter":
        if len(w.supers) > 1 and len(w.inters) < 3 and so.new_inter(t, w):
            trace.append("new_inter")
    elif op == "new_sample":
        if len(w.samples) < 3:
            so.new_sample(t, w)
            trace.append("new_sample")


def build(t):
    w = so.Models()
    for _ in range(t.between("op", 1, 2)):
        so.new_cell(t, w)
    for _ in range(t.between("op", 1, 2)):
        so.new_super(t, w, t.choice("op", w.cells))
    return w


def run(t, st):
    trace = []
    with stale_memory(t, st), quiet():
        w = build(t)
        phase = 0
        for _ in range(t.between("op", 5, 30)):
            st.descr = {"history": trace[-12:], "cells": len(w.cells), "supercells": len(w.supers), "samples": len(w.samples)}
            if t.chance("op", 1, 2):
                query(t, st, w, trace)
                phase = max(phase, 1)
                if phase == 2:
                    st.nontrivial = True
            else:
                step(t, st, w, trace)
                if phase == 1:
                    phase = 2
        st.descr = {"history": trace[-12:], "final": True}
        for sc in w.supers:
            for q in so.SUPER_QUERIES:
                q(sc, t)()
        for x in w.inters:
            so.i_hop(x, t)()
        for s in w.samples:
            for q in so.SAMPLE_QUERIES:
                q(s, t)()
    st.mix(trace)
    st.hit("steps", len(trace))
