"""C15: a primitive cell always reflects its current definition."""
import copy

import numpy as np

from .. import cellops as co
from ..interrupt import attempt, count_lines, late_point
from ..refcell import RefCell
from ..util import quiet, stale_memory

QUICK_RUNS, THOROUGH_RUNS = 12000, 400000
RULE = ("random history of 5-40 edits and queries of a primitive cell or overlap matrix (values chosen so that many of them "
        "have equal Python hashes, some cells start with up to 8 orbitals, some histories favour one kind of edit); queries may be interrupted or run out of memory at a drawn line; cells may be deep-copied "
        "and both copies edited further; every query answer is compared with a reference cell kept as plain data; "
        "non-trivial: a query was made after an edit that followed another query")
ASSUMPTIONS = ["edits are not interrupted part-way (a half-finished edit has no defined result)",
               "the caller does not write into arrays or containers handed out by the cell",
               "callers of set_ham_dense/set_ham_csr call sync_array first, as documented"]
COMPONENTS = {"real": "tbplas.builder.primitive/base/overlap/advanced, Cython core, DiagSolver",
              "simulated": "interruption and allocation failure at any line of a query"}


def build(t):
    import tbplas as tb
    lat, org = t.choice("op", co.LATS), t.choice("op", co.ORIGINS)
    r = t.draw("op", 8)
    if r == 0:
        lat, org, u, pc = np.eye(3), np.zeros(3), co.ANG, tb.PrimitiveCell()
    elif r == 1:
        u, pc = co.ANG, tb.PrimitiveCell(lat.copy(), org.copy())
    else:
        u = 1.0 if r == 2 else co.ANG
        pc = tb.PrimitiveCell(lat_vec=lat.copy(), origin=org.copy(), unit=u)
    ref = RefCell(lat * u, org * u)
    if t.chance("op", 1, 8):
        for _ in range(t.between("op", 1, 3)):
            p, e = co.coord(t), t.choice("op", co.ENERGIES)
            pc.add_orbital(p, e)
            ref.orbs.append([co.full3(p), e, "X"])
        ov = tb.Overlap(pc)
        for o in ref.orbs:
            o[1] = 1.0
        return ov, ref, "overlap"
    if t.chance("op", 1, 3):
        if t.chance("big", 1, 40):
            co.populate(t, pc, ref, t.between("big", 9, 40), t.between("big", 20, 90))
        else:
            co.populate(t, pc, ref, t.between("op", 3, 8), t.between("op", 4, 16))
    return pc, ref, "cell"


def there_and_back(t, st, pc, ref, trace):
    """Brought up to date, changed, brought up to date again but interrupted on the way, changed back, queried."""
    sync = t.choice("op", ["sync_array", "sync_orb", "sync_hop"])
    pc.sync_array()
    back = co.change_and_back(t, pc, ref)
    if back is None:
        return
    lines = count_lines(getattr(copy.deepcopy(pc), sync))
    done, _, where = attempt(t, st, getattr(pc, sync), at=late_point(t, lines))
    trace.append(("there and back", sync, where))
    st.hit("there_and_back")
    st.descr = {"history": trace[-12:]}
    if t.chance("op", 3, 4):
        back()
    q = t.choice("query", [co.q_hop, co.q_orb_pos, co.q_orb_eng] if t.chance("query", 2, 3) else co.QUERIES)
    q(pc, ref, t)()


def run(t, st):
    pc, ref, what = build(t)
    cells = [(pc, ref)]
    trace = []
    edited = queried = False
    focus = t.choice("op", co.FOCUS) if t.chance("op", 1, 2) else None
    with stale_memory(t, st), quiet():
        for _ in range(t.between("op", 5, 40)):
            pc, ref = t.choice("op", cells)
            r = t.draw("op", 10)
            if ref.num_orb and t.chance("op", 1, 30):
                there_and_back(t, st, pc, ref, trace)
            elif r < 5:
                op = co.edit(t, pc, ref, focus=focus, reach="far")
                trace.append(op)
                edited = True
                if queried:
                    st.nontrivial = True
            elif r == 5 and len(cells) < 3:
                cells.append((copy.deepcopy(pc), ref.copy()))
                trace.append("deepcopy")
            else:
                q = t.choice("query", co.QUERIES)
                queried = True
                if t.chance("fault", 1, 3):
                    done, chk, where = attempt(t, st, lambda: q(pc, ref, t))
                    trace.append((q.__name__, where))
                    if not done:
                        st.hit("interrupted:" + where.split(":")[1])
                        continue
                else:
                    chk = q(pc, ref, t)
                    trace.append(q.__name__)
                st.descr = {"kind": what, "history": trace[-12:]}
                chk()
        st.descr = {"kind": what, "history": trace[-12:]}
        for pc, ref in cells:
            co.query_all(pc, ref, t)
    st.mix(trace)
    st.hit("edits_and_queries", len(trace))
