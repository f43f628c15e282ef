"""C14: importing damaged Wannier90 output fails instead of giving a wrong model."""
import os

import numpy as np

from .. import models
from ..core import Violation
from ..storage import Storage, draw_plan
from ..util import quiet

SCRATCH = True
QUICK_RUNS, THOROUGH_RUNS = 14000, 300000
RULE = ("random Hermitian Wannier Hamiltonians (1-4 orbitals, 1-21 lattice vectors, optional Wigner-Seitz corrections, "
        "Angstrom/Bohr/no unit or one that Wannier90 does not know, drawn energy cutoff) written in Wannier90's formats; intact, or one or two files truncated at a drawn byte, "
        "missing, or failing on read; short reads; one or two imports; non-trivial: a file is damaged or a fault fired")
ASSUMPTIONS = ["files are damaged by truncation, loss or read errors; Wannier90 ends every line with a newline",
               "degeneracy weights are all 1"]
COMPONENTS = {"real": "tbplas importer and primitive cell, local file system in a scratch directory",
              "simulated": "file operations (short reads, errors), truncation by a killed producer or full disk"}
BOHR = 0.52917721092


def gen(t):
    s = "wan"
    n = t.between(s, 1, 4)
    g = models.rnd(t.draw(s, 1 << 30))
    lat = np.round(np.eye(3) * g.uniform(2, 5, 3)[:, None] + g.uniform(-.5, .5, (3, 3)), 6)
    pos = np.round(g.uniform(0, 3, (n, 3)), 8)
    half = []
    for _ in range(t.weighted(s, [(0, 1), (1, 2), (2, 2), (3, 2), (4, 2), (7, 1), (10, 1)])):
        r = tuple(int(x) for x in g.integers(-2, 3, 3))
        if t.chance(s, 1, 5):
            r = (10 + int(g.integers(5)), 0, 0)
        if r != (0, 0, 0) and r not in half and tuple(-x for x in r) not in half:
            half.append(r)
    rs = sorted(half + [tuple(-x for x in r) for r in half] + [(0, 0, 0)])
    hop = {}
    for r in rs:
        for j in range(n):
            for i in range(n):
                if (r, i, j) in hop:
                    continue
                m = tuple(-x for x in r)
                e = complex(round(float(g.uniform(-9, 9)), 6), round(float(g.uniform(-2, 2)), 6))
                if g.integers(6) == 0:
                    e = complex(0.000003, 0.0)
                elif g.integers(6) == 0:
                    e = complex(0.0, e.imag)
                if r == m and i == j:
                    e = complex(e.real, 0.0)
                hop[(r, i, j)] = e
                hop[(m, j, i)] = e.conjugate()
    ws = None
    if t.chance(s, 1, 2):
        ws, used = {}, set(hop)
        for k in list(hop):
            if k in ws:
                continue
            r, i, j = k
            m = (tuple(-x for x in r), j, i)
            vecs = [(0, 0, 0)]
            if r != (0, 0, 0) and (g.integers(3) == 0 or k == (rs[-1], n - 1, n - 1)):
                vecs = []
                for d in range(int(g.integers(1, 4))):
                    v = (0, int(g.integers(3, 15)) * (1 if g.integers(2) else -1), 20 + d)
                    tgt = (tuple(a + b for a, b in zip(r, v)), i, j)
                    if tgt in used:
                        continue
                    used.add(tgt)
                    used.add((tuple(-a for a in tgt[0]), j, i))
                    vecs.append(v)
                vecs = vecs or [(0, 0, 0)]
            ws[k] = vecs
            ws[m] = [tuple(-x for x in v) for v in vecs]
    return {"n": n, "lat": lat, "pos": pos, "rs": rs, "hop": hop, "ws": ws, "unit": t.choice(s, ["ang", None, "bohr", "Bohr", "Ang", "nm"]),
            "natom": t.between(s, 0, 2), "tail": t.chance(s, 1, 2), "head": t.chance(s, 1, 2)}


def write(c, seed):
    n = c["n"]
    with open(seed + ".win", "w") as f:
        if c["head"]:
            f.write("num_wann = %d\n\n" % n)
        f.write("begin unit_cell_cart\n")
        if c["unit"]:
            f.write(c["unit"] + "\n")
        for v in c["lat"]:
            f.write("%20.15f%20.15f%20.15f\n" % tuple(v))
        f.write("end unit_cell_cart\n")
        if c["tail"]:
            f.write("\nbegin atoms_frac\n C 0.0 0.0 0.0\nend atoms_frac\n\nmp_grid = 3 3 1\n")
    with open(seed + "_centres.xyz", "w") as f:
        f.write("%6d\n" % (n + c["natom"]))
        f.write(" Wannier centres, written by Wannier90 on18Nov2020 at 17:20:51 \n")
        for p in c["pos"]:
            f.write("X    %17.8f%17.8f%17.8f\n" % tuple(p))
        for a in range(c["natom"]):
            f.write("C    %17.8f%17.8f%17.8f\n" % (a, 0, 0))
    with open(seed + "_hr.dat", "w") as f:
        f.write(" written on 18Nov2020 at 17:20:51 \n%12d\n%12d\n" % (n, len(c["rs"])))
        deg = ["    1"] * len(c["rs"])
        for i in range(0, len(deg), 15):
            f.write("".join(deg[i:i + 15]) + "\n")
        for r in c["rs"]:
            for j in range(n):
                for i in range(n):
                    e = c["hop"][(r, i, j)]
                    f.write("%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (r + (i + 1, j + 1, e.real, e.imag)))
    if c["ws"] is not None:
        with open(seed + "_wsvec.dat", "w") as f:
            f.write("## written on 18Nov2020 at 17:20:51  with use_ws_distance=.true.\n")
            for r in c["rs"]:
                for i in range(n):
                    for j in range(n):
                        v = c["ws"][(r, i, j)]
                        f.write("%5d%5d%5d%5d%5d\n%5d\n" % (r + (i + 1, j + 1, len(v))))
                        for x in v:
                            f.write("%5d%5d%5d\n" % x)


def expected(c, correct, cut):
    hop = {}
    for (r, i, j), e in c["hop"].items():
        if correct:
            for v in c["ws"][(r, i, j)]:
                k = (tuple(a + b for a, b in zip(r, v)), i, j)
                hop[k] = hop.get(k, 0) + e / len(c["ws"][(r, i, j)])
        else:
            hop[(r, i, j)] = e
    eng = np.zeros(c["n"])
    out = {}
    for (r, i, j), e in hop.items():
        if abs(e) < cut:
            continue
        if r == (0, 0, 0) and i == j:
            eng[i] = e.real
        else:
            out[(r, i, j)] = e
    lat = c["lat"] * {"bohr": BOHR, "Bohr": BOHR, "nm": 10.0}.get(c["unit"], 1.0)
    return lat * 0.1, c["pos"] * 0.1, eng, out


def compare(pc, ref):
    lat, pos, eng, hop = ref
    if not np.allclose(pc.lat_vec, lat, atol=1e-7):
        return "lattice vectors differ"
    if pc.num_orb != len(eng):
        return "%d orbitals instead of %d" % (pc.num_orb, len(eng))
    if len(eng) and not np.allclose(pc.orb_pos_nm, pos, atol=1e-6):
        return "orbital positions differ"
    if not np.allclose(pc.orb_eng, eng, atol=1e-9):
        return "on-site energies %s instead of %s" % (pc.orb_eng, eng)
    got = {}
    if pc.num_hop:
        for k, e in zip(np.asarray(pc.hop_ind), np.asarray(pc.hop_eng)):
            k = [int(x) for x in k]
            got[(tuple(k[:3]), k[3], k[4])] = complex(e)
            got[(tuple(-x for x in k[:3]), k[4], k[3])] = complex(e).conjugate()
    for k in hop:
        if k not in got:
            return "hopping term %s is missing (%d of %d)" % (k, len(got), len(hop))
        if abs(got[k] - hop[k]) > 1e-9:
            return "hopping term %s is %s instead of %s" % (k, got[k], hop[k])
    for k in got:
        if k not in hop:
            return "additional hopping term %s" % (k,)
    return None


def run(t, st):
    import tbplas as tb
    c = gen(t)
    write(c, "w90")
    correct = c["ws"] is not None and t.chance("mode", 2, 3)
    cut = t.weighted("mode", [(None, 4), (0.5, 1), (1.5, 1), (0.001, 1)])
    ref = expected(c, correct, 1e-5 if cut is None else cut)
    kw = {} if cut is None else {"hop_eng_cutoff": cut}
    files = ["w90.win", "w90_centres.xyz", "w90_hr.dat"] + (["w90_wsvec.dat"] if c["ws"] is not None else [])
    damage = []
    if t.chance("damage", 4, 5):
        for f in t.sample("damage", files, t.weighted("damage", [(1, 5), (2, 1)])):
            if t.chance("damage", 1, 12):
                os.remove(f)
                damage.append((f, "lost"))
                st.hit("fault:file_lost")
                continue
            n = os.path.getsize(f)
            how = t.draw("damage", 6)
            if how == 0:
                k = t.draw("damage", n)
            elif how == 1:
                k = max(0, n - 1 - t.draw("damage", t.choice("damage", [4, 60])))     # near the end
            else:                                            # at a line boundary
                text = open(f).read()
                ends = [i for i, ch in enumerate(text) if ch == "\n"]
                if how >= 4:                                 # of the last few lines
                    ends = ends[-5:]
                k = ends[t.draw("damage", len(ends))] + (1 if how % 2 == 0 else 0)
                k = min(k, n - 1)
            os.truncate(f, k)
            damage.append((f, "cut to %d of %d bytes" % (k, n)))
            st.hit("fault:file_truncated")
    disk = Storage(t, st)
    st.descr = {"orbitals": c["n"], "vectors": len(c["rs"]), "damage": damage, "correct_hop": correct}
    for n in range(t.between("mode", 1, 2)):
        disk.ops = 0
        disk.eio = {}
        nf = len(disk.fired)
        draw_plan(t, disk, 10, kinds=("none", "none", "none", "eio"))
        with disk, quiet():
            disk.as_session("import")
            try:
                pc, exc = tb.wan2pc("w90", correct_hop=correct, **kw), None
            except Exception as e:
                pc, exc = None, e
            disk.session = None
        fired = disk.fired[nf:]
        if exc is not None:
            st.hit("refused")
            if not damage and not fired and c["unit"] != "nm":
                raise Violation("intact-refused", "importing intact files fails with %s: %s" % (type(exc).__name__, exc))
            continue
        with quiet():
            d = compare(pc, ref)
        if d:
            raise Violation("wrong-model", "import with %s%s succeeds but %s" %
                            (damage or "intact files", " after %s" % fired if fired else "", d))
        st.hit("imported")
    st.mix(damage, correct, c["n"], len(c["rs"]), disk.fired, disk.log)
    st.nontrivial = bool(damage) or bool(disk.fired)
