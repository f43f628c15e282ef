"""Workload generators: model specifications drawn from the tape, and builders.

A specification is plain data; every simulated process builds its own objects from it, as separate
processes would.
"""
import numpy as np

UNIT = 0.1


def rnd(seed):
    return np.random.Generator(np.random.PCG64(seed))


# ------------------------------------------------------------------- primitive cells
def pc_spec(t, stream="model", max_orb=4, min_orb=1, even=False, dims=None, max_hop=8, hermitian_real=False):
    """Random primitive cell."""
    n = t.between(stream, min_orb, max_orb)
    if even:
        n = 2 * max(1, n // 2)
    dim = dims if dims is not None else t.choice(stream, [2, 3, 1])
    return {"kind": "pc", "n": n, "dim": dim, "seed": t.draw(stream, 1 << 30), "nhop": t.between(stream, 1, max_hop),
            "real": bool(hermitian_real or t.chance(stream, 1, 4))}


def pc_data(spec):
    """(lat_vec in nm, orbitals [(pos, eng)], hoppings [(rn, i, j, eng)]) of a specification."""
    g = rnd(spec["seed"])
    lat = np.eye(3) * g.uniform(0.2, 0.5, 3)[:, None] + g.uniform(-0.05, 0.05, (3, 3))
    orbs = [(tuple(np.round(g.uniform(0, 1, 3), 3).tolist()), round(float(g.uniform(-1, 1)), 3))
            for _ in range(spec["n"])]
    hops = {}
    # a ring in the cell plus couplings along every periodic direction, so that nothing is decoupled
    for i in range(spec["n"] - 1):
        hops[((0, 0, 0), i, i + 1)] = 1
    for d in range(spec["dim"]):
        rn = [0, 0, 0]
        rn[d] = 1
        hops[(tuple(rn), int(g.integers(spec["n"])), int(g.integers(spec["n"])))] = 1
    for _ in range(spec["nhop"]):
        rn = [0, 0, 0]
        for d in range(spec["dim"]):
            rn[d] = int(g.integers(-1, 2))
        i, j = int(g.integers(spec["n"])), int(g.integers(spec["n"]))
        if rn == [0, 0, 0] and i == j:
            continue
        key = (tuple(rn), i, j)
        conj = (tuple(-x for x in rn), j, i)
        if key not in hops and conj not in hops:
            hops[key] = 1
    out = []
    for (rn, i, j) in hops:
        e = complex(round(float(g.uniform(-1, 1)), 3), 0.0 if spec["real"] else round(float(g.uniform(-1, 1)), 3))
        out.append((rn, i, j, e.real if spec["real"] else e))
    return lat, orbs, out


def build_pc(spec):
    import tbplas as tb
    if spec["kind"] == "graphene":
        return tb.make_graphene_diamond()
    lat, orbs, hops = pc_data(spec)
    c = tb.PrimitiveCell(lat_vec=lat, unit=tb.NM)
    for pos, eng in orbs:
        c.add_orbital(pos, energy=eng)
    for rn, i, j, e in hops:
        c.add_hopping(rn, i, j, e)
    return c


def build_overlap(spec, cell):
    """Small diagonally dominant overlap on the hoppings of the cell."""
    import tbplas as tb
    g = rnd(spec["seed"] + 77)
    o = tb.Overlap(cell)
    _, orbs, hops = pc_data(spec)
    for i in range(len(orbs)):
        o.set_onsite(i, 1.0 + round(float(g.uniform(0, 0.2)), 3))
    for rn, i, j, e in hops[:3]:
        o.add_offsite(rn, i, j, round(float(g.uniform(-0.02, 0.02)), 4))
    return o


# ------------------------------------------------------------------------- samples
def sample_spec(t, stream="model", max_dim=3, connected=True, planar=True):
    """Sample of one or two supercells with vacancies, extra hoppings and possibly an inter-hopping."""
    pc = pc_spec(t, stream, max_orb=3, dims=2 if planar else None)
    nsc = 1 + (1 if connected and t.chance(stream, 1, 3) else 0)
    scs = []
    for _ in range(nsc):
        dim = [t.between(stream, 3, max_dim + 1), t.between(stream, 3, max_dim + 1), 1]
        scs.append({"dim": dim, "pbc": [not t.chance(stream, 1, 4), not t.chance(stream, 1, 4), False],
                    "vac": t.draw(stream, 3), "seed": t.draw(stream, 1 << 30), "mod": t.chance(stream, 1, 5)})
    return {"kind": "sample", "pc": pc, "scs": scs, "field": t.chance(stream, 1, 5)}


def modifier(orb_pos):
    """Orbital position modifier: a smooth ripple."""
    x, y = orb_pos[:, 0].copy(), orb_pos[:, 1].copy()
    orb_pos[:, 2] += 0.01 * np.sin(3.0 * x) + 0.02 * np.cos(2.0 * y)


def sc_vacancies(s, n):
    g = rnd(s["seed"])
    vac = set()
    for _ in range(s["vac"]):
        vac.add((int(g.integers(s["dim"][0])), int(g.integers(s["dim"][1])), 0, int(g.integers(n))))
    return vac


def sc_orbitals(s, n):
    vac = sc_vacancies(s, n)
    return [(i, j, k, o) for i in range(s["dim"][0]) for j in range(s["dim"][1]) for k in range(s["dim"][2])
            for o in range(n) if (i, j, k, o) not in vac]


def build_sample(spec, rescale=True, cell=None):
    import tbplas as tb
    pc = cell if cell is not None else build_pc(spec["pc"])
    scs = []
    for s in spec["scs"]:
        n = spec["pc"]["n"]
        vac = sc_vacancies(s, n)
        sc = tb.SuperCell(pc, dim=tuple(s["dim"]), pbc=tuple(s["pbc"]), vacancies=sorted(vac) or None,
                          orb_pos_modifier=modifier if s["mod"] else None)
        scs.append(sc)
    args = list(scs)
    if len(scs) == 2:
        g = rnd(spec["scs"][0]["seed"] + 5)
        ih = tb.SCInterHopping(scs[0], scs[1])
        a, b = (sc_orbitals(s, spec["pc"]["n"]) for s in spec["scs"])
        seen = set()
        for _ in range(3):
            i, j = int(g.integers(len(a))), int(g.integers(len(b)))
            if (i, j) in seen:
                continue
            seen.add((i, j))
            ih.add_hopping((0, 0, 0), i, j,
                           complex(round(float(g.uniform(-.5, .5)), 3), round(float(g.uniform(-.5, .5)), 3)))
        args.append(ih)
    smp = tb.Sample(*args)
    if spec.get("field"):
        smp.set_magnetic_field(50.0)
    if rescale:
        smp.rescale_ham()
    return smp


def k_points(t, stream="k", max_n=9):
    n = t.between(stream, 1, max_n)
    g = rnd(t.draw(stream, 1 << 30))
    return np.round(g.uniform(-1, 1, (n, 3)), 4)
