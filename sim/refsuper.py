"""Reference models of supercells and samples: explicit expansion from plain data."""
import itertools

import numpy as np

from .refcell import RefCell


def pos_none(p):
    pass


def pos_ripple(p):
    p[:, 2] += 0.02 * np.sin(7 * p[:, 0]) + 0.01


def pos_stretch(p):
    p[:, 0] += 0.1 * p[:, 0] + 0.003 * p[:, 1]


def pos_shift(p):
    p[:, 1] -= 0.05


POSMODS = (None, pos_ripple, pos_stretch, pos_shift)


class RefSuper:
    def __init__(self, cell, dim, pbc):
        self.cell, self.dim, self.pbc = cell, tuple(dim), tuple(pbc)
        self.vac, self.mod, self.posmod = set(), {}, None

    # ------------------------------------------------------------------------------- definition
    def bad_vacancies(self):
        return [v for v in self.vac if v[3] >= self.cell.num_orb]

    def ids(self):
        """Orbitals as (ia, ib, ic, io) in the order of the supercell numbering."""
        return [v for v in itertools.product(range(self.dim[0]), range(self.dim[1]), range(self.dim[2]),
                                             range(self.cell.num_orb)) if v not in self.vac]

    @property
    def num_orb(self):
        return self.cell.num_orb * self.dim[0] * self.dim[1] * self.dim[2] - len(self.vac)

    @staticmethod
    def norm(rn, i, j, e):
        """One representative of a term and its conjugate."""
        a, b = (tuple(rn), i, j), (RefCell.neg(rn), j, i)
        return (a, complex(e)) if a >= b else (b, complex(e).conjugate())

    def pair_used(self, i, j):
        return any({i, j} == {a, b} for (_, a, b) in self.mod)

    def add_mod(self, rn, i, j, e):
        k, v = self.norm(rn, i, j, e)
        self.mod[k] = v

    def max_mod(self):
        return max([max(i, j) for (_, i, j) in self.mod], default=-1)

    # ---------------------------------------------------------------------------------- derived
    @property
    def lat(self):
        return self.cell.lat * np.array(self.dim, float)[:, None]

    def eng(self):
        e = self.cell.eng()
        return np.array([e[v[3]] for v in self.ids()], float)

    def pos(self):
        p = self.cell.pos()
        out = np.array([(np.array(v[:3], float) + p[v[3]]) @ self.cell.lat + self.cell.origin for v in self.ids()],
                       float).reshape(-1, 3)
        if self.posmod is not None:
            self.posmod(out)
        return out

    def terms(self):
        """One of each conjugate pair: list of [i, j, v, dr]."""
        ids = self.ids()
        num = {v: n for n, v in enumerate(ids)}
        pos, lat = self.pos(), self.lat
        out, at = [], {}
        for (rn, a, b), e in self.cell.half().items():
            for c in itertools.product(*[range(d) for d in self.dim]):
                i = num.get(c + (a,))
                if i is None:
                    continue
                w, shift, ok = [], [], True
                for d in range(3):
                    q, r = divmod(c[d] + rn[d], self.dim[d])
                    ok = ok and (q == 0 or self.pbc[d])
                    w.append(r)
                    shift.append(q)
                j = num.get(tuple(w) + (b,))
                if not ok or j is None:
                    continue
                at[frozenset((i, j))] = len(out)
                out.append([i, j, e, pos[j] + np.array(shift, float) @ lat - pos[i]])
        for (rn, i, j), e in self.mod.items():
            dr = pos[j] + np.array(rn, float) @ lat - pos[i]
            k = at.get(frozenset((i, j)))
            if k is not None and len({i, j}) == 2:
                out[k] = [i, j, e, dr]
            else:
                out.append([i, j, e, dr])
        return out

    def trim(self):
        ids = self.ids()
        cnt = [0] * len(ids)
        for i, j, _, _ in self.terms():
            cnt[i] += 1
            cnt[j] += 1
        gone = [i for i, c in enumerate(cnt) if c <= 1]
        self.vac |= {ids[i] for i in gone}
        new, k = {}, 0
        for i in range(len(ids)):
            if cnt[i] > 1:
                new[i] = k
                k += 1
        self.mod = {(rn, new[i], new[j]): e for (rn, i, j), e in self.mod.items() if i in new and j in new}
        return len(gone)


class RefSample:
    def __init__(self, supers, inters):
        """inters: list of [bra index, ket index, {(rn, i, j): e}]."""
        self.supers, self.inters = supers, inters
        self.mods = []            # modifications applied since the arrays were built

    @property
    def num_orb(self):
        return sum(s.num_orb for s in self.supers)

    def starts(self):
        out, n = [], 0
        for s in self.supers:
            out.append(n)
            n += s.num_orb
        return out

    def arrays(self):
        """(orb_eng, orb_pos, terms, rescale) with the modifications applied."""
        st = self.starts()
        eng = np.concatenate([s.eng() for s in self.supers])
        pos = np.concatenate([s.pos() for s in self.supers])
        terms = []
        for s, o in zip(self.supers, st):
            terms += [[i + o, j + o, v, dr] for i, j, v, dr in s.terms()]
        for b, k, tab in self.inters:
            pb, pk, lat = self.supers[b].pos(), self.supers[k].pos(), self.supers[k].lat
            for (rn, i, j), e in tab.items():
                terms.append([i + st[b], j + st[k], complex(e), pk[j] + np.array(rn, float) @ lat - pb[i]])
        scale = 1.0
        rec = 2 * np.pi * np.linalg.inv(self.supers[0].lat).T
        for m in self.mods:
            if m[0] == "rescale":
                f = scale / m[1]
                eng = eng * f
                for x in terms:
                    x[2] = x[2] * f
                scale = m[1]
            elif m[0] == "field":
                for x in terms:
                    r = pos[x[0]] + pos[x[1]]
                    a = {0: (r[1], 0.0), 1: (0.0, -r[0]), 2: (0.5 * r[1], -0.5 * r[0])}[m[2]]
                    x[2] = x[2] * np.exp(1j * np.pi / 4135.666734 * m[1] * (x[3][0] * a[0] + x[3][1] * a[1]))
            elif m[0] == "k":
                kc = np.array(m[1]) @ rec
                for x in terms:
                    x[2] = x[2] * np.exp(1j * np.dot(kc, x[3]))
        return eng, pos, terms, scale

    def ham(self, k=None):
        eng, pos, terms, scale = self.arrays()
        n = len(eng)
        h = np.diag(eng.astype(complex))
        dx, dy = np.zeros((n, n)), np.zeros((n, n))
        kc = None if k is None else np.array(k) @ (2 * np.pi * np.linalg.inv(self.supers[0].lat).T)
        for i, j, v, dr in terms:
            if kc is not None:
                v = v * np.exp(1j * np.dot(kc, dr))
            h[i, j] += v
            h[j, i] += np.conj(v)
            dx[i, j] += dr[0]
            dx[j, i] -= dr[0]
            dy[i, j] += dr[1]
            dy[j, i] -= dr[1]
        return h * (scale if k is not None else 1.0), dx, dy


def canon(terms):
    """Sorted, direction-normalised form of a list of [i, j, v, dr] as (indices, values, distances)."""
    rows = []
    for i, j, v, dr in terms:
        i, j, v, dr = int(i), int(j), complex(v), np.array(dr, float)
        key = tuple(np.round(dr, 6) + 0.0)
        if i > j or (i == j and key < tuple(-x + 0.0 for x in key)):
            i, j, v, dr = j, i, v.conjugate(), -dr
            key = tuple(np.round(dr, 6) + 0.0)
        rows.append(((i, j) + key + (round(v.real, 6) + 0.0, round(v.imag, 6) + 0.0), i, j, v, dr))
    rows.sort(key=lambda r: r[0])
    return (np.array([(r[1], r[2]) for r in rows]).reshape(-1, 2), np.array([r[3] for r in rows], complex),
            np.array([r[4] for r in rows], float).reshape(-1, 3))
