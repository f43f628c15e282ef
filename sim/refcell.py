"""Executable reference models: a primitive cell as plain data, and its Hamiltonian from first principles."""
import numpy as np


class RefCell:
    """Orbitals as [pos, eng, label]; hops as a full table (both directions) {(rn, i, j): energy}."""
    def __init__(self, lat, origin):
        self.lat, self.origin = np.array(lat, float), np.array(origin, float)
        self.orbs, self.hops = [], {}

    def copy(self):
        r = RefCell(self.lat, self.origin)
        r.orbs = [list(o) for o in self.orbs]
        r.hops = dict(self.hops)
        return r

    # ------------------------------------------------------------ edits
    @staticmethod
    def neg(rn):
        return (-rn[0], -rn[1], -rn[2])

    def set_hop(self, rn, i, j, e):
        e = complex(e)
        self.hops[(rn, i, j)] = e
        self.hops[(self.neg(rn), j, i)] = e.conjugate()

    def del_hop(self, rn, i, j):
        del self.hops[(rn, i, j)]
        self.hops.pop((self.neg(rn), j, i), None)

    def remove(self, idx):
        idx = set(idx)
        new = {}
        k = 0
        for i in range(len(self.orbs)):
            if i not in idx:
                new[i] = k
                k += 1
        self.orbs = [o for i, o in enumerate(self.orbs) if i not in idx]
        self.hops = {(rn, new[i], new[j]): e for (rn, i, j), e in self.hops.items() if i in new and j in new}

    def trim(self):
        cnt = [0] * len(self.orbs)
        for (rn, i, j) in self.half():
            cnt[i] += 1
            cnt[j] += 1
        self.remove([i for i, c in enumerate(cnt) if c <= 1])

    def apply_pbc(self, pbc):
        self.hops = {k: e for k, e in self.hops.items() if all(pbc[d] or k[0][d] == 0 for d in range(3))}

    def reset_lattice(self, lat, origin, fix):
        lat = self.lat if lat is None else np.array(lat, float)
        origin = self.origin if origin is None else np.array(origin, float)
        if fix:
            for o in self.orbs:
                cart = np.array(o[0]) @ self.lat + self.origin
                o[0] = tuple(np.linalg.solve(lat.T, cart - origin))
        self.lat, self.origin = lat, origin

    # ---------------------------------------------------------- derived
    def half(self):
        """One of each conjugate pair."""
        seen, out = set(), {}
        for k, e in self.hops.items():
            if k in seen:
                continue
            seen.add(k)
            seen.add((self.neg(k[0]), k[2], k[1]))
            out[k] = e
        return out

    @property
    def num_orb(self):
        return len(self.orbs)

    @property
    def num_hop(self):
        return len(self.half())

    def pos(self):
        return np.array([o[0] for o in self.orbs], float).reshape(-1, 3)

    def eng(self):
        return np.array([o[1] for o in self.orbs], float)

    def ham(self, k, convention):
        n = len(self.orbs)
        p = self.pos()
        h = np.zeros((n, n), complex)
        for i in range(n):
            h[i, i] += self.orbs[i][1]
        for (rn, i, j), e in self.hops.items():
            d = np.array(rn, float)
            if convention == 1:
                d = d + p[j] - p[i]
            h[i, j] += e * np.exp(2j * np.pi * np.dot(k, d))
        return h


def expand(rows):
    """rows: iterable of (rn, i, j, e) as reported by the code -> (full table, number of rows, duplicate keys)."""
    full, dup, n = {}, [], 0
    for rn, i, j, e in rows:
        n += 1
        rn = tuple(int(x) for x in rn)
        i, j = int(i), int(j)
        k, c = (rn, i, j), (RefCell.neg(rn), j, i)
        if k in full or c in full:
            dup.append(k)
        full[k] = complex(e)
        full[c] = complex(e).conjugate()
    return full, n, dup


def table_diff(a, b):
    """First difference of two tables or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return "term %s is missing" % (k,)
        if k not in b:
            return "term %s does not exist" % (k,)
        if a[k] != b[k]:
            return "term %s is %s instead of %s" % (k, a[k], b[k])
    return None
