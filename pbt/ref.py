"""Plain reference implementations (numpy only) shared by the checks."""
import numpy as np

ANG = 0.1


def cplx(e):
    return complex(e[0], e[1]) if isinstance(e, (list, tuple)) else complex(e)


def build_cell(c, unit=ANG, real_ok=True):
    """Build a PrimitiveCell through the public API."""
    import tbplas as tb
    cell = tb.PrimitiveCell(np.array(c["lat"]), np.array(c["origin"]), unit=unit)
    for pos, eng, label in c["orbs"]:
        cell.add_orbital(tuple(pos), eng, label)
    for rn, i, j, e in c["hops"]:
        e = cplx(e)
        cell.add_hopping(tuple(rn), i, j, e.real if (e.imag == 0 and real_ok) else e)
    return cell


def phase(x):
    return np.exp(2j * np.pi * x)


def ham(orb_pos, orb_eng, terms, k, convention=1):
    """Bloch Hamiltonian from a term list [(rn, i, j, t)], each standing for itself and its conjugate."""
    orb_pos = np.asarray(orb_pos, dtype=float).reshape(-1, 3)
    n = len(orb_eng)
    k = np.asarray(k, dtype=float)
    h = np.zeros((n, n), dtype=complex)
    for i in range(n):
        h[i, i] += orb_eng[i]
    for rn, i, j, t in terms:
        dr = np.asarray(rn, dtype=float)
        if convention == 1:
            dr = dr + orb_pos[j] - orb_pos[i]
        v = cplx(t) * phase(float(k @ dr))
        h[i, j] += v
        h[j, i] += np.conj(v)
    return h


def ham_of(c, k, convention=1):
    return ham([o[0] for o in c["orbs"]], [o[1] for o in c["orbs"]], c["hops"], k, convention)


def recip(lat):
    return 2 * np.pi * np.linalg.inv(np.asarray(lat, dtype=float)).T


def cell_terms(cell):
    """Hopping terms a cell reports, canonical key -> energy (through the public arrays)."""
    from .gens import canon
    out = {}
    ind, eng = np.asarray(cell.hop_ind).reshape(-1, 5), np.asarray(cell.hop_eng)
    for row, e in zip(ind.tolist(), eng.tolist()):
        key, conj = canon(row[:3], row[3], row[4])
        assert key not in out, f"term {key} is stored twice"
        out[key] = complex(e).conjugate() if conj else complex(e)
    return out


def ham_cell(cell, k, convention=1):
    """Reference Hamiltonian from the arrays a cell reports."""
    terms = [(r[:3], r[3], r[4], e) for r, e in zip(np.asarray(cell.hop_ind).reshape(-1, 5).tolist(), cell.hop_eng.tolist())]
    return ham(cell.orb_pos, cell.orb_eng, terms, k, convention)


# ---------------------------------------------------------------- supercells
def dim_min(c):
    return [2 * max([abs(h[0][d]) for h in c["hops"]], default=0) + 1 for d in range(3)]


class Tiled:
    """Brute-force tiling of a cell: the reference for SuperCell."""
    def __init__(self, c, dim, pbc, vac=(), pos_mod=None, unit=ANG):
        self.c, self.dim, self.pbc = c, list(dim), list(pbc)
        self.lat = np.array(c["lat"]) * unit
        self.sc_lat = self.lat * np.array(dim)[:, None]
        vac = set(map(tuple, vac))
        self.ids = [(a, b, d, o) for a in range(dim[0]) for b in range(dim[1]) for d in range(dim[2])
                    for o in range(len(c["orbs"])) if (a, b, d, o) not in vac]
        self.index = {t: i for i, t in enumerate(self.ids)}
        self.eng = np.array([c["orbs"][t[3]][1] for t in self.ids])
        pos = np.array([np.array(c["orbs"][t[3]][0]) + t[:3] for t in self.ids]).reshape(-1, 3)
        self.pos = pos @ self.lat + np.array(c["origin"]) * unit
        if pos_mod is not None:
            pos_mod(self.pos)
        self.terms = {}          # (i, j) -> [energy, dr], each pair once
        for rn, i, j, t in c["hops"]:
            for cell in self.ids:
                if cell[3] != i:
                    continue
                tgt = [cell[d] + rn[d] for d in range(3)]
                wrap = [tgt[d] // dim[d] for d in range(3)]
                if any(w != 0 and not p for w, p in zip(wrap, pbc)):
                    continue
                key = (tgt[0] % dim[0], tgt[1] % dim[1], tgt[2] % dim[2], j)
                if key not in self.index:
                    continue
                a, b = self.index[cell], self.index[key]
                dr = self.pos[b] + np.array(wrap) @ self.sc_lat - self.pos[a]
                assert (a, b) not in self.terms and (b, a) not in self.terms and a != b
                self.terms[(a, b)] = [cplx(t), dr]

    def modify(self, rn, i, j, t):
        """A hopping modifier: replaces the term of the pair or adds one."""
        dr = self.pos[j] + np.array(rn) @ self.sc_lat - self.pos[i]
        if (i, j) in self.terms:
            self.terms[(i, j)] = [cplx(t), dr]
        elif (j, i) in self.terms:
            self.terms[(j, i)] = [cplx(t).conjugate(), -dr]
        else:
            self.terms[(i, j)] = [cplx(t), dr]

    def canonical(self):
        return canonical_terms([(i, j, e, d) for (i, j), (e, d) in self.terms.items()])


def canonical_terms(terms):
    """[(i, j, e, dr)] -> sorted list with i <= j."""
    out = []
    for i, j, e, d in terms:
        i, j, e, d = int(i), int(j), complex(e), np.asarray(d, dtype=float)
        if i > j or (i == j and next((x for x in d if abs(x) > 1e-6), 0.0) < 0):
            i, j, e, d = j, i, e.conjugate(), -d
        out.append((i, j, e, d))
    # the offset keeps plain decimal fractions away from the boundaries of rounding
    out.sort(key=lambda t: (t[0], t[1], tuple(np.round(t[3] + 2.3141592e-7, 6)), round(t[2].real, 9), round(t[2].imag, 9)))
    return out


def compare_terms(ctx, got, want, what, tol=1e-8):
    got, want = canonical_terms(got), canonical_terms(want)
    gi, wi = [t[:2] for t in got], [t[:2] for t in want]
    if gi != wi:
        from collections import Counter
        a, b = Counter(gi), Counter(wi)
        ctx.fail(f"{what}: pairs differ; missing {list((b - a).items())[:4]}, unexpected {list((a - b).items())[:4]}")
    if got:
        ctx.close(np.array([t[2] for t in got]), np.array([t[2] for t in want]), tol, f"{what}: energies")
        ctx.close(np.array([t[3] for t in got]), np.array([t[3] for t in want]), tol, f"{what}: bond vectors")
