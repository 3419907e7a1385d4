"""Small samples, dense operators and random-state tomography for the TBPM checks."""
import contextlib
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref


@st.composite
def small_sample(draw, max_n=12):
    """A sample of at most max_n orbitals: {"cell", "dim", "pbc", "resc"}."""
    kind = draw(st.integers(0, 2))
    if kind == 0:        # chain along a or b
        axis = draw(st.integers(0, 1))
        norb = draw(st.integers(1, 3))
        dim = [1, 1, 1]
        dim[axis] = draw(st.integers(3, max(3, max_n // norb)))
    elif kind == 1:      # plane
        norb, dim, axis = 1, [3, 3, 1], None
    else:                # cluster
        norb, dim, axis = draw(st.integers(2, 6)), [1, 1, 1], -1
    c = draw(g.cell(min_orb=norb, max_orb=norb, min_hop=1, max_hop=7, max_r=1, planar=True))
    seen, hops = set(), []
    for rn, i, j, e in c["hops"]:
        rn = [rn[d] if (axis is None and d < 2) or d == axis else 0 for d in range(3)]
        if rn == [0, 0, 0] and i == j:
            if axis == -1:
                j = (i + 1) % norb
            else:
                rn[axis or 0] = 1
        key, _ = g.canon(rn, i, j)
        if key not in seen:
            seen.add(key)
            hops.append([rn, i, j, e])
    c["hops"] = hops
    for o in c["orbs"]:
        if abs(o[1]) < 0.01:
            o[1] = 0.0
    pbc = [draw(st.booleans()), draw(st.booleans()), False]
    return {"cell": c, "dim": dim, "pbc": pbc, "resc": draw(st.sampled_from([None, None, 1.05, 1.5, 4.0]))}


class System:
    """The sample and its dense reference operators (energies in eV, lengths in nm)."""
    def __init__(self, case):
        import tbplas as tb
        self.cell = ref.build_cell(case["cell"])
        sc = tb.SuperCell(self.cell, dim=tuple(case["dim"]), pbc=tuple(case["pbc"]))
        self.sample = tb.Sample(sc)
        t = ref.Tiled(case["cell"], case["dim"], case["pbc"])
        self.tiled = t
        self.n = len(t.ids)
        self.h = np.diag(t.eng.astype(complex))
        self.jx, self.jy = np.zeros((2, self.n, self.n), dtype=complex)
        for (i, j), (e, d) in t.terms.items():
            self.h[i, j] += e
            self.h[j, i] += np.conj(e)
            for mat, x in ((self.jx, d[0]), (self.jy, d[1])):
                mat[i, j] += 1j * e * x
                mat[j, i] -= 1j * np.conj(e) * x
        self.pos = t.pos
        self.eig, self.vec = np.linalg.eigh(self.h)
        radius = float(np.max(np.abs(self.eig)))
        if case["resc"] is None:
            self.sample.rescale_ham()
        else:
            self.sample.rescale_ham(max(radius, 0.05) * case["resc"])
        self.resc = float(self.sample.rescale)
        self.radius = radius

    def fun(self, f):
        """f(H) as a matrix."""
        return (self.vec * f(self.eig)) @ self.vec.conj().T

    def evolve(self, t):
        return self.fun(lambda e: np.exp(-1j * e * t))


def config(generic=None, **sections):
    import tbplas as tb
    cfg = tb.Config()
    cfg.generic.update(generic or {})
    for k, v in sections.items():
        getattr(cfg, k).update(v)
    return cfg


@contextlib.contextmanager
def workdir():
    """Fresh output directory for a solver, removed afterwards."""
    path = os.path.join(os.getcwd(), "simdir")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def solver(sample, cfg, path, prefix="x"):
    import tbplas as tb
    return tb.Solver(sample, cfg, echo_details=False, directory=path, prefix=prefix)


def _probe(n, pairs):
    """Sample of n orbitals with the given hoppings, rescale 2."""
    import tbplas as tb
    cell = tb.PrimitiveCell(np.eye(3) * 5.0, unit=0.1)
    for i in range(n):
        cell.add_orbital((i / (2.0 * n), 0.0, 0.0), 0.0)
    for i, j, t in pairs:
        cell.add_hopping((0, 0, 0), i, j, t)
    s = tb.Sample(tb.SuperCell(cell, dim=(1, 1, 1), pbc=(False, False, False)))
    s.rescale_ham(2.0)
    return s


def random_states(n, seed, num, path):
    """
    The random states a run with this seed uses, recovered from calculations with probe Hamiltonians (tomography), each
    up to a phase.  Returns None if more than one state cannot be told apart.
    """
    if n == 1:
        return [np.ones(1, dtype=complex)] * num

    def weights(k):
        # one time step: the window vanishes and the quasi-eigenstate is the initial state itself
        cfg = config({"nr_time_steps": 1, "seed": seed, "nr_random_samples": k}, quasi_eigenstates={"energies": [0.0]})
        return solver(_probe(n, [(0, 1, 1.0)]), cfg, path).calc_quasi_eigenstates()[0] * k

    def row(k, p):
        """sum_k conj(phi_p) phi_j for all j, from <phi|exp(-iHt)|phi> with one bond p-j, t = pi/2."""
        out = np.zeros(n, dtype=complex)
        for j in range(n):
            if j == p:
                continue
            parts = []
            for t in (1.0, 1j):
                cfg = config({"nr_time_steps": 2, "seed": seed, "nr_random_samples": k})
                corr = solver(_probe(n, [(p, j, t)]), cfg, path).calc_corr_dos()[1]
                parts.append(-np.imag(corr) * k / 2)     # sum_k Re(t conj(phi_p) phi_j)
            out[j] = parts[0] - 1j * parts[1]
        return out

    def state(w, r, p):
        phi = r / np.sqrt(w[p])
        phi[p] = np.sqrt(w[p])
        return phi

    phis = []
    for k in range(1, num + 1):
        w = weights(k) - sum(np.abs(p) ** 2 for p in phis)
        if np.min(w) < -1e-9:
            return None
        p = int(np.argmax(w))
        phi = state(w, row(k, p) - sum(np.conj(q[p]) * q for q in phis), p)
        if k > 1 and np.max(np.abs(np.abs(phi) ** 2 - w)) > 1e-8:
            return None
        phis.append(phi)
    return phis
