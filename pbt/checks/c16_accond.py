"""C16: optical conductivity against the Kubo-Greenwood sum."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.checks.c15_lindhard import EPS0, enlarge_case, fermi, kmesh, omegas, setup, shifted, solver
from pbt.harness import sub

COMPS = [a + b for a in "xyz" for b in "xyz"]


def dham(c, k):
    """Derivative of the convention-1 Hamiltonian with respect to the Cartesian k (1/nm), 3 matrices."""
    lat = np.array(c["lat"]) * 0.1
    n = len(c["orbs"])
    pos = np.array([o[0] for o in c["orbs"]], dtype=float)
    out = np.zeros((3, n, n), dtype=complex)
    for rn, i, j, t in c["hops"]:
        d = np.array(rn) + pos[j] - pos[i]
        v = 1j * (d @ lat)[:, None, None] * ref.cplx(t) * ref.phase(float(np.array(k) @ d))
        out[:, i:i + 1, j:j + 1] += v
        out[:, j:j + 1, i:i + 1] += v.conj()
    return out


def reference(case, comp):
    """Returns sigma, magnitude scale and whether the set of pairs is unambiguous."""
    c, w = case["cell"], omegas(case)
    lat = np.array(c["lat"]) * 0.1
    area = np.linalg.norm(np.cross(lat[0], lat[1])) if case["dimension"] == 2 else abs(np.linalg.det(lat))
    ks = kmesh(case["mesh"])
    out, size, clear, total = np.zeros(len(w), dtype=complex), 0.0, True, 0.0
    a, b = "xyz".index(comp[0]), "xyz".index(comp[1])
    for k in ks:
        e, v = np.linalg.eigh(ref.ham_of(c, k, 1))
        d = dham(c, k)
        va, vb = v.conj().T @ d[a] @ v, v.conj().T @ d[b] @ v
        f = fermi(case, e)
        de = e[:, None] - e[None, :]                        # [m, n]
        gap = np.abs(de[~np.eye(len(e), dtype=bool)])
        clear &= not np.any((gap > 1e-11) & (gap < 1e-6))
        use = np.abs(de) > 1e-7
        df = np.where(use, (f[:, None] - f[None, :]) / np.where(use, de, 1.0), 0.0)
        num = va.T * vb * df                                # <n|va|m><m|vb|n>
        total += np.sum(np.abs(num))
        size += np.sum(np.abs(va)) * np.max(np.abs(vb))
        for i, x in enumerate(w):
            out[i] += np.sum(num / (de - x - 1j * case["delta"]))
    fac = case["g_s"] / (area * len(ks))
    # differences of occupations and energies lose digits at small gaps
    return 1j * fac * out, fac * (size + 1e3 * total) / case["delta"], clear


@st.composite
def ac_case(draw, large=False):
    s = draw(setup(max_orb=4, large=large))
    s["comp"] = draw(st.sampled_from(COMPS))
    s["comp2"] = draw(st.sampled_from(COMPS))
    if not large and draw(st.integers(0, 3)) == 0:
        # bands touching at the zone boundary, or kept apart there by a small mass
        d, t, e0 = draw(st.sampled_from([0.0, 2e-6, 2e-5, 2e-4, 5e-4, 3e-3])), list(draw(g.nonzero_complex())), draw(st.sampled_from([0.0, 0.0, 0.5]))
        rn = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [1, 1, 0]]))
        pos = [draw(st.integers(0, 7)) / 8, draw(st.integers(0, 7)) / 8, 0.0]
        s["cell"] = dict(s["cell"], orbs=[[[0.0, 0.0, 0.0], e0 + d / 2, "A"], [pos, e0 - d / 2, "B"]], hops=[[[0, 0, 0], 0, 1, t], [rn, 0, 1, t]])
        s["mesh"] = [2 * draw(st.integers(1, 2)), 2 * draw(st.integers(1, 2)), 1]
        s["split"] = d
    return s


def tol_of(r, size, case):
    return 1e-7 * np.max(np.abs(r)) + 1e-11 * size * max(1.0, 1 / (8.6e-5 * case["temp"]) / 100) + 1e-14


@sub("C16", ac_case, 800, shards=6, rule="more than one orbital and non-vanishing conductivity")
def kubo(case, ctx):
    cell = ref.build_cell(case["cell"])
    lh = solver(case, cell)
    for comp, back in ((case["comp"], case["fortran"]), (case["comp"], not case["fortran"]), (case["comp2"], case["fortran"])):
        r, size, clear = reference(case, comp)
        if not clear:
            ctx.label("nearly degenerate")
            return
        w, ac = lh.calc_ac_cond(comp, use_fortran=back)
        ctx.close(w, omegas(case), 1e-10, "energy grid")
        tol = tol_of(r, size, case)
        ctx.close(ac, r, tol, f"conductivity {comp}, fortran={back}")
        ctx.nontrivial(np.max(np.abs(r)) > 100 * tol)
        if case["dimension"] == 3:
            keep = np.abs(w) > 1e-6
            eps = lh.calc_epsilon_q0(w[keep], ac[keep])
            want = 1 + 4j * np.pi / (EPS0 * case["eps"]) * ac[keep] / w[keep]
            ctx.close(eps, want, 1e-8 * (1 + np.max(np.abs(want), initial=0.0)), "dielectric function at q=0")
        else:
            ctx.raises(ValueError, lambda: lh.calc_epsilon_q0(w, ac), "calc_epsilon_q0 in two dimensions")
    ctx.label(case["comp"], f"dim{case['dimension']}", f"split {case.get('split')}")
    if case["shift"]:
        c2, _ = shifted(case, cell)
        r, size, clear = reference(c2, case["comp"])
        if clear:
            _, ac = lh.calc_ac_cond(case["comp"], use_fortran=case["fortran"])
            ctx.close(ac, r, tol_of(r, size, case), f"conductivity {case['comp']} after the on-site energies are changed")
    for bad in ("xw", "x", "xyz", ""):
        ctx.raises(ValueError, lambda: lh.calc_ac_cond(bad), f"component {bad!r}")


sub("C16", ac_case(large=True), 16, shards=1, omp=4, rule="as for kubo, several hundred transitions and 4 threads", name="threads")(kubo)


@sub("C16", enlarge_case, 80, shards=2, rule="enlarged cell, non-vanishing conductivity")
def enlarge(case, ctx):
    import tbplas as tb
    cell = ref.build_cell(case["cell"])
    big = tb.extend_prim_cell(cell, tuple(case["dims"]))
    r, size, clear = reference(case, "xx")
    if not clear:
        return
    # pairs of folded states of different unfolded k have no matrix element
    _, ac = solver(case, cell).calc_ac_cond("xx", use_fortran=case["fortran"])
    _, ac_big = solver(case, big, kmesh_size=tuple(case["sub_mesh"])).calc_ac_cond("xx", use_fortran=case["fortran"])
    tol = 1e-6 * np.max(np.abs(r)) + 1e-9 * size + 1e-14
    ctx.close(ac, r, tol, "conductivity")
    ctx.nontrivial(np.max(np.abs(r)) > 100 * tol)
    ext = int(np.prod(case["dims"]))
    if np.max(np.abs(ac_big - r)) > tol:
        key = "ac_cond-extended" if np.max(np.abs(ac_big * ext - r)) <= tol else None
        ctx.fail(f"conductivity of the {case['dims']} times extended cell is {ac_big}, of the cell itself {ac}", key=key)
