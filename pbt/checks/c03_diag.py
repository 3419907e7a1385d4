"""C03: exact diagonalisation, states and DOS."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub


def klen(lat_nm, ks):
    cart = np.array(ks) @ ref.recip(lat_nm)
    out = [0.0]
    for a, b in zip(cart[:-1], cart[1:]):
        out.append(out[-1] + float(np.linalg.norm(b - a)))
    return np.array(out)


def gapped(e, gap=1e-4):
    return len(e) < 2 or np.min(np.diff(np.sort(e))) > gap


edit = st.one_of(st.tuples(st.just("eng"), st.integers(0, 9), g.real_val),
                 st.tuples(st.just("hop"), st.integers(0, 9), g.nonzero_complex()),
                 st.tuples(st.just("orb"), st.lists(g.pos_comp, min_size=3, max_size=3), g.real_val),
                 st.tuples(st.just("rm"), st.integers(0, 9)),
                 st.tuples(st.just("lat"), g.lattice())).map(list)


@st.composite
def band_case(draw, cells=g.cell(max_orb=5, max_hop=10), max_k=5):
    c = draw(cells)
    n = len(c["orbs"])
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=5) if max_k == 5 else g.sized(g.kpoint(-1, 1), 6, max_k)), "conv": draw(st.integers(1, 2)),
            "orbs": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)), "edit": draw(st.one_of(st.none(), edit))}


def apply_edit(cell, c, e):
    if e[0] == "eng":
        i = e[1] % len(c["orbs"])
        cell.set_orbital(i, energy=e[2])
        c["orbs"][i][1] = e[2]
    elif e[0] == "hop":
        h = c["hops"][e[1] % len(c["hops"])]
        cell.add_hopping(tuple(h[0]), h[1], h[2], ref.cplx(e[2]))
        h[3] = e[2]
    elif e[0] == "orb":
        cell.add_orbital(tuple(e[1]), e[2], "N")
        c["orbs"].append([e[1], e[2], "N"])
    elif e[0] == "rm":
        n = len(c["orbs"])
        if n < 2:
            return
        i = e[1] % n
        keep = [h for h in c["hops"] if i not in (h[1], h[2])]
        if not keep:
            return
        cell.remove_orbital(i)
        c["orbs"].pop(i)
        c["hops"] = [[h[0], h[1] - (h[1] > i), h[2] - (h[2] > i), h[3]] for h in keep]
    elif e[0] == "lat":
        cell.reset_lattice(np.array(e[1]), fix_orb=False)
        c["lat"] = e[1]


def check_bands(ctx, solver, cell, c, case, s=None):
    ks, conv = np.array(case["ks"], dtype=float), case["conv"]
    lat_nm = np.array(c["lat"]) * 0.1
    n = len(c["orbs"])
    hs = [ref.ham_of(c, k, conv) for k in ks]
    ss = [ref.ham_of(s, k, conv) for k in ks] if s else None
    if s:
        ref_b = np.array([sl.eigh(h, o, eigvals_only=True) for h, o in zip(hs, ss)])
    else:
        ref_b = np.array([np.linalg.eigvalsh(h) for h in hs])
    tol = 1e-8 * (1 + np.max(np.abs(ref_b)))
    res = solver.calc_bands(ks, convention=conv)
    k_len, bands = res.k_len, res.bands
    ctx.equal(bands.shape, (len(ks), n), "shape of the bands")
    ctx.check(np.all(np.diff(bands, axis=1) <= tol) or np.all(np.diff(bands, axis=1) >= -tol), "bands are not sorted")
    ctx.close(np.sort(bands, axis=1), ref_b, tol, "band energies")
    ctx.close(k_len, klen(lat_nm, ks), 1e-8 * (1 + k_len[-1]), "length of the k-path")
    if s is None:
        k2, b2 = cell.calc_bands(ks, convention=conv, echo_details=False)
        ctx.close(b2, bands, tol, "calc_bands of the model and of the solver")
        ctx.close(k2, k_len, 1e-9 * (1 + k_len[-1]), "k_len of the model and of the solver")
        # projections
        rest = [i for i in range(n) if i not in case["orbs"]]
        orbs = [i for i in case["orbs"] if i < n]
        form = (list, tuple, np.array, set, iter)[(len(orbs) + 2 * len(ks) + n) % 5] if orbs else list
        p1 = solver.calc_bands(ks, convention=conv, orbital_indices=form(orbs))
        p2 = solver.calc_bands(ks, convention=conv, orbital_indices=rest)
        ctx.close(p1.bands, bands, tol, "energies next to projections")
        ctx.close(p1.proj + p2.proj, np.ones_like(bands), 1e-8, "projections of complementary orbital sets")
        for ik, h in enumerate(hs):
            e, v = np.linalg.eigh(h)
            if gapped(e):
                w = np.sum(np.abs(v[orbs, :])**2, axis=0)
                order = np.argsort(bands[ik])
                ctx.close(p1.proj[ik][order], w, 1e-6, "projection onto orbitals")
                ctx.label("proj")
    e, v = solver.calc_states(ks, convention=conv)
    ctx.equal(v.shape, (len(ks), n, n), "shape of the states")
    for ik, h in enumerate(hs):
        o = ss[ik] if s else np.eye(n)
        ctx.check(np.all(np.diff(e[ik]) >= -tol), "energies of the states are not in band order")
        ctx.close(np.sort(e[ik]), ref_b[ik], tol, "energies of the states")
        ctx.close(v[ik].conj() @ o @ v[ik].T, np.eye(n), 1e-7, "states are not orthonormal")
        ctx.close(h @ v[ik].T, (o @ v[ik].T) * e[ik][None, :], 10 * tol, "states are not eigenvectors")


@sub("C03", band_case, quick=700, shards=4, rule="at least 2 orbitals and 2 k-points, model edited between two uses of the solver")
def bands(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    solver = tb.DiagSolver(cell, echo_details=False)
    check_bands(ctx, solver, cell, c, case)
    if case["edit"]:
        apply_edit(cell, c, case["edit"])
        ctx.label("edit:" + case["edit"][0])
        check_bands(ctx, solver, cell, c, case)
    ctx.raises(ValueError, lambda: solver.calc_bands(np.zeros((1, 3)), solver="foo"), "illegal solver")
    ctx.nontrivial(len(c["orbs"]) > 1 and len(case["ks"]) > 1 and case["edit"] is not None)


sub("C03", band_case(g.bulk(orbs=(20, 50), hops=(40, 160), max_r=2)), quick=12, shards=2, rule="as for bands, with at least 20 orbitals", name="large")(bands)
sub("C03", band_case(max_k=60), quick=40, shards=2, rule="as for bands, with at least 6 k-points", name="paths")(bands)


@st.composite
def ovl_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=8))
    n = len(c["orbs"])
    small = st.integers(-8, 8).map(lambda x: x / 100)
    off = draw(st.lists(st.tuples(g.rn_strategy(1), st.integers(0, n - 1), st.integers(0, n - 1), st.tuples(small, small).map(list)).map(list),
                        min_size=1, max_size=4))
    terms, seen = [], set()
    for rn, i, j, t in off:
        if i == j and not any(rn):
            rn = [0, 1, 0]
        key = g.canon(rn, i, j)[0]
        if key not in seen:
            seen.add(key)
            terms.append([rn, i, j, t])
    return {"cell": c, "off": terms, "on": draw(st.lists(st.integers(9, 14).map(lambda x: x / 8), min_size=n, max_size=n)),
            "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=3)), "conv": draw(st.integers(1, 2)), "orbs": [],
            "sel": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)), "k": draw(st.integers(1, 4))}


@sub("C03", ovl_case, quick=300, shards=2, rule="at least 2 orbitals and a non-zero off-site overlap")
def overlap(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    ov = tb.Overlap(cell)
    for i, v in enumerate(case["on"]):
        ov.set_onsite(i, v)
    for rn, i, j, t in case["off"]:
        ov.add_offsite(tuple(rn), i, j, ref.cplx(t))
    s = {"orbs": [[o[0], v, o[2]] for o, v in zip(c["orbs"], case["on"])], "hops": case["off"]}
    solver = tb.DiagSolver(cell, overlap=ov, echo_details=False)
    check_bands(ctx, solver, cell, c, case, s)
    check_bands(ctx, solver, cell, c, case, s)
    # projections, DOS and the sparse solver in the non-orthogonal basis
    ks, conv, n = np.array(case["ks"], dtype=float), case["conv"], len(c["orbs"])
    eig = [sl.eigh(ref.ham_of(c, k, conv), ref.ham_of(s, k, conv)) for k in ks]
    proj = solver.calc_bands(ks, convention=conv, orbital_indices=case["sel"])
    grid = {"e_min": -6.0, "e_max": 8.03, "e_step": 0.1, "sigma": 0.3}
    en, dos = solver.calc_dos(ks, convention=conv, **grid)
    gauss = lambda x: np.exp(-x ** 2 / (2 * 0.3 ** 2)) / (0.3 * np.sqrt(2 * np.pi))
    ctx.close(dos, np.mean([np.mean(gauss(en[:, None] - e[None, :]), axis=1) for e, _ in eig], axis=0), 1e-6, "DOS with overlap")
    num = min(case["k"], n)
    few = solver.calc_bands(ks, convention=conv, solver="arpack", k=num)
    for ik, (e, v) in enumerate(eig):
        order = np.argsort(proj.bands[ik])
        if gapped(e):
            ctx.close(proj.proj[ik][order], np.sum(np.abs(v[case["sel"]]) ** 2, axis=0), 1e-6, "projection with overlap")
        # for this few orbitals the sparse solver is a dense one that looks for the largest energies
        ctx.close(np.sort(few.bands[ik]), np.sort(e)[n - num:], 1e-6 * (1 + np.abs(e).max()), "sparse solver with overlap")
    ctx.nontrivial(len(c["orbs"]) > 1 and any(ref.cplx(t[3]) != 0 for t in case["off"]))


@st.composite
def dos_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=6))
    n = len(c["orbs"])
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=4)),
            "lo": draw(st.one_of(st.none(), st.integers(-60, -4).map(lambda x: x / 8))),
            "hi": draw(st.one_of(st.none(), st.integers(4, 60).map(lambda x: x / 8))),
            "step": draw(st.sampled_from([0.05, 0.1, 0.03, 0.125])), "sigma": draw(st.sampled_from([0.05, 0.1, 0.2, 0.5])),
            "basis": draw(st.sampled_from(["Gaussian", "Lorentzian"])), "gs": draw(st.integers(1, 2)),
            "orbs": draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), max_size=n, unique=True)))}


@sub("C03", dos_case, quick=500, shards=2, rule="energy range given or orbital subset selected, more than one band")
def dos(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    ks = np.array(case["ks"], dtype=float)
    kw = {"e_step": case["step"], "sigma": case["sigma"], "basis": case["basis"], "g_s": case["gs"]}
    if case["lo"] is not None:
        kw["e_min"] = case["lo"]
    if case["hi"] is not None:
        kw["e_max"] = case["hi"]
    eig = [np.linalg.eigh(ref.ham_of(c, k)) for k in ks]
    lo = case["lo"] if case["lo"] is not None else min(e[0].min() for e in eig)
    hi = case["hi"] if case["hi"] is not None else max(e[0].max() for e in eig)
    if hi - lo < case["step"] or abs((hi - lo) / case["step"] - round((hi - lo) / case["step"])) < 1e-6:
        kw["e_max"] = hi = max(hi, lo) + 5.3 * case["step"]
    orbs = case["orbs"]
    if orbs is not None:
        kw["orbital_indices"] = orbs
    energies, d = tb.DiagSolver(cell, echo_details=False).calc_dos(ks, **kw)
    energies2, d2 = cell.calc_dos(ks, echo_details=False, **kw)
    ctx.close(energies2, energies, 1e-9, "energy grid of model and solver")
    ctx.close(d2, d, 1e-7, "DOS of model and solver")
    ctx.equal(len(energies), int((hi - lo) / case["step"]) + 1, "number of energies")
    ctx.close(energies, np.linspace(lo, hi, len(energies)), 1e-7, "energy grid")
    s = case["sigma"]
    x = np.asarray(energies)[:, None]

    def broad(mu):
        if case["basis"] == "Gaussian":
            return np.exp(-(x - mu[None, :])**2 / (2 * s * s)) / (s * np.sqrt(2 * np.pi))
        return s / ((x - mu[None, :])**2 + s * s) / np.pi
    expect = np.zeros(len(energies))
    use = orbs if orbs is not None else range(len(c["orbs"]))
    exact = True
    for e, v in eig:
        if orbs is not None and not gapped(e):
            exact = False
        w = np.sum(np.abs(v[list(use), :])**2, axis=0) if len(list(use)) else np.zeros(len(e))
        expect += broad(e) @ w
    expect *= case["gs"] / (len(ks) * len(c["orbs"]))
    ctx.check(np.all(d >= -1e-12), "negative density of states")
    if exact:
        ctx.close(d, expect, 1e-6, "density of states")
    if orbs is not None:
        rest = [i for i in range(len(c["orbs"])) if i not in orbs]
        _, d3 = cell.calc_dos(ks, echo_details=False, **dict(kw, orbital_indices=rest))
        kw.pop("orbital_indices")
        _, d4 = cell.calc_dos(ks, echo_details=False, **kw)
        ctx.close(d + d3, d4, 1e-7, "projected DOS do not add up to the total")
    else:
        sample = tb.Sample(tb.SuperCell(cell, dim=tuple(ref.dim_min(c)), pbc=(True,) * 3))
        if sample.sc0.num_orb_sc <= 60:
            kw.setdefault("e_min", lo), kw.setdefault("e_max", hi)
            big = np.array(ref.dim_min(c))
            # points of the small zone onto which a mesh of the large one folds
            fold = np.array([[(k[i] + n[i]) / big[i] for i in range(3)] for k in ks for n in np.ndindex(*big)])
            e5, d5 = sample.calc_dos(ks, echo_details=False, **kw)
            e6, d6 = cell.calc_dos(fold, echo_details=False, **kw)
            ctx.close(e5, e6, 1e-9, "energy grid of a sample")
            ctx.close(d5, d6, 1e-7, "DOS of a sample")
            ctx.label("sample")
    ctx.raises(ValueError, lambda: cell.calc_dos(ks, basis="foo"), "illegal basis")
    ctx.nontrivial((case["lo"] is not None or orbs is not None) and len(c["orbs"]) > 1)


@st.composite
def sparse_case(draw):
    c = draw(g.cell(min_orb=6, max_orb=9, min_hop=8, max_hop=16))
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=2)), "k": draw(st.integers(1, 4)), "orbs": draw(st.lists(st.integers(0, 8), min_size=1, max_size=4)),
            "conv": draw(st.integers(1, 2)), "default": draw(st.booleans()), "sa": draw(st.booleans())}


@sub("C03", sparse_case, quick=250, shards=2, rule="spectrum without near-degeneracies")
def sparse(case, ctx):
    import tbplas as tb
    c = case["cell"]
    # spread the on-site energies so that degeneracies are rare
    for i, o in enumerate(c["orbs"]):
        o[1] += 0.7 * i
    cell = ref.build_cell(c)
    ks = np.array(case["ks"], dtype=float)
    n = len(c["orbs"])
    spec = [np.linalg.eigvalsh(ref.ham_of(c, k, case["conv"])) for k in ks]
    if not all(gapped(e, 1e-2) and gapped(np.abs(e), 1e-2) for e in spec):
        return
    kw = {}
    nb = int(n * 0.6) if case["default"] else case["k"]
    if not case["default"]:
        kw["k"] = case["k"]
    if case["sa"]:
        kw["which"] = "SA"
    solver = tb.DiagSolver(cell, echo_details=False)
    res = solver.calc_bands(ks, convention=case["conv"], solver="arpack", **kw)
    bands = res[1]
    dense = solver.calc_bands(ks, convention=case["conv"]).bands
    orbs = sorted({i % n for i in case["orbs"]})
    proj = solver.calc_bands(ks, convention=case["conv"], solver="arpack", orbital_indices=orbs, **kw)
    ctx.close(proj.bands, bands, 1e-6, "arpack bands next to projections")
    for ik, k in enumerate(ks):
        ev, vec = np.linalg.eigh(ref.ham_of(c, k, case["conv"]))
        near = [int(np.argmin(np.abs(ev - b))) for b in bands[ik]]
        ctx.close(proj.proj[ik], np.sum(np.abs(vec[orbs][:, near]) ** 2, axis=0), 1e-5, f"projection of arpack bands on {orbs}")
    grid = {"e_min": -6.0, "e_max": 8.03, "e_step": 0.1, "sigma": 0.3}
    en, dos = solver.calc_dos(ks, convention=case["conv"], solver="arpack", **grid, **kw)
    dense_e, dense_d = solver.calc_dos(ks, convention=case["conv"], **grid)
    gauss = lambda x: np.exp(-x ** 2 / (2 * 0.3 ** 2)) / (0.3 * np.sqrt(2 * np.pi))
    ctx.close(en, dense_e, 1e-9, "energies of the DOS from arpack bands")
    ctx.close(dos, np.mean([np.mean(gauss(en[:, None] - b[None, :]), axis=1) for b in bands], axis=0), 1e-5, "DOS from arpack bands")
    e, v = solver.calc_states(ks, convention=case["conv"], solver="arpack", **kw)
    for ik, k in enumerate(ks):
        pick = np.argsort(spec[ik])[:nb] if case["sa"] else np.argsort(-np.abs(spec[ik]))[:nb]
        want = np.sort(spec[ik][pick])
        down = dense[ik][0] >= dense[ik][-1]
        ctx.close(bands[ik], want[::-1] if down else want, 1e-6, "arpack bands, in the order of the dense solver")
        ctx.close(np.sort(e[ik]), want, 1e-6, "arpack energies of states")
        h = ref.ham_of(c, k, case["conv"])
        ctx.equal(v[ik].shape, (nb, n), "shape of arpack states")
        ctx.close(h @ v[ik].T, v[ik].T * e[ik][None, :], 1e-5, "arpack states are not eigenvectors")
        ctx.close(np.sum(np.abs(v[ik])**2, axis=1), np.ones(nb), 1e-7, "arpack states are not normalised")
    ctx.nontrivial()


@st.composite
def fake_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=6))
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=4)), "ovl": draw(st.booleans()),
            "conv": draw(st.integers(1, 2)), "orbs": []}


@sub("C03", fake_case, quick=200, shards=1, rule="at least 2 orbitals and 2 k-points")
def analytic(case, ctx):
    """A Hamiltonian given as a function has the same bands, states and DOS as the cell."""
    import tbplas as tb
    from tbplas.diagonal.base import FakeOverlap, FakePC
    c = case["cell"]
    n = len(c["orbs"])

    class PC(FakePC):
        def set_ham_dense(self, k_point, ham_dense, convention=1):
            ham_dense += ref.ham_of(c, k_point, convention)

    class OV(FakeOverlap):
        def set_overlap_dense(self, k_point, overlap_dense, convention=1):
            overlap_dense += np.eye(n) * 2.0
    pc = PC(n, lat_vec=np.array(c["lat"]), unit=0.1)
    cell = ref.build_cell(c)
    solver = tb.DiagSolver(pc, overlap=OV(n) if case["ovl"] else None, echo_details=False)
    ks = np.array(case["ks"], dtype=float)
    f = 2.0 if case["ovl"] else 1.0
    res = solver.calc_bands(ks, convention=case["conv"])
    k_len, b = cell.calc_bands(ks, convention=case["conv"], echo_details=False)
    ctx.close(res[0], k_len, 1e-8 * (1 + k_len[-1]), "k_len of a Hamiltonian function")
    ctx.close(res[1] * f, b, 1e-7, "bands of a Hamiltonian function")
    e, v = solver.calc_states(ks, convention=case["conv"])
    for ik, k in enumerate(ks):
        ctx.close(ref.ham_of(c, k, case["conv"]) @ v[ik].T, f * v[ik].T * e[ik][None, :], 1e-6, "states of a Hamiltonian function")
    if not case["ovl"]:
        kw = {"e_min": -8.0, "e_max": 8.03, "e_step": 0.1, "sigma": 0.2}
        ctx.close(solver.calc_dos(ks, **kw)[1], cell.calc_dos(ks, echo_details=False, **kw)[1], 1e-8, "DOS of a Hamiltonian function")
    ctx.nontrivial(n > 1 and len(case["ks"]) > 1)
