"""C15: dynamic polarisation and dielectric function against the Lindhard sum."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import expit

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

KB = 8.617333262e-5
EPS0 = 0.6944615417149689


@st.composite
def setup(draw, max_orb=3, large=False):
    dimension = draw(st.sampled_from([2, 3]))
    shape = "large" if large else draw(st.sampled_from(["plain"] * 18 + ["wide", "long"])) if max_orb > 2 else "plain"
    if shape == "wide":           # many orbitals, few k-points
        c = draw(g.bulk(orbs=(8, 16), hops=(8, 40), max_r=1, dims=dimension, planar=dimension == 2))
    else:
        c = draw(g.cell(min_orb=4 if large else 1, max_orb=7 if large else max_orb, min_hop=8 if large else 1, max_hop=16 if large else 5, max_r=1,
                        dims=dimension, planar=dimension == 2))
    n = st.integers(6, 11) if large else st.integers(1, 2 if shape == "wide" else 4)
    mesh = [draw(n), draw(n), 1 if dimension == 2 else draw(st.integers(1, 3))]
    if shape == "long":           # a fine mesh along one direction
        d = draw(st.integers(0, dimension - 1))
        mesh = [1 + (i < 2 and m > 2) for i, m in enumerate(mesh)]
        mesh[d] = draw(st.integers(12, 30))
    return {"cell": c, "dimension": dimension, "mesh": mesh,
            "emin": draw(st.sampled_from([0.0, -2.0, 0.5])), "emax": draw(st.sampled_from([4.0, 3.0, 9.5, 10.0])),
            "estep": draw(st.sampled_from([24, 57])) if large else draw(st.integers(0, 19).map(lambda n: 1000 if n == 19 else n % 6 + 1)), "mu": draw(g.real_val),
            "temp": draw(st.sampled_from([300.0, 1.0, 77.5, 5000.0, 40000.0])), "g_s": draw(st.integers(1, 2)),
            "shift": draw(st.sampled_from([0, 0, 0.25, -0.6])),
            "eps": draw(st.sampled_from([1.0, 2.5])), "delta": draw(st.sampled_from([0.005, 0.05, 0.3])), "fortran": draw(st.booleans())}


def solver(case, cell, **kw):
    import tbplas as tb
    args = dict(kmesh_size=tuple(case["mesh"]), energy_min=case["emin"], energy_max=case["emax"], energy_step=case["estep"],
                mu=case["mu"], temperature=case["temp"], g_s=case["g_s"], back_epsilon=case["eps"],
                dimension=case["dimension"], delta=case["delta"])
    args.update(kw)
    return tb.Lindhard(cell, **args)


def fermi(case, e):
    return expit(-(e - case["mu"]) / (KB * case["temp"]))


def shifted(case, cell):
    """Edit the cell in place (on-site energies, then a repeated lattice-vector free change) and return the new description."""
    orbs = []
    for i, o in enumerate(case["cell"]["orbs"]):
        e = round(o[1] + case["shift"] * (i + 1) * (-1) ** i, 6)
        cell.set_orbital(i, energy=e)
        orbs.append([o[0], e] + list(o[2:]))
    return dict(case, cell=dict(case["cell"], orbs=orbs)), cell


def kmesh(mesh):
    return np.array([[a / mesh[0], b / mesh[1], d / mesh[2]] for a in range(mesh[0]) for b in range(mesh[1]) for d in range(mesh[2])])


def omegas(case):
    return np.linspace(case["emin"], case["emax"], case["estep"] + 1)


def reference(case, q_frac):
    """Lindhard sum for one q; the overlap of the cell-periodic parts is the plain product of convention-1 coefficients."""
    c, w = case["cell"], omegas(case)
    lat = np.array(c["lat"]) * 0.1
    mesh = case["mesh"]
    nk = mesh[0] * mesh[1] * mesh[2]
    area = np.linalg.norm(np.cross(lat[0], lat[1])) if case["dimension"] == 2 else abs(np.linalg.det(lat))
    out, size = np.zeros(len(w), dtype=complex), 0.0
    for k in kmesh(mesh):
        e1, v1 = np.linalg.eigh(ref.ham_of(c, k, 1))
        e2, v2 = np.linalg.eigh(ref.ham_of(c, k + q_frac, 1))
        m = np.abs(v2.conj().T @ v1) ** 2                  # [l, j]
        num = m * (fermi(case, e1)[None, :] - fermi(case, e2)[:, None])
        de = e1[None, :] - e2[:, None]
        size += np.sum(np.abs(m))
        for i, x in enumerate(w):
            out[i] += np.sum(num / (de + x + 1j * case["delta"]))
    fac = case["g_s"] / (area * nk)
    # rounding of the energies enters the occupations multiplied by 1/kT
    return fac * out, fac * size / case["delta"] * (1 + 1e-2 / (KB * case["temp"]))


@st.composite
def regular_case(draw, large=False):
    s = draw(setup(large=large))
    m = draw(st.sampled_from([1, 1, 1, 12]))
    q = st.tuples(st.integers(-5 * m, 6 * m), st.integers(-5 * m, 6 * m), st.just(0) if s["dimension"] == 2 else st.integers(-3 * m, 4 * m)).map(list)
    s["q"] = draw(g.weighted((15, g.sized(q, 1, 3)), (0 if large else 1, g.sized(q, 4, 14))))
    s["as_list"] = draw(st.booleans())
    return s


def tol_of(r, size):
    return 1e-7 * np.max(np.abs(r)) + 1e-11 * size + 1e-14


def non_trivial(ctx, case, refs):
    ctx.nontrivial(len(case["cell"]["orbs"]) > 1 and max(np.max(np.abs(r)) for r in refs) > 1e-6)
    ctx.label(f"dim{case['dimension']}", "fortran" if case["fortran"] else "cython", f"nq{len(case['q'])}")


RULE = "more than one orbital and non-vanishing response"


@sub("C15", regular_case, 520, shards=4, rule=RULE)
def regular(case, ctx):
    cell = ref.build_cell(case["cell"])
    lh = solver(case, cell)
    q = case["q"] if case["as_list"] else np.array(case["q"], dtype=np.int64)
    w, dp = lh.calc_dyn_pol_regular(q, use_fortran=case["fortran"])
    ctx.close(w, omegas(case), 1e-10, "energy grid")
    ctx.equal(dp.shape, (len(q), len(w)), "shape")
    refs = []
    frac = np.array(case["q"]) / np.array(case["mesh"])
    for i, f in enumerate(frac):
        r, size = reference(case, f)
        refs.append(r)
        ctx.close(dp[i], r, tol_of(r, size), f"dynamic polarisation at grid q-point {case['q'][i]}")
    # same momentum as an arbitrary one, other back-end
    qc = lh.grid2cart(q)
    ctx.close(qc, frac @ ref.recip(np.array(case["cell"]["lat"]) * 0.1), 1e-8 * (1 + np.max(np.abs(qc))), "grid2cart")
    _, dp2 = lh.calc_dyn_pol_arbitrary(qc, use_fortran=not case["fortran"])
    for i in range(len(frac)):
        r, size = reference(case, frac[i])
        ctx.close(dp2[i], r, tol_of(r, size), f"dynamic polarisation at the same q-point given in Cartesian form, {case['q'][i]}")
    if case["shift"]:
        # the solver follows its cell
        c2, cell2 = shifted(case, cell)
        _, dp3 = lh.calc_dyn_pol_regular(q, use_fortran=case["fortran"])
        for i, f in enumerate(frac):
            r, size = reference(c2, f)
            ctx.close(dp3[i], r, tol_of(r, size), f"dynamic polarisation after the on-site energies are changed, grid q-point {case['q'][i]}")
        ctx.label("cell edited")
    ctx.equal(np.array(q).tolist(), case["q"], "q-points changed by the calculation")
    non_trivial(ctx, case, refs)


THREADS = RULE + ", several hundred transitions and 4 threads"
sub("C15", regular_case(large=True), 16, shards=1, omp=4, rule=THREADS, name="regular_threads")(regular)


@st.composite
def arb_case(draw, large=False):
    s = draw(setup(large=large))
    scale = draw(st.sampled_from([1.0, 1.0, 1.0, 20.0, 1e-3]))
    comp = st.floats(-9, 9).map(lambda x: round(round(x, 3) * scale, 7))
    # q along c probes the orbital positions too, but the 2d formula is meant for momenta in the plane
    q = st.tuples(comp, comp, comp if s["dimension"] == 3 else st.just(0.0)).map(list)
    s["q"] = draw(g.weighted((15, g.sized(q, 1, 3)), (0 if large else 1, g.sized(q, 4, 14))))
    s["as_list"] = draw(st.booleans())
    return s


@sub("C15", arb_case, 520, shards=4, rule=RULE)
def arbitrary(case, ctx):
    cell = ref.build_cell(case["cell"])
    lh = solver(case, cell)
    qa = np.array(case["q"], dtype=float)
    q = case["q"] if case["as_list"] else qa
    w, dp = lh.calc_dyn_pol_arbitrary(q, use_fortran=case["fortran"])
    ctx.close(w, omegas(case), 1e-10, "energy grid")
    lat = np.array(case["cell"]["lat"]) * 0.1
    refs = []
    for i, qc in enumerate(qa):
        r, size = reference(case, lat @ qc / (2 * np.pi))
        refs.append(r)
        ctx.close(dp[i], r, tol_of(r, size), f"dynamic polarisation at q={case['q'][i]}")
    keep = [i for i in range(len(qa)) if np.linalg.norm(qa[i]) > 1e-6]
    if keep:
        qs, before = qa[keep], dp[keep].copy()
        eps = lh.calc_epsilon([case["q"][i] for i in keep] if case["as_list"] else qs, dp[keep])
        ctx.equal(eps.shape, (len(keep), len(w)), "shape of epsilon")
        for i, qc in enumerate(qs):
            n = np.linalg.norm(qc)
            v = 2 * np.pi / n if case["dimension"] == 2 else 4 * np.pi / n ** 2
            want = 1.0 - v / (EPS0 * case["eps"]) * before[i]
            ctx.close(eps[i], want, 1e-8 * (1 + np.max(np.abs(want))), f"dielectric function at q={qc.tolist()}")
        ctx.close(dp[keep], before, 0.0, "calc_epsilon changes its argument")
    if case["shift"]:
        c2, cell2 = shifted(case, cell)
        _, dp3 = lh.calc_dyn_pol_arbitrary(q, use_fortran=case["fortran"])
        for i, qc in enumerate(qa):
            r, size = reference(c2, lat @ qc / (2 * np.pi))
            ctx.close(dp3[i], r, tol_of(r, size), f"dynamic polarisation after the on-site energies are changed, q={case['q'][i]}")
        ctx.label("cell edited")
    ctx.equal(np.array(q).tolist(), case["q"], "q-points changed by the calculation")
    non_trivial(ctx, case, refs)


sub("C15", arb_case(large=True), 16, shards=1, omp=4, rule=THREADS, name="arbitrary_threads")(arbitrary)


# ------------------------------------------------------------------ metamorphic: same physics, other description
@st.composite
def enlarge_case(draw):
    s = draw(setup(max_orb=2))
    dims = [draw(st.integers(1, 2)), draw(st.integers(1, 2)), 1 if s["dimension"] == 2 else draw(st.integers(1, 2))]
    if dims == [1, 1, 1]:
        dims[draw(st.integers(0, 1))] = 2
    sub_mesh = [draw(st.integers(1, 2)) for _ in range(3)]
    if s["dimension"] == 2:
        sub_mesh[2] = 1
    s.update(dims=dims, mesh=[d * m for d, m in zip(dims, sub_mesh)], sub_mesh=sub_mesh,
             q=[[draw(st.integers(-3, 3)), draw(st.integers(-3, 3)), 0]])
    return s


@sub("C15", enlarge_case, 80, shards=2, rule="enlarged cell")
def enlarge(case, ctx):
    """The response per area or volume does not depend on which of its cells describes the crystal."""
    import tbplas as tb
    cell = ref.build_cell(case["cell"])
    big = tb.extend_prim_cell(cell, tuple(case["dims"]))
    lh = solver(case, cell)
    q = lh.grid2cart(case["q"])
    _, dp = lh.calc_dyn_pol_arbitrary(q, use_fortran=case["fortran"])
    _, dp_big = solver(case, big, kmesh_size=tuple(case["sub_mesh"])).calc_dyn_pol_arbitrary(q, use_fortran=case["fortran"])
    r, size = reference(case, np.array(case["q"][0]) / np.array(case["mesh"]))
    tol = tol_of(r, size)
    ctx.close(dp[0], r, tol, "dynamic polarisation")
    ctx.nontrivial(np.max(np.abs(r)) > 100 * tol)
    ext = int(np.prod(case["dims"]))
    if np.max(np.abs(dp_big[0] - r)) > tol:
        key = "dyn_pol-extended" if np.max(np.abs(dp_big[0] * ext - r)) <= tol else None
        ctx.fail(f"dynamic polarisation per area/volume of the {case['dims']} times extended cell is {dp_big[0]}, of the "
                 f"cell itself {dp[0]}", key=key)


# ------------------------------------------------------------------ conversions
@st.composite
def conv_case(draw):
    s = draw(setup(max_orb=1))
    s["mesh"] = [draw(st.integers(1, 7)), draw(st.integers(1, 7)), 1 if s["dimension"] == 2 else draw(st.integers(1, 7))]
    ints = st.integers(-20, 20)
    s["grid"] = draw(g.sized(st.tuples(ints, ints, ints).map(list), 1, 4))
    comp = st.one_of(st.floats(-4, 4), st.integers(-4, 4).map(float), st.sampled_from([-1e-17, 1 - 1e-16, 0.5, 1.0, -1.0]))
    s["frac"] = draw(g.sized(st.tuples(comp, comp, comp).map(list), 1, 4))
    s["unit"] = draw(st.sampled_from([1.0, 0.1, 2.0]))
    s["as_list"] = draw(st.booleans())
    s["bad"] = draw(st.integers(0, 2))
    return s


@sub("C15", conv_case, 200, shards=1, rule="always")
def conversions(case, ctx):
    ctx.nontrivial()
    cell = ref.build_cell(case["cell"])
    lh = solver(case, cell)
    gr, fr = np.array(case["grid"], dtype=np.int64), np.array(case["frac"], dtype=float)
    mesh = np.array(case["mesh"])
    rec = ref.recip(np.array(case["cell"]["lat"]) * 0.1)
    given = []

    def conv(a):
        x = a.tolist() if case["as_list"] else a.copy()
        given.append((x, a))
        return x

    wg = lh.wrap_grid(conv(gr))
    ctx.check(np.array_equal(wg, gr % mesh), "wrap_grid")
    wf = lh.wrap_frac(conv(fr))
    ctx.check(np.all(wf >= 0) and np.all(wf < 1), f"wrap_frac leaves the first zone: {wf.tolist()}")
    d = wf - fr
    ctx.close(d, np.round(d), 1e-9, "wrap_frac shifts by a non-lattice vector")
    u = case["unit"]
    scale = 1 + np.max(np.abs(rec))
    f = lh.grid2frac(conv(gr))
    ctx.close(f, gr / mesh, 1e-12, "grid2frac")
    ctx.close(lh.frac2cart(conv(fr), unit=u), fr @ rec * u, 1e-9 * scale, "frac2cart")
    ctx.close(lh.cart2frac(conv(fr @ rec * u), unit=u), fr, 1e-9, "cart2frac")
    ctx.close(lh.grid2cart(conv(gr), unit=u), (gr / mesh) @ rec * u, 1e-8 * scale, "grid2cart")
    ctx.close(lh.grid2frac(conv(gr.astype(float))), gr / mesh, 1e-12, "grid2frac of float coordinates")
    for x, a in given:
        ctx.check(np.array_equal(np.array(x), a), "a conversion changes its argument")
    if case["bad"] == 0:
        ctx.raises(ValueError, lambda: solver(case, cell, dimension=1), "dimension 1")
    elif case["bad"] == 1:
        ctx.raises(ValueError, lambda: solver(case, cell, dimension=2, kmesh_size=(2, 2, 2)), "2d with k-points along c")
    else:
        ctx.raises(ValueError, lambda: solver(case, cell, kmesh_size=(2, 2)), "mesh of two components")
