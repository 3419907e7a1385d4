"""C20: correlation functions of the response functions against dense operator formulas."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import tbpm
from pbt.harness import sub


def fermi(e, beta, mu):
    x = np.clip(beta * (e - mu), -700, 700)
    return 1.0 / (1.0 + np.exp(x))


def common(draw, max_n=9):
    case = draw(tbpm.small_sample(max_n))
    if case["resc"] is None and draw(st.booleans()):
        case["resc"] = 1.2
    case["nt"] = draw(g.weighted((9, st.integers(1, 8)), (1, st.sampled_from([66, 130]))))
    case["seed"] = draw(g.weighted((3, st.integers(1, 40)), (1, st.sampled_from([1337, 99991]))))
    case["num"] = draw(g.weighted((6, st.just(1)), (3, st.just(2)), (1, st.sampled_from([3, 5]))))
    case["bre"] = draw(st.sampled_from([0.1, 1.0, 5.0, 20.0]))      # 1/kT in units of the rescaling factor
    case["mu"] = draw(st.sampled_from([0.0, 0.0, 0.3, -0.7]))       # in units of the spectral radius
    case["nf"] = draw(st.sampled_from([2 ** 10, 2 ** 12, 2 ** 13]))
    if draw(st.integers(0, 9)) == 0:         # low temperature: a sharp Fermi function takes more terms
        case["bre"], case["nf"] = draw(st.sampled_from([120.0, 400.0])), 2 ** 15
    case["again"] = draw(g.weighted((1, st.just(True)), (4, st.just(False))))
    return case


def generic(case, s):
    return {"nr_time_steps": case["nt"], "seed": case["seed"], "nr_random_samples": case["num"],
            "beta": case["bre"] / s.resc, "mu": case["mu"] * s.radius, "nr_Fermi_fft_steps": case["nf"]}


def ferm_ops(case, s):
    """Exact Fermi operators and a bound of the error of the kernel polynomial expansion the solver states."""
    beta, mu = case["bre"] / s.resc, case["mu"] * s.radius
    f = s.fun(lambda e: fermi(e, beta, mu))
    # Jackson-smeared expansion: second derivative of f(cos x) times half of the squared width of the kernel
    b = case["bre"]
    err = (0.1 * b * b + 0.3 * b) * (np.pi / (case["nf"] / 2)) ** 2 + 1e-8
    return f, np.eye(s.n) - f, err


def setup(case, ctx, path):
    s = tbpm.System(case)
    phis = tbpm.random_states(s.n, case["seed"], case["num"], path)
    if phis is None:
        ctx.label("tomography-failed")
        return s, None
    ctx.label(f"samples={case['num']}")
    return s, phis


@st.composite
def ac_case(draw):
    return common(draw)


@sub("C20", ac_case, 320, shards=4, rule="both currents act and the Fermi operator mixes levels")
def ac(case, ctx):
    with tbpm.workdir() as path:
        s, phis = setup(case, ctx, path)
        if phis is None:
            return
        cfg = tbpm.config(generic(case, s))
        sol = tbpm.solver(s.sample, cfg, path)
        got = sol.calc_corr_ac_cond()
        if case["again"]:
            ctx.close(sol.calc_corr_ac_cond(), got, 1e-12 * (1 + np.max(np.abs(got))), "second calculation with the same seed")
    f, omf, err = ferm_ops(case, s)
    nt, dt = case["nt"], 0.5 * np.pi / s.resc
    ctx.equal(got.shape, (4, nt), "shape")
    want = np.zeros((4, nt), dtype=complex)
    for p in phis:
        psi2, psix, psiy = f @ p, omf @ s.jx @ p, omf @ s.jy @ p
        for t in range(nt):
            u = s.evolve(dt * t)
            for r, (src, op) in enumerate(((psix, s.jx), (psix, s.jy), (psiy, s.jx), (psiy, s.jy))):
                want[r, t] += np.vdot(u @ psi2, op @ (u @ src)) / len(phis)
    jn = max(np.linalg.norm(s.jx, 2), np.linalg.norm(s.jy, 2))
    ctx.close(got, want, (3 * err + 1e-7) * jn * jn + 1e-12, "AC correlation function (xx, xy, yx, yy)")
    ctx.nontrivial(np.linalg.norm(s.jx) > 1e-3 and np.linalg.norm(s.jy) > 1e-3 and np.max(np.abs(want)) > 1e-6)


@st.composite
def pol_case(draw):
    case = common(draw)
    q = st.floats(-9, 9).map(lambda x: round(x, 2))
    case["q"] = draw(st.lists(st.tuples(q, q, q).map(list), min_size=1, max_size=3))
    return case


@sub("C20", pol_case, 320, shards=4, rule="a finite correlation at a finite q")
def dyn_pol(case, ctx):
    with tbpm.workdir() as path:
        s, phis = setup(case, ctx, path)
        if phis is None:
            return
        sol = tbpm.solver(s.sample, tbpm.config(generic(case, s), dyn_pol={"q_points": case["q"]}), path)
        got = sol.calc_corr_dyn_pol()
        if case["again"]:
            ctx.close(sol.calc_corr_dyn_pol(), got, 1e-12, "second calculation with the same seed")
    f, omf, err = ferm_ops(case, s)
    nt, dt = case["nt"], 0.5 * np.pi / s.resc
    want = np.zeros((len(case["q"]), nt))
    for i, q in enumerate(case["q"]):
        ph = np.exp(1j * s.pos @ np.array(q))
        for p in phis:
            psi1, psi2 = omf @ (ph.conj() * p), f @ p
            for t in range(nt):
                u = s.evolve(dt * t)
                want[i, t] += np.imag(np.vdot(u @ psi2, ph * (u @ psi1))) / len(phis)
    ctx.close(got, want, 3 * err + 2e-7, "correlation function of the dynamic polarisation")
    ctx.nontrivial(np.max(np.abs(want)) > 1e-4)
    ctx.label(f"nq={len(case['q'])}")


@st.composite
def dc_case(draw):
    case = common(draw)
    case["exact"] = draw(st.booleans())
    case["limits"] = sorted(draw(st.lists(st.sampled_from([-1.5, -1.0, -0.5, -0.2, 0.0, 0.31, 0.5, 1.0, 1.5]), min_size=2, max_size=2, unique=True)))
    return case


@sub("C20", dc_case, 320, shards=4, rule="energies in the window and a finite current correlation")
def dc(case, ctx):
    with tbpm.workdir() as path:
        s, phis = setup(case, ctx, path)
        if phis is None:
            return
        # with binary fractions throughout, the bounds of the window are energies of the grid and belong to it
        exact = case.get("exact") and case["nt"] in (1, 2, 4, 8)
        if exact:
            s.resc = float(np.ceil(4 * s.resc) / 4)
            s.sample.rescale_ham(s.resc)
            case["limits"] = [np.round(x * 4) / 4 for x in case["limits"]]
        nt, dt, rng = case["nt"], np.pi / s.resc, 2 * s.resc
        lim = [x * s.resc for x in case["limits"]]
        grid = [0.5 * i * rng / nt - rng / 2 for i in range(2 * nt)]
        margin = 1e-9 * rng
        if not exact and any(abs(e - x) < margin for e in grid for x in lim):
            lim = [lim[0] - 1e-3 * s.resc, lim[1] + 1e-3 * s.resc]      # keep the window unambiguous
        ctx.label("bound on the grid" if any(e == x for e in grid for x in lim) else "bounds between")
        inside = [e for e in grid if lim[0] <= e <= lim[1]]
        if not inside:
            ctx.label("empty-window")
            return
        sol = tbpm.solver(s.sample, tbpm.config(generic(case, s), DC_conductivity={"energy_limits": tuple(lim)}), path)
        dos, got = sol.calc_corr_dc_cond()
        if case["again"]:
            d2, g2 = sol.calc_corr_dc_cond()
            ctx.close(d2, dos, 1e-12, "second calculation of the DOS part with the same seed")
            ctx.close(g2, got, 1e-10 * (1 + np.max(np.abs(got))), "second calculation with the same seed")
    ev = [s.evolve(dt * t) for t in range(nt + 1)]
    ctx.close(dos, np.array([np.mean([np.vdot(p, ev[t] @ p) for p in phis]) for t in range(1, nt + 1)]), 1e-8, "DOS part")
    ctx.equal(got.shape[0], 2, "shape of the DC correlation function")
    ctx.equal(got.shape[2], nt, "shape of the DC correlation function")
    big = 0.0
    for i, e in enumerate(inside):
        want = np.zeros((2, nt), dtype=complex)
        cond = 1.0
        for p in phis:
            q = p.copy()
            for k in range(1, nt + 1):
                w = 0.5 * (1 + np.cos(np.pi * k / nt))
                q = q + w * (np.exp(1j * e * k * dt) * (ev[k] @ p) + np.exp(-1j * e * k * dt) * (ev[k].conj().T @ p))
            ov = abs(np.vdot(p, q))
            cond = max(cond, np.linalg.norm(q) / max(ov, 1e-300), 1 / max(ov, 1e-300))
            for d, cur in enumerate((s.jx, s.jy)):
                for t in range(nt):
                    want[d, t] += np.vdot(ev[t] @ (cur @ p), cur @ q) / max(ov, 1e-300) / len(phis)
        if cond > 1e3:
            ctx.label("ill-conditioned")
            continue
        jn = max(np.linalg.norm(s.jx, 2), np.linalg.norm(s.jy, 2))
        ctx.close(got[:, i, :], want, 1e-7 * cond * cond * (jn * jn + 1e-6), f"DC correlation function at {e} eV")
        big = max(big, float(np.max(np.abs(want))))
    ctx.check(np.max(np.abs(got[:, len(inside):, :]), initial=0.0) == 0, "entries beyond the energies of the window are not zero")
    ctx.nontrivial(big > 1e-4 and nt > 1)


@st.composite
def hall_case(draw):
    case = common(draw)
    case["nk"] = draw(g.weighted((9, st.integers(2, 14)), (1, st.sampled_from([33, 70]))))
    case["dir"] = draw(st.sampled_from([1, 2]))
    return case


def jackson(n):
    q = np.pi / n
    k = np.arange(n)
    out = ((n - k) * np.cos(q * k) + np.sin(q * k) / np.tan(q)) / n
    out[0] = 0.5
    return out


@sub("C20", hall_case, 360, shards=4, rule="more than 2 kernels and finite moments")
def hall(case, ctx):
    with tbpm.workdir() as path:
        s, phis = setup(case, ctx, path)
        if phis is None:
            return
        nk = case["nk"]
        sol = tbpm.solver(s.sample, tbpm.config(generic(case, s), dckb={"n_kernel": nk, "direction": case["dir"]}), path)
        got = sol.calc_hall_mu()
        if case["again"]:
            ctx.close(sol.calc_hall_mu(), got, 1e-10 * (1 + np.max(np.abs(got))), "second calculation with the same seed")
    h = s.h / s.resc
    cheb = [np.eye(s.n, dtype=complex), h]
    for _ in range(nk):
        cheb.append(2 * h @ cheb[-1] - cheb[-2])
    cur = s.jx if case["dir"] == 1 else s.jy
    gj = jackson(nk)
    want = np.zeros((nk, nk), dtype=complex)
    for p in phis:
        left = [cheb[i] @ (s.jx @ p) for i in range(nk)]
        right = [cur @ (cheb[j] @ p) for j in range(nk)]
        want += np.array([[np.vdot(a, b) for b in right] for a in left]) / len(phis)
    want *= np.outer(gj, gj)
    jn = max(np.linalg.norm(s.jx, 2), np.linalg.norm(s.jy, 2))
    ctx.close(got, want, 1e-7 * (jn * jn + 1e-6), "moments of the Hall conductivity")
    ctx.nontrivial(nk > 2 and np.max(np.abs(want)) > 1e-5)
    ctx.label(f"direction={case['dir']}")


@st.composite
def threads_case(draw):
    case = common(draw)
    case["sub"] = draw(st.sampled_from(["ac", "dyn_pol", "dc", "hall"]))
    case["q"] = [[1.0, -2.0, 0.5], [0.0, 3.0, 0.0]]
    case["limits"] = [-0.5, 0.5]
    case["nk"], case["dir"] = draw(st.integers(2, 14)), draw(st.sampled_from([1, 2]))
    return case


@sub("C20", threads_case, 60, shards=1, omp=4, rule="as the single-threaded checks")
def threads(case, ctx):
    ctx.label(case["sub"])
    {"ac": ac, "dyn_pol": dyn_pol, "dc": dc, "hall": hall}[case["sub"]](case, ctx)
