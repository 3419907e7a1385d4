"""C21: spectra from correlation functions against vectorised transforms, along histories of settings."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt import tbpm
from pbt.harness import sub

METHODS = ["dos", "ldos", "ac", "dyn_pol", "epsilon", "epsilon_q0", "dc", "diff", "hall"]


nts = g.weighted((7, st.integers(1, 9)), (1, st.sampled_from([33, 72, 140])))


@st.composite
def spec_case(draw):
    case = draw(tbpm.small_sample(9))
    case["ext"] = draw(g.weighted((9, st.just([1, 1, 1])), (1, st.sampled_from([[2, 1, 1], [1, 2, 1], [3, 2, 1]]))))
    case["nt"] = draw(nts)
    case["dimn"] = draw(st.sampled_from([2, 3]))
    edit = g.weighted(
        (2, st.tuples(st.just("nt"), nts)),
        (2, st.tuples(st.just("spin"), st.booleans())),
        (1, st.tuples(st.just("beta"), st.sampled_from([0.5, 4.0, 38.7]))),
        (1, st.tuples(st.just("eps"), st.sampled_from([1.0, 2.5]))),
        (1, st.tuples(st.just("coul"), st.sampled_from([1.0, 0.5]))),
        (2, st.tuples(st.just("rescale"), st.sampled_from([1.0, 1.7, 3.0, 0.03]))),
        (1, st.tuples(st.just("q"), st.lists(st.tuples(*[st.sampled_from([0.0, 0.0, 1.0, -2.5, 3.25, 1e-4])] * 3).map(list), min_size=1, max_size=3))),
        (1, st.tuples(st.just("lim"), st.lists(st.sampled_from([-1.0, -0.5, 0.0, 0.5, -1.01, -0.52, -0.23, 0.0101, 0.31, 0.77, 1.01]), min_size=2, max_size=2, unique=True).map(sorted))),
        (7, st.tuples(st.just("calc"), st.sampled_from(METHODS), st.integers(0, 10 ** 6), st.integers(0, 3)))).map(list)
    case["ops"] = draw(g.sized(edit, 3, 8))
    case["ops"].append(["calc", draw(st.sampled_from(METHODS)), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 3))])
    return case


def windows():
    from tbplas.tbpm import analysis as a
    return {1: (a.window_hanning, lambda i, n: 0.5 * (1 + np.cos(np.pi * i / n))),
            2: (a.window_exp, lambda i, n: np.exp(-2 * (i / n) ** 2)),
            3: (a.window_exp_ten, lambda i, n: 10.0 ** (-2 * (i / n) ** 2))}




@sub("C21", spec_case, 420, shards=4, rule="at least 3 time steps and a finite result")
def spectra(case, ctx):
    import tbplas as tb
    from tbplas.base import constants as const
    cell = ref.build_cell(case["cell"])
    ext = int(np.prod(case["ext"]))
    if ext > 1:
        cell = tb.extend_prim_cell(cell, dim=tuple(case["ext"]))
    sample = tb.Sample(tb.SuperCell(cell, dim=tuple(case["dim"]), pbc=tuple(case["pbc"])))
    lat = np.array(case["cell"]["lat"], dtype=float) * 0.1
    area = np.linalg.norm(np.cross(lat[0], lat[1]))
    size = area if case["dimn"] == 2 else abs(np.linalg.det(lat))
    norb = len(case["cell"]["orbs"])
    dens = norb / size          # orbitals per area or volume: the same for the extended cell
    sample.rescale_ham(7.0)
    cfg = tb.Config()
    cfg.generic.update({"nr_time_steps": case["nt"]})
    ana = tb.Analyzer(sample, cfg, dimension=case["dimn"])
    ctx.raises(ValueError, lambda: tb.Analyzer(sample, cfg, dimension=1), "Analyzer of dimension 1")
    resc = 7.0
    wins = windows()
    for op in case["ops"]:
        if op[0] == "nt":
            cfg.generic["nr_time_steps"] = op[1]
        elif op[0] == "spin":
            cfg.generic["correct_spin"] = op[1]
        elif op[0] == "beta":
            cfg.generic["beta"] = op[1]
        elif op[0] == "eps":
            cfg.dyn_pol["background_dielectric_constant"] = op[1]
        elif op[0] == "coul":
            cfg.dyn_pol["coulomb_constant"] = op[1]
        elif op[0] == "rescale":
            resc = 7.0 * op[1]
            sample.rescale_ham(resc)
        elif op[0] == "q":
            cfg.dyn_pol["q_points"] = op[1]
        elif op[0] == "lim":
            cfg.DC_conductivity["energy_limits"] = tuple(x * resc for x in op[1])
        else:
            calc(op, case, cfg, ana, resc, dens, ext, wins, const, ctx)


def calc(op, case, cfg, ana, resc, dens, ext, wins, const, ctx):
    _, what, seed, win = op
    rng = np.random.default_rng(seed)
    gen = cfg.generic
    nt, beta, spin = gen["nr_time_steps"], gen["beta"], 2.0 if gen["correct_spin"] else 1.0
    er = 2 * resc
    omegas = np.arange(nt) * er / nt
    egrid = (np.arange(2 * nt) - nt) * er / (2 * nt)
    qs = np.array(cfg.dyn_pol["q_points"], dtype=float)
    lim = cfg.DC_conductivity["energy_limits"]
    sel = np.where((egrid >= lim[0]) & (egrid <= lim[1]))[0]
    exact = nt in (1, 2, 4, 8) and resc == round(resc)          # binary fractions: a bound on the grid belongs to the window
    if len(sel) and np.min(np.abs(egrid[:, None] - np.array(lim)[None, :])) < 1e-9 * er:
        if not exact:
            return
        ctx.label("bound on the grid")
    cplx = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    ctx.label(what)
    kdef = {"dos": 1, "ldos": 1, "ac": 2, "dyn_pol": 3, "dc": 2, "diff": 2}
    args = [] if win == 0 else [wins[win][0]]
    w = wins[win or kdef.get(what, 1)][1]
    k = np.arange(nt)
    wk = w(k + 1.0, nt)

    def extended(got, want, tol):
        """The listed finding: the response of an extended primitive cell comes out divided by the extension."""
        return "analyzer-extended" if ext > 1 and np.max(np.abs(got * ext - want)) <= tol * ext else None

    def dos_of(corr, wf):
        t = np.arange(-(nt - 1), nt + 1)
        c = np.where(t >= 0, corr[np.abs(t)], corr[np.abs(t)].conj())
        amp = c * np.where(t == 0, 1.0, wf(np.maximum(np.abs(t) - 1.0, 0.0), nt))
        d = np.abs(np.exp(1j * np.outer(egrid, t) * 2 * np.pi / er) @ amp)
        return d / (np.sum(d) * er / (2 * nt)) * spin

    if what in ("dos", "ldos"):
        corr = cplx(nt + 1)
        corr[0] = 1.0
        before = corr.copy()
        en, got = getattr(ana, f"calc_{what}")(corr, *args)
        ctx.close(en, egrid, 1e-9 * er, "energies of the DOS")
        want = dos_of(corr, w)
        ctx.close(got, want, 1e-8 * (1 + np.max(want)), "DOS from the correlation function")
        ctx.close(np.sum(got) * er / (2 * nt), spin, 1e-9, "integral of the DOS")
        ctx.equal(corr.tolist(), before.tolist(), "correlation function given by the caller")
        ctx.nontrivial(nt >= 3)
    elif what == "ac":
        corr = cplx(4, nt)
        om, got = ana.calc_ac_cond(corr, *args)
        ctx.close(om, omegas, 1e-9 * er, "frequencies")
        ts = np.pi / er
        s = np.sin(np.outer(omegas, k) * ts) @ (2 * wk[:, None] * corr.imag.T)       # (omega, 4)
        with np.errstate(all="ignore"):
            fac = np.where(omegas > 0, (np.exp(-beta * omegas) - 1) / np.where(omegas > 0, omegas, 1), 0.0)
        real = (dens * ts * s * fac[:, None]).T * spin
        tol = 1e-8 * (1 + np.max(np.abs(real)))
        ctx.close(got.real, real, tol, "real part of the AC conductivity", extended(got.real, real, tol))
        full = np.zeros((4, 2 * nt))
        full[:, nt:] = real
        full[:, 1:nt + 1] = real[:, ::-1] if nt > 0 else 0
        # Hilbert transform of the even extension: imaginary part of the analytic signal
        f = np.fft.fft(full, axis=1)
        h = np.zeros(2 * nt)
        h[0] = h[nt] = 1
        h[1:nt] = 2
        imag = np.fft.ifft(f * h, axis=1).imag[:, nt:]
        ctx.close(got.imag, imag, tol, "imaginary part of the AC conductivity", extended(got.imag, imag, tol))
        ctx.nontrivial(nt >= 3)
    elif what == "dyn_pol":
        corr = rng.normal(size=(len(qs), nt))
        q, om, got = ana.calc_dyn_pol(corr, *args)
        ctx.close(q, qs, 0, "q-points")
        ctx.close(om, omegas, 1e-9 * er, "frequencies")
        ts = np.pi / er
        want = 2 * dens * ts * spin * (np.exp(1j * np.outer(omegas, k) * ts) @ (wk[:, None] * corr.T)).T
        tol = 1e-8 * (1 + np.max(np.abs(want)))
        ctx.close(got, want, tol, "dynamic polarisation", extended(got, want, tol))
        ctx.nontrivial(nt >= 3)
    elif what == "epsilon":
        dp = cplx(len(qs), nt)
        got = ana.calc_epsilon(dp)
        fac = cfg.dyn_pol["coulomb_constant"] / (const.EPSILON0 * cfg.dyn_pol["background_dielectric_constant"])
        qn = np.linalg.norm(qs, axis=1)
        vq = np.array([0.0 if x == 0 else fac * (2 * np.pi / x if case["dimn"] == 2 else 4 * np.pi / x ** 2) for x in qn])
        want = 1 - vq[:, None] * dp
        for i in range(len(qs)):
            ctx.close(got[i], want[i], 1e-9 * (1 + np.max(np.abs(want[i]))), "dielectric function")
        ctx.nontrivial(np.max(vq) > 0)
    elif what == "epsilon_q0":
        ac = cplx(4, nt)
        om = omegas + [0.1, 1e-3, 2.0][seed % 3]
        if case["dimn"] == 2:
            ctx.raises(ValueError, lambda: ana.calc_epsilon_q0(om, ac), "dielectric function at q=0 in two dimensions")
            return
        got = ana.calc_epsilon_q0(om, ac)
        want = 1 + 4j * np.pi / (cfg.dyn_pol["background_dielectric_constant"] * const.EPSILON0) * ac / om
        for i in range(nt):
            ctx.close(got[:, i], want[:, i], 1e-9 * (1 + np.max(np.abs(want[:, i]))), "dielectric function at q=0")
        ctx.nontrivial()
    elif what in ("dc", "diff"):
        ts = 2 * np.pi / er
        corr = cplx(2, 2 * nt, nt)
        en = egrid[sel]
        terms = np.real(np.exp(-1j * np.outer(en, k) * ts)[None] * corr[:, :len(sel), :]) * wk
        if what == "dc":
            cdos = cplx(nt)
            got_en, got = ana.calc_dc_cond(cdos, corr, *([wins[1][0], args[0]] if args else []))
            dos = dos_of(np.insert(cdos, 0, 1.0), wins[1][1])[sel]      # with the factor of the spin
            want = dens * ts * dos * np.sum(terms, axis=2)
            ctx.close(got_en, en, 1e-9 * er, "energies of the DC conductivity")
            ctx.close(got, want, 1e-8 * (1 + np.max(np.abs(want), initial=0)), "DC conductivity")
        else:
            time, got = ana.calc_diff_coeff(corr, *args)
            ctx.close(time, k * ts, 1e-9 * (1 + nt * ts), "times of the diffusion coefficient")
            want = np.zeros(terms.shape)
            for i in range(1, nt):
                want[:, :, i] = want[:, :, i - 1] + 0.5 * ts * (terms[:, :, i] + terms[:, :, i - 1])
            ctx.close(got, want, 1e-8 * (1 + np.max(np.abs(want), initial=0)), "diffusion coefficient")
        ctx.nontrivial(nt >= 3 and len(sel) > 0)
    elif what == "hall":
        nk, ne = 2 + seed % 6, 2 + seed % 23
        if seed % 5 == 4:
            nk, ne = 12 + seed % 17, 60 + seed % 200
        mu = cplx(nk, nk)
        mus = [round(x, 3) for x in rng.uniform(-resc, resc, size=1 + seed % 3)]
        cfg.dckb.update({"n_kernel": nk, "ne_integral": ne, "energies": mus})
        unit = ["h_bar", "h"][seed % 2]
        got_en, got = ana.calc_hall_cond(mu, *([unit] if win else []))
        unit = unit if win else "h_bar"
        th = np.arange(1, ne) * np.pi / ne
        m = np.arange(nk)
        want = np.zeros(len(mus))
        x, sq = np.cos(th), np.sin(th)
        tot = np.zeros(ne - 1)
        for i in range(ne - 1):
            tn = np.cos(m * th[i])
            gam = (x[i] - 1j * m[None, :] * sq[i]) * np.exp(1j * m[None, :] * th[i]) * tn[:, None] \
                + (x[i] + 1j * m[:, None] * sq[i]) * np.exp(-1j * m[:, None] * th[i]) * tn[None, :]
            tot[i] = np.sum(gam * mu).real
        for a, c in enumerate(mus):
            f = 1 / (1 + np.exp(np.clip(beta * (x * resc - c), -700, 700)))
            want[a] = np.sum(tot * f / sq ** 3) * np.pi / ne
        want *= 16 * dens / (np.pi * er ** 2) * spin * (2 * np.pi if unit == "h" else 1)
        ctx.close(got_en, mus, 0, "chemical potentials")
        ctx.close(got, want, 1e-8 * (1 + np.max(np.abs(want))), "Hall conductivity")
        ctx.raises(ValueError, lambda: ana.calc_hall_cond(mu, "e"), "unknown unit of the conductivity")
        ctx.nontrivial(nk > 2)


sub("C21", spec_case, 60, shards=1, omp=4, rule="as for spectra, 4 threads", name="threads")(spectra)


@st.composite
def level_case(draw):
    return {"e": draw(st.floats(-0.9, 0.9).map(lambda x: round(x, 3))), "t": draw(st.sampled_from([0.3, 1.0, 2.4])),
            "nt": draw(st.sampled_from([16, 32, 64])), "win": draw(st.sampled_from([1, 2, 3])), "spin": draw(st.booleans())}


@sub("C21", level_case, 60, shards=1, rule="a level off the grid centre")
def level(case, ctx):
    """End to end: the LDOS of one level, from propagation to spectrum, peaks at that level and integrates to one."""
    import tbplas as tb
    resc = 3.0
    cell = tb.PrimitiveCell(np.eye(3) * 3.0)
    for i, e in enumerate((case["e"] * resc, 0.0, 0.0)):
        cell.add_orbital((0.2 * i, 0, 0), e)
    cell.add_hopping((0, 0, 0), 1, 2, case["t"])
    sample = tb.Sample(tb.SuperCell(cell, dim=(1, 1, 1), pbc=(False, False, False)))
    sample.rescale_ham(resc)
    with tbpm.workdir() as path:
        for site, levels in ((0, [case["e"] * resc]), (1, [case["t"], -case["t"]])):
            cfg = tbpm.config({"nr_time_steps": case["nt"], "correct_spin": case["spin"]}, LDOS={"site_indices": [site]})
            corr = tbpm.solver(sample, cfg, path).calc_corr_ldos()
            en, dos = tb.Analyzer(sample, cfg).calc_ldos(corr, windows()[case["win"]][0])
            step = en[1] - en[0]
            peak = en[np.argmax(dos)]
            ctx.check(min(abs(peak - x) for x in levels) <= 1.5 * step, f"LDOS of levels at {levels} eV peaks at {peak} eV")
            ctx.close(np.sum(dos) * step, 2.0 if case["spin"] else 1.0, 1e-9, "integral of the DOS")
    ctx.nontrivial(abs(case["e"]) > 0.05)
