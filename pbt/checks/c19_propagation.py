"""C19: time evolution, correlation functions, quasi-eigenstates and recursion LDOS against dense matrix functions."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import tbpm
from pbt.harness import sub

PREC = 1e-9


def common(draw, max_n=12, max_t=10):
    case = draw(tbpm.small_sample(max_n))
    case["nt"] = draw(g.weighted((9, st.integers(1, max_t)), (1, st.sampled_from([70, 133]))))
    case["seed"] = draw(g.weighted((3, st.integers(1, 60)), (1, st.sampled_from([1337, 2 ** 20 + 7, 2 ** 31 - 1, -5]))))
    case["num"] = draw(g.weighted((6, st.just(1)), (3, st.just(2)), (1, st.sampled_from([3, 5]))))
    return case


@st.composite
def psi_case(draw):
    case = common(draw)
    n = 12
    kind = draw(st.sampled_from(["basis", "complex", "complex", "real"]))
    if kind == "basis":
        psi = [[0.0, 0.0]] * n
        psi[draw(st.integers(0, 1))] = [1.0, 0.0]
    elif kind == "real":
        psi = [[draw(g.real_val), 0.0] for _ in range(n)]
    else:
        psi = [[draw(g.real_val), draw(g.real_val)] for _ in range(n)]
    case["psi"] = psi
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 0.5, -1.0, 3.7, -0.25, 10.0, 1e-3, 1e-9, 0.0,
                                          # the expansion runs over zeros of the Bessel functions of order 0, 1 and 2
                                          2.404825557695773 / np.pi, 3.8317059702075123 / np.pi, -5.520078110286311 / np.pi, 5.135622301840683 / np.pi]))
    case["log"] = draw(st.lists(st.integers(-1, case["nt"] + 1), min_size=1, max_size=6))
    case["twice"] = draw(st.booleans())
    return case


def initial(case, n):
    psi = np.array([complex(a, b) for a, b in case["psi"]][:n])
    if np.linalg.norm(psi) < 1e-6:
        psi = np.zeros(n, dtype=complex)
        psi[0] = 1.0
    return psi


@sub("C19", psi_case, 500, shards=4, rule="logged times beyond 0 with a state that is not stationary")
def psi_t(case, ctx):
    s = tbpm.System(case)
    psi = initial(case, s.n)
    keep = psi.copy()
    log = list(case["log"])
    cfg = tbpm.config({"nr_time_steps": case["nt"]})
    with tbpm.workdir() as path:
        sol = tbpm.solver(s.sample, cfg, path)
        if any(t < 0 or t > case["nt"] for t in log):
            ctx.raises(ValueError, lambda: sol.calc_psi_t(psi, np.array(log), dt_scale=case["scale"]),
                       f"times {log} with {case['nt']} time steps")
            log = [t for t in log if 0 <= t <= case["nt"]] or [case["nt"]]
        got = sol.calc_psi_t(psi, np.array(log), dt_scale=case["scale"])
        times = sorted(set(log))
        dt = np.pi / s.resc * case["scale"]
        want = np.array([s.evolve(dt * t) @ (psi / np.linalg.norm(psi)) for t in times])
        ctx.close(got, want, PREC * (1 + case["nt"] * abs(case["scale"]) / 20), "propagated wave function")
        ctx.close(np.linalg.norm(got, axis=1), np.ones(len(times)), PREC * (1 + case["nt"] / 20), "norm of the propagated wave function")
        ctx.equal(psi.tolist(), keep.tolist(), "initial state given by the caller")
        if case["twice"]:      # evolution composes: two runs in a row are one
            mid = got[-1]
            back = sol.calc_psi_t(mid, np.array([times[-1]]), dt_scale=-case["scale"])[0]
            ctx.close(back, psi / np.linalg.norm(psi), PREC * 4 * (1 + case["nt"] * abs(case["scale"]) / 20), "evolution back in time")
    moved = np.max(np.abs(want - want[0] * 0 - psi / np.linalg.norm(psi)))
    ctx.nontrivial(times[-1] > 0 and moved > 1e-3)
    ctx.label(f"nt>{64 if case['nt'] > 64 else 0}", "backward" if case["scale"] < 0 else "forward")


@st.composite
def big_case(draw):
    """Several hundred orbitals: loops of the native code are split over threads."""
    c = draw(g.cell(min_orb=1, max_orb=3, min_hop=2, max_hop=6, max_r=1, planar=True))
    seen, hops = set(), []
    for rn, i, j, e in c["hops"]:
        rn = [rn[0], rn[1], 0]
        if rn == [0, 0, 0] and i == j:
            rn = [1, 0, 0]
        key, _ = g.canon(rn, i, j)
        if key not in seen:
            seen.add(key)
            hops.append([rn, i, j, e])
    c["hops"] = hops
    return {"cell": c, "dim": [draw(st.integers(6, 12)), draw(st.integers(6, 12)), 1], "pbc": [draw(st.booleans()), draw(st.booleans()), False],
            "resc": None, "nt": draw(st.integers(1, 6)), "pseed": draw(st.integers(0, 10 ** 6)), "sites": [draw(st.integers(0, 35))]}


@sub("C19", big_case, 24, shards=1, omp=4, rule="at least 64 orbitals and 4 threads")
def threads(case, ctx):
    s = tbpm.System(case)
    rng = np.random.default_rng(case["pseed"])
    psi = rng.normal(size=s.n) + 1j * rng.normal(size=s.n)
    psi /= np.linalg.norm(psi)
    nt, site = case["nt"], case["sites"][0]
    dt = np.pi / s.resc
    with tbpm.workdir() as path:
        sol = tbpm.solver(s.sample, tbpm.config({"nr_time_steps": nt}, LDOS={"site_indices": [site]}), path)
        got = sol.calc_psi_t(psi, np.arange(nt + 1))
        want = np.array([s.evolve(dt * t) @ psi for t in range(nt + 1)])
        ctx.close(got, want, PREC, "propagated wave function")
        got = sol.calc_corr_ldos()
        want = np.array([s.evolve(dt * t)[site, site] for t in range(nt + 1)])
        ctx.close(got, want, PREC, f"correlation function of site {site}")
        d1, d2 = sol.calc_corr_dos(), sol.calc_corr_dos()
        ctx.close(d1, d2, 1e-11, "repeated DOS correlation function")
    ctx.nontrivial(s.n >= 64)


@st.composite
def random_case(draw):
    n = draw(st.integers(1200, 3000))
    return {"n": n, "seed": draw(g.weighted((3, st.integers(1, 10 ** 6)), (1, st.sampled_from([1337, 2 ** 31 - 1, -5])))),
            "num": draw(st.integers(1, 2))}


@sub("C19", random_case, 24, thorough=300, shards=2, rule="always")
def random_start(case, ctx):
    """
    The initial states are random: independent complex normal amplitudes of one variance, normalised.  Chains of dimers turn
    moments of the amplitudes into correlation functions.  The bounds are at least seven standard deviations of the estimators.
    """
    import tbplas as tb
    n, num = case["n"], case["num"]
    ctx.nontrivial()

    def dimers(t, off):
        """Bonds between the orbitals 0-1, 2-3 ... of cells in a row (off=0) or 1-2, 3-4 ... (off=1); rescaled by 2."""
        cell = tb.PrimitiveCell(np.diag([1.0, 5.0, 5.0]), unit=0.1)
        cell.add_orbital((0.0, 0.0, 0.0), 0.0)
        cell.add_orbital((0.5, 0.0, 0.0), 0.0)
        if off == 0:
            cell.add_hopping((0, 0, 0), 0, 1, t)
        else:
            cell.add_hopping((1, 0, 0), 1, 0, t)
        s = tb.Sample(tb.SuperCell(cell, dim=(n // 2, 1, 1), pbc=(True, False, False)))
        s.rescale_ham(2.0)
        return s
    n = n // 2 * 2
    with tbpm.workdir() as path:
        gen = {"seed": case["seed"], "nr_random_samples": num}
        cfg = tbpm.config(dict(gen, nr_time_steps=1), quasi_eigenstates={"energies": [0.0]})
        w = tbpm.solver(dimers(1.0, 0), cfg, path).calc_quasi_eigenstates()[0] * n
        # weights: mean over num states of exponential variables, whose kth moment is 1*2*..*k
        var = 1.0 / num
        ctx.close(np.mean(w), 1.0, 1e-8, "norm of the random states")
        ctx.close(np.mean(w ** 2), 1 + var, 7 * np.sqrt(24.0 / n), f"second moment of the weights of {num} states")
        small = np.mean(w < 0.2)
        p = 1 - np.exp(-0.2) if num == 1 else 1 - np.exp(-0.4) * 1.4
        ctx.close(small, p, 7 * np.sqrt(p / n), "share of small weights")
        for part in (w[: n // 2], w[n // 2:], w[::2], w[1::2]):
            ctx.close(np.mean(part), 1.0, 7 * np.sqrt(2.0 / n), "mean weight of a part of the orbitals")
        lag = np.mean((w[1:] - 1) * (w[:-1] - 1))
        ctx.close(lag, 0.0, 7 * np.sqrt(2.0 / n) * 2, "correlation of the weights of neighbouring orbitals")
        # <phi|exp(-iHt)|phi> with all dimers of one kind: the sum of conj(phi_p) phi_q over the dimers is small
        for off in (0, 1):
            for t in (1.0, 1j):
                cfg = tbpm.config(dict(gen, nr_time_steps=2))
                c1 = tbpm.solver(dimers(t, off), cfg, path).calc_corr_dos()[1]
                ctx.close(c1, 0.0, 7 * np.sqrt(2.0 / n), f"overlap of neighbouring amplitudes, hopping {t}, dimers {off}")


@st.composite
def corr_case(draw):
    case = common(draw)
    case["sites"] = draw(st.lists(st.integers(0, 11), min_size=1, max_size=4) | st.lists(st.integers(0, 11), min_size=9, max_size=12, unique=True))
    case["energies"] = draw(st.lists(st.floats(-1.2, 1.2).map(lambda x: round(x, 3)), min_size=1, max_size=3))
    case["omp"] = 0
    return case


def states_of(case, s, path, ctx):
    phis = tbpm.random_states(s.n, case["seed"], case["num"], path)
    if phis is None:
        ctx.label("tomography-failed")
        return None
    for p in phis:
        ctx.close(np.linalg.norm(p), 1.0, 1e-8, "norm of the random state")
    return phis


@sub("C19", corr_case, 260, shards=4, rule="at least 2 time steps and a spectrum with different levels")
def corr(case, ctx):
    """DOS and LDOS correlation functions and quasi-eigenstates of the random states actually used."""
    s = tbpm.System(case)
    sites = sorted({i % s.n for i in case["sites"]})
    if len(case["sites"]) % 2:
        sites = sites[::-1]
    en = [e * s.radius for e in case["energies"]]
    nt, dt = case["nt"], np.pi / s.resc
    cfg = tbpm.config({"nr_time_steps": nt, "seed": case["seed"], "nr_random_samples": case["num"]},
                      LDOS={"site_indices": sites}, quasi_eigenstates={"energies": en})
    with tbpm.workdir() as path:
        phis = states_of(case, s, path, ctx)
        if phis is None:
            return
        sol = tbpm.solver(s.sample, cfg, path)
        dos, ldos, qe = sol.calc_corr_dos(), sol.calc_corr_ldos(), sol.calc_quasi_eigenstates()
        again = sol.calc_corr_dos(), sol.calc_corr_ldos(), sol.calc_quasi_eigenstates()
    for a, b, what in zip((dos, ldos, qe), again, ("DOS", "LDOS", "quasi-eigenstates")):
        ctx.close(a, b, 1e-12, f"{what} with the same seed")
    ev = [s.evolve(dt * t) for t in range(nt + 1)]
    want = np.array([np.mean([np.vdot(p, u @ p) for p in phis]) for u in ev])
    ctx.close(dos, want, 1e-8, "DOS correlation function")

    loc = []
    for p in phis:
        q = np.zeros(s.n, dtype=complex)
        q[sites] = p[sites]
        loc.append(q)
    if min(np.linalg.norm(q) for q in loc) > 1e-3:
        loc = [q / np.linalg.norm(q) for q in loc]
        want = np.array([np.mean([np.vdot(p, u @ p) for p in loc]) for u in ev])
        ctx.close(ldos, want, 1e-6, f"LDOS correlation function of sites {sites}")

    want, ok = np.zeros((len(en), s.n)), [True] * len(en)
    for p in phis:
        for i, e in enumerate(en):
            q = p.copy()
            for k in range(1, nt + 1):
                w = 0.5 * (1 + np.cos(np.pi * k / nt))
                q = q + w * (np.exp(1j * e * k * dt) * (ev[k] @ p) + np.exp(-1j * e * k * dt) * (ev[k].conj().T @ p))
            if np.linalg.norm(q) < 1e-2:
                ok[i] = False      # cancellation: the normalised state is not well defined
            else:
                want[i] += np.abs(q / np.linalg.norm(q)) ** 2 / len(phis)
    for i in range(len(en)):
        if ok[i]:
            ctx.close(qe[i], want[i], 1e-6, f"quasi-eigenstate at {en[i]} eV")
            ctx.close(np.sum(qe[i]), 1.0, 1e-8, "norm of the quasi-eigenstate")
    ctx.nontrivial(nt >= 2 and np.ptp(s.eig) > 1e-3)
    ctx.label(f"samples={case['num']}", f"sites={len(sites)}")


@st.composite
def haydock_case(draw):
    case = common(draw)
    case["site"] = draw(st.integers(0, 11))
    case["depth"] = draw(st.sampled_from([1, 2, 3, 4, 6, 20, 60]))
    case["delta"] = draw(st.sampled_from([0.02, 0.1, 0.5]))
    return case


@sub("C19", haydock_case, 260, shards=2, rule="the starting site couples to others and the depth exceeds 1")
def haydock(case, ctx):
    s = tbpm.System(case)
    site = case["site"] % s.n
    nt, delta, depth = case["nt"] % 12 + 1, case["delta"], case["depth"]
    cfg = tbpm.config({"nr_time_steps": nt, "nr_random_samples": case["num"], "seed": case["seed"]},
                      LDOS={"site_indices": [site], "delta": delta, "recursion_depth": depth})
    with tbpm.workdir() as path:
        en, ldos = tbpm.solver(s.sample, cfg, path).calc_ldos_haydock()
    want_en = 0.5 * 2 * s.resc * np.arange(-nt, nt + 1) / nt
    ctx.close(en, want_en, 1e-6 * (1 + s.resc), "energies")
    # reference Lanczos with full reorthogonalisation
    q = [np.eye(s.n, dtype=complex)[site]]
    a, b = [], []
    scale = max(s.radius, 0.05)
    for _ in range(min(depth, s.n)):
        v = s.h @ q[-1]
        a.append(np.vdot(q[-1], v).real)
        for _ in range(2):
            v = v - np.array(q).T @ (np.array(q).conj() @ v)
        nb = np.linalg.norm(v)
        if nb < 1e-12 * scale:
            break
        if nb < 1e-4 * scale:
            ctx.label("ill-conditioned")
            return
        if len(a) < min(depth, s.n):
            b.append(nb)
            q.append(v / nb)
    t = np.diag(a) + np.diag(b[:len(a) - 1], 1) + np.diag(b[:len(a) - 1], -1)
    e, v = np.linalg.eigh(t)
    want = np.array([-np.imag(np.sum(np.abs(v[0]) ** 2 / (x + 1j * delta - e))) / np.pi for x in en])
    ctx.close(ldos, want, 1e-6 / delta, "LDOS from the recursion")
    if depth >= s.n:
        full = np.array([-np.imag(np.sum(np.abs(s.vec[site]) ** 2 / (x + 1j * delta - s.eig))) / np.pi for x in en])
        ctx.close(ldos, full, 1e-6 / delta, "LDOS against the exact Green function")
        ctx.label("exact")
    ctx.check(np.all(ldos >= -1e-9 / delta), "negative LDOS")
    ctx.nontrivial(len(a) > 1)


@st.composite
def rescale_case(draw):
    case = common(draw)
    case["factors"] = draw(st.lists(st.sampled_from([1.0, 1.3, 2.0, 5.0]), min_size=2, max_size=3))
    case["psi"] = [[draw(g.real_val), draw(g.real_val)] for _ in range(12)]
    case["reuse"] = draw(st.booleans())
    case["site"] = draw(st.integers(0, 11))
    return case


@sub("C19", rescale_case, 120, shards=2, rule="two rescalings that differ")
def rescaled(case, ctx):
    """The state after the same physical time does not depend on the rescaling factor of the sample."""
    s = tbpm.System(case)
    psi = initial(case, s.n)
    psi = psi / np.linalg.norm(psi)
    out = []
    time = 2.0 * np.pi / max(s.radius, 0.05)
    nt = case["nt"] % 7 + 1
    with tbpm.workdir() as path:
        site = case["site"] % s.n
        sol = None
        for f in case["factors"]:
            s.sample.rescale_ham(max(s.radius, 0.05) * f)
            step = 2 * np.pi / s.sample.energy_range
            if sol is None or not case["reuse"]:
                sol = tbpm.solver(s.sample, tbpm.config({"nr_time_steps": nt}, LDOS={"site_indices": [site]}), path)
            out.append(sol.calc_psi_t(psi, np.array([nt]), dt_scale=time / nt / step)[0])
            # one site: the correlation function has no random part
            want = np.array([s.evolve(step * t)[site, site] for t in range(nt + 1)])
            ctx.close(sol.calc_corr_ldos(), want, 1e-8, f"correlation function of site {site} after rescaling by {f}")
    for o in out:
        ctx.close(o, s.evolve(time) @ psi, 1e-8, "state after a fixed time under different rescaling factors")
    ctx.nontrivial(len(set(case["factors"])) > 1)
