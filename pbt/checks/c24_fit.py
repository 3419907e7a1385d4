"""C24: parameter fitting against the weighted residual and linear least squares."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

weight = st.one_of(st.integers(1, 16).map(lambda n: n / 4), st.integers(-16, -1).map(lambda n: n / 4), st.just(0.0))


@st.composite
def linear_case(draw):
    nb, nk, npar = draw(g.weighted((9, st.integers(1, 5)), (1, st.integers(6, 24)))), draw(g.weighted((9, st.integers(2, 8)), (1, st.integers(9, 250)))), draw(g.weighted((9, st.integers(1, 4)), (1, st.integers(5, 9))))
    seed = draw(st.integers(0, 10**6))
    w = draw(st.one_of(st.none(), st.lists(weight, min_size=nb, max_size=nb).filter(lambda x: max(map(abs, x)) > 0)))
    if w is not None:
        unit = draw(g.weighted((6, st.just(1.0)), (1, st.sampled_from([1e-6, 1e-3, 1e3, 1e6]))))
        w = [x * unit for x in w]
    return {"nb": nb, "nk": nk, "np": npar, "seed": seed, "w": w, "p0": draw(st.lists(g.real_val, min_size=npar, max_size=npar)),
            "noise": draw(st.sampled_from([0.0, 0.1, 1.0])), "mode": draw(st.sampled_from(["plain", "plain", "full", "tol", "maxfev"])),
            "bad": draw(st.sampled_from([0, 1, -1]))}


@sub("C24", linear_case, 2000, shards=4, rule="weights differ between bands and the data are not reproduced exactly by the model")
def linear(case, ctx):
    import tbplas as tb
    rng = np.random.default_rng(case["seed"])
    nb, nk, n = case["nb"], case["nk"], case["np"]
    a = rng.uniform(-1, 1, (nk, nb, n))
    b = rng.uniform(-2, 2, (nk, nb))
    true = rng.uniform(-3, 3, n)
    data = a @ true + b + case["noise"] * rng.uniform(-1, 1, (nk, nb))
    kpts = rng.uniform(-1, 1, (nk, 3))
    seen, handed = [], []

    class Fit(tb.ParamFit):
        def calc_bands_ref(self):
            seen.append(("ref", np.array(self._k_points)))
            return data.copy()

        def calc_bands_fit(self, params):
            seen.append(("fit", np.array(params)))
            out = a @ params + b
            handed.append((out, out.copy()))
            return out
    w = None if case["w"] is None else np.array(case["w"])
    w_in = None if w is None else w.copy()
    fit = Fit(kpts, w_in) if w is not None else Fit(kpts)
    ctx.equal(seen[0][0], "ref", "the reference is evaluated first")
    ctx.close(seen[0][1], kpts, 0.0, "k-points the reference is evaluated for")
    if w is not None:
        ctx.close(w_in, w, 0.0, "weights of the caller are left alone")
    wn = np.ones(nb) if w is None else np.abs(w) / np.abs(w).sum()
    if w is not None and len(set(wn.tolist())) > 1 and case["noise"]:
        ctx.nontrivial()
    p0 = np.array(case["p0"])
    for p in (p0, true, p0 * 2 + 1):
        want = (data - a @ p - b) * wn[None, :]
        got = np.asarray(fit.estimate_error(p.copy()))
        ctx.equal(got.shape, (nk * nb,), "shape of the residual")
        ctx.close(got, want.flatten(), 1e-12 * (1 + np.max(np.abs(want))), "weighted residual")
    ctx.check(all(np.array_equal(x, y) for x, y in handed), "bands returned by the user's model were modified")
    ctx.check(all(len(x) == n for kind, x in seen if kind == "fit"), "the model is evaluated with all parameters")
    # weighted linear least squares has a unique closed-form minimum if the design has full rank
    design = (a * wn[None, :, None]).reshape(-1, n)
    s = np.linalg.svd(design, compute_uv=False)
    want, *_ = np.linalg.lstsq(design, ((data - b) * wn[None, :]).flatten(), rcond=None)
    resid = lambda p: np.linalg.norm(((data - a @ p - b) * wn[None, :]))
    start = p0.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if nk * nb < n:
            ctx.label("underdetermined")
            return
        if case["mode"] == "maxfev":
            if s[-1] > 0.05 * s[0] and s[-1] > 1e-3 and np.linalg.norm(p0 - want) > 0.5:
                ctx.label("stopped early")
                ctx.raises(RuntimeError, lambda: fit.fit(p0, maxfev=1), "fit stopped after one evaluation")
            return
        kw = {"plain": {}, "full": {"full_output": True}, "tol": {"ftol": 1e-12, "xtol": 1e-12}}[case["mode"]]
        got = np.asarray(fit.fit(p0, **kw))
    ctx.equal(got.shape, (n,), "shape of the fitted parameters")
    ctx.close(p0, start, 0.0, "initial parameters of the caller are left alone")
    ctx.check(resid(got) <= resid(p0) * (1 + 1e-9) + 1e-12, f"fit is worse than the start: {resid(got)} > {resid(p0)}")
    ctx.check(resid(got) <= resid(want) * (1 + 1e-6) + 1e-7, f"fit misses the minimum: {resid(got)} > {resid(want)}")
    if s[-1] > 0.05 * s[0] and s[-1] > 1e-3:
        ctx.label("unique minimum")
        ctx.close(got, want, 1e-5 * (1 + np.max(np.abs(want))), "fitted parameters")
    if case["bad"] and nb + case["bad"] > 0:
        ctx.raises(ValueError, lambda: Fit(kpts, np.ones(nb + case["bad"])), "weights of wrong length")


@st.composite
def band_case(draw):
    c = draw(g.cell(min_orb=1, max_orb=3, min_hop=1, max_hop=4, max_r=1, complex_hop=False))
    npar = len(c["orbs"]) + len(c["hops"])
    return {"cell": c, "ks": draw(g.sized(g.kpoint(-1, 1), 6, 12)), "shift": draw(st.lists(st.integers(-4, 4).map(lambda n: n / 100), min_size=npar, max_size=npar)),
            "w": draw(st.one_of(st.none(), st.lists(st.integers(1, 8).map(float), min_size=len(c["orbs"]), max_size=len(c["orbs"]))))}


@sub("C24", band_case, 500, shards=4, rule="the start differs from the generating parameters")
def bands(case, ctx):
    import tbplas as tb
    c = case["cell"]
    ks = np.array(case["ks"])
    no = len(c["orbs"])

    def model(p):
        cell = tb.PrimitiveCell(np.array(c["lat"]), unit=tb.ANG)
        for o, e in zip(c["orbs"], p[:no]):
            cell.add_orbital(tuple(o[0]), energy=float(e))
        for h, e in zip(c["hops"], p[no:]):
            cell.add_hopping(tuple(h[0]), h[1], h[2], float(e))
        return np.sort(cell.calc_bands(ks, echo_details=False)[1], axis=1)
    true = np.array([o[1] for o in c["orbs"]] + [ref.cplx(h[3]).real for h in c["hops"]])

    class Fit(tb.ParamFit):
        def calc_bands_ref(self):
            return np.array([np.linalg.eigvalsh(ref.ham([o[0] for o in c["orbs"]], true[:no], [(h[0], h[1], h[2], v) for h, v in zip(c["hops"], true[no:])], k))
                             for k in self._k_points])

        def calc_bands_fit(self, params):
            return model(params)
    w = case["w"]
    fit = Fit(ks, None if w is None else np.array(w))
    ctx.close(fit.estimate_error(true), np.zeros(len(ks) * no), 1e-8, "residual of the generating parameters")
    p0 = true + np.array(case["shift"])
    if np.any(p0 != true):
        ctx.nontrivial()
    r0 = np.linalg.norm(fit.estimate_error(p0))
    if len(ks) * no < len(p0):
        return
    jac = np.array([(fit.estimate_error(true + 1e-5 * d) - fit.estimate_error(true - 1e-5 * d)) / 2e-5 for d in np.eye(len(true))]).T
    s = np.linalg.svd(jac, compute_uv=False)
    good = s[-1] > 0.05 * s[0]
    try:
        p = fit.fit(p0)
    except RuntimeError:
        ctx.check(not good, "fit of a well-conditioned problem fails")
        return
    r = np.linalg.norm(fit.estimate_error(p))
    ctx.check(r <= r0 * (1 + 1e-9) + 1e-12, f"fit is worse than the start: {r} > {r0}")
    gaps = np.min(np.diff(fit.calc_bands_ref(), axis=1)) if no > 1 else 1.0
    if good and gaps > 0.3:
        ctx.label("well conditioned")
        ctx.close(p, true, 1e-4, "recovered parameters")
