"""C18: Wilson-loop phases, branch tracking and crossing counts."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.checks.c03_diag import apply_edit, edit
from pbt.harness import sub


@st.composite
def wilson_case(draw):
    big = draw(st.integers(0, 11)) == 0
    c = draw(g.cell(min_orb=6 if big else 1, max_orb=9 if big else 4, min_hop=1, max_hop=24 if big else 8, max_r=1))
    n = len(c["orbs"])
    ka = draw(st.one_of(g.sized(st.floats(-1, 1).map(lambda x: round(x, 4)), 1, 7),
                        st.integers(3, 14).map(lambda m: [-0.5 + i / (m - 1) for i in range(m)])))
    kb = draw(g.sized(st.floats(-1, 1).map(lambda x: round(x, 4)), 1, 4))
    return {"cell": c, "occ": draw(st.integers(1, n)), "ka": ka, "kb": kb, "kc": draw(st.sampled_from([0.0, 0.5, 0.3, -0.7])),
            "edit": draw(st.one_of(st.none(), edit))}


def wilson(c, occ, ka, kb, kc, rng):
    """Eigenvalues of the loop in a random gauge; None if the loop is ill-defined."""
    vs = []
    for a in ka:
        e, v = np.linalg.eigh(ref.ham_of(c, [a, kb, kc], 1))
        if occ < len(e) and e[occ] - e[occ - 1] < 1e-3:
            return None
        u, _ = np.linalg.qr(rng.normal(size=(occ, occ)) + 1j * rng.normal(size=(occ, occ)))
        vs.append(v[:, :occ] @ u)
    d = np.eye(occ, dtype=complex)
    for x, y in zip(vs, vs[1:] + vs[:1]):
        d = d @ (x.conj().T @ y)
    lam = np.linalg.eigvals(d)
    return lam if np.min(np.abs(lam)) > (1e-7 if occ == 1 else 1e-4) else None


@sub("C18", wilson_case, 1000, shards=5, rule="well-defined loop of at least three points with a phase that is not zero")
def phases(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    n = len(c["orbs"])
    for bad in (0, n + 1, -1):
        ctx.raises(ValueError, lambda: tb.Z2(cell, num_occ=bad, echo_details=False), f"num_occ={bad}")
    occ = case["occ"]
    z2 = tb.Z2(cell, num_occ=occ, echo_details=False)
    ctx.equal(z2.num_occ, occ, "num_occ")
    rng = np.random.default_rng(5)
    ka, kb = np.array(case["ka"], dtype=float), np.array(case["kb"], dtype=float)
    for step in range(2):
        kb_out, ph = z2.calc_phases(ka.copy(), kb.copy(), case["kc"])
        ctx.close(kb_out, kb, 0.0, "kb array")
        ctx.equal(ph.shape, (len(kb), occ), "shape of the phases")
        ctx.check(np.all(np.abs(ph) <= np.pi + 1e-12), "phases outside [-pi, pi]")
        ctx.check(np.all(np.diff(ph, axis=1) >= 0), "phases of a k-point are not sorted")
        for i, b in enumerate(kb):
            lam = wilson(c, occ, ka, b, case["kc"], rng)
            if lam is None:
                ctx.label("ill-defined")
                continue
            want = lam / np.abs(lam)
            for m in range(1, occ + 1):          # the power sums fix the multiset
                ctx.close(np.sum(np.exp(1j * m * ph[i])), np.sum(want ** m), 3e-5,
                          f"power sum {m} of exp(i*phase) at kb={b}, phases {ph[i].tolist()}, expected {np.angle(lam).tolist()}")
            ctx.nontrivial(len(ka) >= 3 and np.max(np.abs(want - 1)) > 1e-3)
        if step == 0:
            if case["edit"] is None or case["edit"][0] == "rm":
                break
            apply_edit(cell, c, case["edit"])
            ctx.label("edited")


@st.composite
def default_case(draw):
    c = draw(g.cell(min_orb=1, max_orb=3, min_hop=1, max_hop=6, max_r=1))
    return {"cell": c, "occ": draw(st.integers(1, len(c["orbs"]))), "at": draw(st.lists(st.integers(0, 99), min_size=3, max_size=3))}


@sub("C18", default_case, 6, thorough=60, shards=3, rule="well-defined loop with a phase that is not zero")
def default(case, ctx):
    """Without arguments: 200 points along the first direction of the zone, 100 along half of the second, in the plane kc=0."""
    import tbplas as tb
    c, occ = case["cell"], case["occ"]
    z2 = tb.Z2(ref.build_cell(c), num_occ=occ, echo_details=False)
    kb, ph = z2.calc_phases()
    ctx.close(kb, np.linspace(0.0, 0.5, 100), 1e-12, "default kb array")
    ctx.equal(ph.shape, (100, occ), "shape of the phases")
    rng = np.random.default_rng(7)
    for i in case["at"]:
        lam = wilson(c, occ, np.linspace(-0.5, 0.5, 200), kb[i], 0.0, rng)
        if lam is None:
            continue
        want = lam / np.abs(lam)
        for m in range(1, occ + 1):
            ctx.close(np.sum(np.exp(1j * m * ph[i])), np.sum(want ** m), 3e-5, f"power sum {m} of exp(i*phase) at kb={kb[i]}")
        ctx.nontrivial(np.max(np.abs(want - 1)) > 1e-3)


# ------------------------------------------------------------------ branches and crossings
@st.composite
def branch_case(draw):
    occ = draw(st.integers(1, 4))
    nk = draw(g.weighted((1, st.integers(2, 12)), (3, st.integers(15, 60))))
    thr = draw(st.sampled_from([0.1, 0.2]))
    # positions of the branches at the start, at least 4 thresholds apart, common motion plus small wiggle
    gaps = draw(st.lists(st.floats(0, 1), min_size=occ, max_size=occ))
    steps = draw(st.lists(st.floats(-1, 1).map(lambda x: round(x, 3)), min_size=nk - 1, max_size=nk - 1))
    return {"occ": occ, "thr": thr, "gaps": gaps, "start": draw(st.floats(-3, 3).map(lambda x: round(x, 3))), "steps": steps,
            "drift": draw(st.sampled_from([0.0, 0.5, -0.5, 0.9, -0.9])), "ref": draw(st.floats(-2.9, 2.9).map(lambda x: round(x, 3))),
            "smooth": draw(st.booleans())}


@sub("C18", branch_case, 400, shards=2, rule="a branch leaves [-pi, pi] and comes back on the other side")
def branches(case, ctx):
    import tbplas as tb
    occ, thr = case["occ"], case["thr"]
    z2 = tb.Z2(ref.build_cell({"lat": np.eye(3).tolist(), "origin": [0.0] * 3, "orbs": [[[0.1 * i, 0.0, 0.0], 0.0, "X"] for i in range(4)],
                               "hops": [[[1, 0, 0], 0, 0, [1.0, 0.0]]]}), num_occ=occ, echo_details=False)
    room = 2 * np.pi - 4 * thr * occ
    w = np.array(case["gaps"]) + 0.1
    sep = 4 * thr + room * w / np.sum(w)                 # closes the circle
    pos = case["start"] + np.concatenate([[0.0], np.cumsum(sep[:-1])])
    move = np.array([0.0] + [0.45 * thr * (s + case["drift"]) for s in case["steps"]])
    common = np.cumsum(move)
    common = np.clip(common, -np.pi + 0.2, np.pi - 0.2)   # the tracker follows a single turn
    curves = pos[None, :] + common[:, None]
    wrapped = np.angle(np.exp(1j * curves))
    data = np.sort(wrapped, axis=1)
    before = data.copy()
    out = z2.reorder_phases(data, threshold=thr, smooth=case["smooth"])
    ctx.close(data, before, 0.0, "reorder_phases changes its argument")
    ctx.equal(out.shape, data.shape, "shape")
    for i in range(len(out)):
        a, b = np.sort(np.angle(np.exp(1j * (out[i] + 1e-7)))), np.sort(np.angle(np.exp(1j * (data[i] + 1e-7))))
        ctx.close(np.sort(np.cos(a)), np.sort(np.cos(b)), 1e-8, f"phases of k-point {i} are not the same set")
        ctx.close(np.sort(np.sin(a)), np.sort(np.sin(b)), 1e-8, f"phases of k-point {i} are not the same set")
    step = np.abs(np.diff(out, axis=0))
    ctx.check(step.size == 0 or np.max(step) < thr, f"reordered phases jump by {np.max(step, initial=0.0)}")
    ctx.nontrivial(np.any(np.abs(np.diff(wrapped, axis=0)) > np.pi))
    # the start of each branch is the start of the data
    ctx.close(out[0], data[0], 0.0, "first k-point")
    true = data[0][None, :] + (common - common[0])[:, None]
    ctx.close(out, true, 1e-7, "branches")
    n_ref = 0
    for j in range(occ):
        s = np.sign(true[:, j] - case["ref"])
        if np.min(np.abs(true[:, j] - case["ref"])) < 1e-6:
            return
        n_ref += int(np.sum(s[1:] != s[:-1]))
    ctx.equal(z2.count_crossing(out, case["ref"]), n_ref, "number of crossings")


@st.composite
def meet_case(draw):
    occ = draw(st.integers(2, 4))
    nk = draw(st.integers(3, 40))
    thr = draw(st.sampled_from([0.1, 0.2, 0.05]))
    unit = st.floats(-1, 1).map(lambda x: round(x, 4))
    kind = draw(st.sampled_from(["line", "line", "curve", "cluster"]))
    return {"kind": kind, "occ": occ, "nk": nk, "thr": thr, "pos": draw(st.lists(unit, min_size=occ, max_size=occ)),
            "slope": draw(st.lists(unit, min_size=occ, max_size=occ)), "bend": draw(st.lists(unit, min_size=occ, max_size=occ)),
            "fine": draw(st.sampled_from([1.0, 1.0, 0.03])), "at": draw(st.integers(1, nk - 1)), "up": draw(st.booleans()), "smooth": draw(st.booleans())}


@sub("C18", meet_case, 900, shards=2, rule="two branches meet, or a bundle of them crosses pi")
def meeting(case, ctx):
    """Branches that cross keep their slopes; a bundle that leaves [-pi, pi] at once stays complete."""
    import tbplas as tb
    occ, thr, nk = case["occ"], case["thr"], case["nk"]
    z2 = tb.Z2(ref.build_cell({"lat": np.eye(3).tolist(), "origin": [0.0] * 3, "orbs": [[[0.1 * i, 0.0, 0.0], 0.0, "X"] for i in range(4)],
                               "hops": [[[1, 0, 0], 0, 0, [1.0, 0.0]]]}), num_occ=occ, echo_details=False)
    t = np.arange(nk)[:, None]
    pos, slope = np.array(case["pos"]), np.array(case["slope"])
    if case["kind"] == "cluster":
        step = 0.4 * thr
        width = 0.9 * step
        off = np.sort((pos + 1) / 2) * width
        mid = np.pi + step / 2             # between rows at-1 and at the whole bundle passes pi
        curves = mid - width / 2 + off[None, :] + (t - case["at"]) * step
        curves = curves if case["up"] else -curves[:, ::-1]
        if np.max(np.abs(curves)) > 2.9 * np.pi:
            return
    else:
        step = thr * (0.9 if case["kind"] == "line" else 1 / (8 * occ))
        curves = (pos[None, :] * thr + slope[None, :] * step * t) * case["fine"]
        if case["kind"] == "curve":
            curves = pos[None, :] * thr / 4 + step * (np.sin(0.4 * t * slope[None, :]) + np.array(case["bend"])[None, :] * np.cos(0.3 * t)) 
        curves = curves[:, np.argsort(curves[0], kind="stable")]
        if np.max(np.abs(curves)) > np.pi - thr:
            return
        if np.max(np.abs(np.diff(curves, axis=0))) >= thr / (1 if case["kind"] == "line" else 8 * occ):
            return
    wrapped = np.angle(np.exp(1j * curves)) if case["kind"] == "cluster" else curves
    data = np.sort(wrapped, axis=1)
    meets = np.any(np.diff(np.argsort(curves, axis=1, kind="stable"), axis=0) != 0)
    ctx.label(case["kind"])
    out = z2.reorder_phases(data, threshold=thr, smooth=case["smooth"])
    ctx.equal(out.shape, data.shape, "shape")
    if case["kind"] == "cluster":
        jumps = np.abs(np.diff(wrapped, axis=0)) > np.pi
        if np.any(np.sum(jumps, axis=1) % occ):
            return                                      # one by one: not what the threshold is for
        ctx.nontrivial(np.any(jumps))
    else:
        ctx.nontrivial(meets and case["smooth"])
        if not case["smooth"]:
            ctx.close(out, data, 0.0, "phases without any jump are changed although smooth=False")
            return
        if case["kind"] == "line" and np.all(np.diff(curves[0]) > 1e-6) and np.all(np.diff(curves[1]) > 1e-6) and \
                all(np.all(np.diff(np.sort(r)) > 1e-6) for r in curves):
            ctx.close(out, curves, 1e-9, "straight branches that cross are not followed")
            ctx.label("straight")
            return
        if case["kind"] == "line":
            return
    for i in range(nk):
        for fn in (np.cos, np.sin):
            ctx.close(np.sort(fn(out[i])), np.sort(fn(data[i])), 1e-8, f"phases of k-point {i} are not the same set")
    ctx.check(np.max(np.abs(np.diff(out, axis=0))) < thr, f"reordered phases jump by {np.max(np.abs(np.diff(out, axis=0)))}")


@st.composite
def cross_case(draw):
    val = st.one_of(st.sampled_from([0.5, 0.0, 1.0, -1.0, 0.25]), st.floats(-3, 3).map(lambda x: round(x, 2)))
    occ = draw(st.integers(1, 3))
    row = st.lists(val, min_size=occ, max_size=occ)
    rows = draw(g.weighted((15, g.sized(row, 1, 8)), (1, g.sized(row, 60, 300))))
    return {"rows": rows, "ref": draw(st.sampled_from([0.5, 0.0, 0.25, 1.0]))}


@sub("C18", cross_case, 700, shards=2, rule="at least one crossing")
def crossing(case, ctx):
    import tbplas as tb
    data = np.array(case["rows"], dtype=float)
    want = 0
    for j in range(data.shape[1]):
        side = None
        for x in data[:, j]:
            s = int(np.sign(x - case["ref"]))
            if s != 0:
                want += side is not None and s != side
                side = s
    ctx.nontrivial(want > 0)
    ctx.equal(tb.Z2.count_crossing(data, case["ref"]), want, "number of crossings")


# ------------------------------------------------------------------ Kane-Mele
@st.composite
def km_case(draw):
    so = draw(st.floats(0.05, 0.3).map(lambda x: round(x, 3)))
    ratio = draw(st.one_of(st.floats(0.0, 0.6), st.floats(1.6, 3.0)).map(lambda x: round(x, 3)))
    return {"so": so, "ratio": ratio, "sign": draw(st.sampled_from([1, -1]))}


def kane_mele(so, lv):
    """Spinful honeycomb model, basis A up, B up, A down, B down."""
    lat = [[2.46, 0.0, 0.0], [1.23, 2.46 * np.sqrt(3) / 2, 0.0], [0.0, 0.0, 10.0]]
    pos = [[0.0, 0.0, 0.0], [1 / 3, 1 / 3, 0.0]]
    c = {"lat": lat, "origin": [0.0] * 3, "orbs": [], "hops": []}
    for s in (1, -1):
        for p, v in zip(pos, (lv, -lv)):
            c["orbs"].append([p, v, "A"])
    for k, s in enumerate((1, -1)):
        o = 2 * k
        for rn in ([0, 0, 0], [-1, 0, 0], [0, -1, 0]):
            c["hops"].append([rn, o, o + 1, [-1.0, 0.0]])
        for sub_i, nu in ((0, 1), (1, -1)):
            for rn, sign in (([1, 0, 0], 1), ([0, 1, 0], -1), ([1, -1, 0], -1)):
                c["hops"].append([rn, o + sub_i, o + sub_i, [0.0, s * nu * sign * so]])
    return c


@sub("C18", km_case, 24, thorough=300, shards=4, rule="always")
def parity(case, ctx):
    import tbplas as tb
    lv = case["sign"] * case["ratio"] * 3 * np.sqrt(3) * case["so"]
    c = kane_mele(case["so"], lv)
    gap = min(np.diff(np.linalg.eigvalsh(ref.ham_of(c, k, 1)))[1] for k in ([1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0]))
    if gap < 0.05:
        return
    ctx.nontrivial()
    z2 = tb.Z2(ref.build_cell(c), num_occ=2, echo_details=False)
    kb, ph = z2.calc_phases(np.linspace(-0.5, 0.5, 31)[:-1], np.linspace(0.0, 0.5, 41), 0.0)
    # follow the middle of the largest gap (Soluyanov & Vanderbilt) and count the phases it jumps over
    def middle(row):
        x = np.sort(np.mod(row, 2 * np.pi))
        d = np.diff(np.concatenate([x, [x[0] + 2 * np.pi]]))
        i = int(np.argmax(d))
        return (x[i] + d[i] / 2) % (2 * np.pi)
    mids = [middle(r) for r in ph]
    count = 0
    for i in range(len(mids) - 1):
        lo, hi = sorted((mids[i], mids[i + 1]))
        x = np.mod(ph[i + 1], 2 * np.pi)
        count += int(np.sum((x > lo) & (x < hi)))
    ctx.equal(count % 2, int(case["ratio"] < 1), f"Z2 invariant for lambda_v/critical={case['ratio']}")
    ctx.label("topological" if case["ratio"] < 1 else "trivial")
