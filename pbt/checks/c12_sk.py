"""C12: Slater-Koster integrals against two-centre integrals in the bond frame."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt.harness import sub

LABELS = ["s", "px", "py", "pz", "dxy", "dyz", "dzx", "dx2-y2", "dz2"]
S3 = np.sqrt(3.0)


def vec(label):
    return np.eye(3)["xyz".index(label[1])]


def tensor(label, f=np.eye(3)):
    """d orbital as a traceless symmetric tensor of unit norm, axes in the rows of f."""
    x, y, z = f
    sym = lambda a, b: (np.outer(a, b) + np.outer(b, a)) / np.sqrt(2)
    if label == "dxy":
        return sym(x, y)
    if label == "dyz":
        return sym(y, z)
    if label == "dzx":
        return sym(z, x)
    if label == "dx2-y2":
        return (np.outer(x, x) - np.outer(y, y)) / np.sqrt(2)
    return (2 * np.outer(z, z) - np.outer(x, x) - np.outer(y, y)) / np.sqrt(6)


def components(label, f):
    """Expansion of the orbital in orbitals quantised along the bond: {m-channel: coefficient}."""
    if label == "s":
        return {"0": 1.0}
    if label[0] == "p":
        e = vec(label)
        return {"0": e @ f[2], "1x": e @ f[0], "1y": e @ f[1]}
    q = tensor(label)
    return {"0": np.sum(q * tensor("dz2", f)), "1x": np.sum(q * tensor("dzx", f)), "1y": np.sum(q * tensor("dyz", f)),
            "2x": np.sum(q * tensor("dx2-y2", f)), "2y": np.sum(q * tensor("dxy", f))}


def frame(r, spin):
    n = np.array(r) / np.linalg.norm(r)
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    u2 = np.cos(spin) * u + np.sin(spin) * v
    return np.array([u2, np.cross(n, u2), n])


def reference(r, li, lj, v, spin=0.3):
    ang = {"s": 0, "p": 1, "d": 2}
    a, b = li[0], lj[0]
    sign = 1.0
    if ang[a] > ang[b]:
        sign = (-1.0) ** (ang[a] + ang[b])
        pair = b + a
    else:
        pair = a + b
    f = frame(r, spin)
    ci, cj = components(li, f), components(lj, f)
    out = 0.0
    for m in ci:
        if m in cj:
            out += ci[m] * cj[m] * v.get("v_" + pair + "spd"[int(m[0])].replace("d", "d"), 0.0)
    return sign * out


NAMES = ["v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"]


@st.composite
def sk_case(draw):
    comp = st.one_of(st.integers(-3, 3).map(float), st.floats(-5, 5).map(lambda x: round(x, 3)))
    r = draw(st.lists(comp, min_size=3, max_size=3))
    if np.linalg.norm(r) < 0.1:
        r = [r[0], r[1], r[2] + 1.0]
    return {"r": r, "scale": draw(st.sampled_from([1.0, 0.1, 1e-3, 7.5, 1e-9, 1e6])), "v": {n: draw(st.one_of(g.real_val, g.real_val, st.just(0.0))) for n in NAMES}, "spin": draw(st.floats(0, 3).map(lambda x: round(x, 3)))}


@sub("C12", sk_case, quick=900, shards=4, rule="bond along no axis and at least six different integrals")
def two_centre(case, ctx):
    """All 81 orbital pairs of a bond."""
    import tbplas as tb
    sk = tb.SK()
    r = np.array(case["r"]) * case["scale"]
    keep = r.copy()
    v = case["v"]
    got = {}
    for li in LABELS:
        for lj in LABELS:
            t = got[li, lj] = sk.eval(r=r, label_i=li, label_j=lj, **v)
            want = reference(r, li, lj, v, case["spin"])
            ctx.check(abs(t - want) < 1e-9, f"<{li}|H|{lj}> along {r.tolist()} is {t}, expected {want}")
    for li in LABELS:
        for lj in LABELS:
            t = sk.eval(r=-r, label_i=lj, label_j=li, **v)
            ctx.check(abs(t - got[li, lj]) < 1e-9, f"<{li}|H|{lj}> changes when the bond is reversed and the orbitals exchanged")
    # the channel methods agree with the common interface
    ctx.close(sk.ss(v_sss=v["v_sss"]), got["s", "s"], 0, "ss")
    ps, ds = LABELS[1:4], LABELS[4:]
    for p in ps:
        ctx.close(sk.sp(r, label_p=p, v_sps=v["v_sps"]), got["s", p], 1e-12, "sp")
        ctx.close(sk.ps(r, label_p=p, v_sps=v["v_sps"]), got[p, "s"], 1e-12, "ps")
        for q in ps:
            ctx.close(sk.pp(r, label_i=p, label_j=q, v_pps=v["v_pps"], v_ppp=v["v_ppp"]), got[p, q], 1e-12, "pp")
        for d in ds:
            ctx.close(sk.pd(r, label_p=p, label_d=d, v_pds=v["v_pds"], v_pdp=v["v_pdp"]), got[p, d], 1e-12, "pd")
            ctx.close(sk.dp(r, label_p=p, label_d=d, v_pds=v["v_pds"], v_pdp=v["v_pdp"]), got[d, p], 1e-12, "dp")
    for d in ds:
        ctx.close(sk.sd(r, label_d=d, v_sds=v["v_sds"]), got["s", d], 1e-12, "sd")
        ctx.close(sk.ds(r, label_d=d, v_sds=v["v_sds"]), got[d, "s"], 1e-12, "ds")
        for e in ds:
            ctx.close(sk.dd(r, label_i=d, label_j=e, v_dds=v["v_dds"], v_ddp=v["v_ddp"], v_ddd=v["v_ddd"]), got[d, e], 1e-12, "dd")
    ctx.check(np.array_equal(r, keep), "the displacement vector was modified")
    ctx.nontrivial(np.count_nonzero(r) >= 2 and len(set(v.values())) >= 6)


@st.composite
def complex_case(draw):
    case = draw(sk_case())
    case["v"] = {n: draw(st.one_of(g.nonzero_complex(), g.nonzero_complex(), st.just([0.0, 0.0]))) for n in NAMES}
    case["int"] = draw(st.booleans())
    return case


@sub("C12", complex_case, quick=400, shards=2, rule="bond along no axis and at least six different integrals")
def complex_integrals(case, ctx):
    """Complex integrals: linear in the integrals, and the reversed pair is the conjugate of the listed one."""
    import tbplas as tb
    sk = tb.SK()
    r = np.array(case["r"])
    if case["int"]:
        r = np.rint(r).astype(int)
        if not r.any():
            r[0] = 1
    v = {n: complex(*x) for n, x in case["v"].items()}
    order = {o: i for i, o in enumerate(LABELS)}
    for li in LABELS:
        for lj in LABELS:
            t = sk.eval(r=r, label_i=li, label_j=lj, **v)
            if order[li] > order[lj] and not li[0] == lj[0] == "p":
                want = np.conj(reference(-r, lj, li, v, case["spin"]))
            else:
                want = reference(r, li, lj, v, case["spin"])
            ctx.check(abs(t - want) < 1e-9, f"<{li}|H|{lj}> along {r.tolist()} with complex integrals is {t}, expected {want}")
    ctx.nontrivial(np.count_nonzero(r) >= 2 and len(set(v.values())) >= 6)


@st.composite
def bad_case(draw):
    return {"i": draw(st.sampled_from(LABELS + ["f", "p", "dz", "d", "", "dxx"])), "j": draw(st.sampled_from(["f", "pw", "dz", "d", "", "dyx", "S"])),
            "flip": draw(st.booleans()), "tiny": draw(st.sampled_from([0.0, 1e-16, 1e-20]))}


@sub("C12", bad_case, quick=150, shards=1, rule="one legal and one illegal label")
def rejected(case, ctx):
    import tbplas as tb
    sk = tb.SK()
    i, j = (case["j"], case["i"]) if case["flip"] else (case["i"], case["j"])
    ctx.raises(ValueError, lambda: sk.eval(r=np.array([0.3, 0.2, 0.1]), label_i=i, label_j=j, v_dds=1.0, v_sss=1.0, v_pps=1.0), f"labels {i}, {j}")
    ctx.raises(ValueError, lambda: sk.eval(r=np.array([case["tiny"], 0, 0]), label_i="px", label_j="px", v_pps=1.0), "vanishing bond")
    ctx.nontrivial(case["i"] in LABELS)


@st.composite
def rot_case(draw):
    ang = st.floats(-3, 3).map(lambda x: round(x, 3))
    case = draw(sk_case())
    case["euler"] = draw(st.lists(ang, min_size=3, max_size=3))
    return case


@sub("C12", rot_case, quick=700, shards=2, rule="rotation that is not a multiple of 90 degrees")
def rotation(case, ctx):
    """Rotating the bond and both sets of orbitals together changes nothing."""
    import tbplas as tb
    sk = tb.SK()
    a, b, c = case["euler"]
    rz = lambda t: np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    rx = lambda t: np.array([[1, 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])
    rot = rz(a) @ rx(b) @ rz(c)
    d = np.zeros((9, 9))
    d[0, 0] = 1
    d[1:4, 1:4] = rot
    for j, lj in enumerate(LABELS[4:]):
        q = rot @ tensor(lj) @ rot.T
        for i, li in enumerate(LABELS[4:]):
            d[4 + i, 4 + j] = np.sum(q * tensor(li))
    r = np.array(case["r"])
    mat = lambda x: np.array([[sk.eval(r=x, label_i=i, label_j=j, **case["v"]) for j in LABELS] for i in LABELS])
    ctx.close(mat(rot @ r), d @ mat(r) @ d.T, 1e-9, "hopping matrix of the rotated bond")
    ctx.nontrivial(any(abs(x) > 0.05 for x in case["euler"]))
