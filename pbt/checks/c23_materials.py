"""C23: bundled materials against published parameters completed by symmetry, and symmetry relations of H(k)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub
from pbt.checks.c12_sk import reference as sk_reference
from pbt.checks.c12_sk import tensor, vec
from pbt.checks.c13_soc import LABELS, LS

S3 = np.sqrt(3.0)
TMDC = {"MoS2": (0.316, 0.317), "MoSe2": (0.329, 0.333), "WS2": (0.315, 0.314), "WSe2": (0.328, 0.334)}
# Phys. Rev. B 92, 205108, table of on-site energies and independent hopping integrals
TMDC_PAR = {
    "MoS2": (1.0688, 1.0688, -0.7755, -1.2902, -1.2902, -0.1380, 0.0874, 0.0874, -2.8949, -1.9065, -1.9065,
             -0.2069, 0.0323, -0.1739, 0.8651, -0.1872, -0.2979, 0.2747, -0.5581, -0.1916, 0.9122, 0.0059, -0.0679, 0.4096, 0.0075,
             -0.2562, -0.0995, -0.0705, -0.1145, -0.2487, 0.1063, -0.0385, -0.7883, -1.3790, 2.1584, -0.8836, -0.9402, 1.4114,
             -0.9535, 0.6517, -0.0686, -0.1498, -0.2205, -0.2451),
    "MoSe2": (0.7819, 0.7819, -0.6567, -1.1726, -1.1726, -0.2297, 0.0149, 0.0149, -2.9015, -1.7806, -1.7806,
              -0.1460, 0.0177, -0.2112, 0.9638, -0.1724, -0.2636, 0.2505, -0.4734, -0.2166, 0.9911, -0.0036, -0.0735, 0.3520, 0.0047,
              -0.1912, -0.0755, -0.0680, -0.0960, -0.2012, 0.1216, -0.0394, -0.6946, -1.3258, 1.9415, -0.7720, -0.8738, 1.2677,
              -0.8578, 0.5545, -0.0691, -0.1553, -0.2227, -0.2154),
    "WS2": (1.3754, 1.3754, -1.1278, -1.5534, -1.5534, -0.0393, 0.1984, 0.1984, -3.3706, -2.3461, -2.3461,
            -0.2011, 0.0263, -0.1749, 0.8726, -0.2187, -0.3716, 0.3537, -0.6892, -0.2112, 0.9673, 0.0143, -0.0818, 0.4896, -0.0315,
            -0.3106, -0.1105, -0.0989, -0.1467, -0.3030, 0.1645, -0.1018, -0.8855, -1.4376, 2.3121, -1.0130, -0.9878, 1.5629,
            -0.9491, 0.6718, -0.0659, -0.1533, -0.2618, -0.2736),
    "WSe2": (1.0349, 1.0349, -0.9573, -1.3937, -1.3937, -0.1667, 0.0984, 0.0984, -3.3642, -2.1820, -2.1820,
             -0.1395, 0.0129, -0.2171, 0.9763, -0.1985, -0.3330, 0.3190, -0.5837, -0.2399, 1.0470, 0.0029, -0.0912, 0.4233, -0.0377,
             -0.2321, -0.0797, -0.0920, -0.1250, -0.2456, 0.1857, -0.1027, -0.7744, -1.4014, 2.0858, -0.8998, -0.9044, 1.4030,
             -0.8548, 0.5711, -0.0676, -0.1608, -0.2618, -0.2424)}
D_ORB = ["dz2", "dxy", "dx2-y2", "dzx", "dyz"]
P_ORB = ["px", "py", "pz"]


def rot(deg):
    c, s = np.cos(np.radians(deg)), np.sin(np.radians(deg))
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


MX, MY, MZ, INV = np.diag([-1.0, 1, 1]), np.diag([1.0, -1, 1]), np.diag([1.0, 1, -1]), -np.eye(3)


def rep(labels, op):
    """Representation of an orthogonal operation on orbitals of one angular momentum."""
    n = len(labels)
    out = np.zeros((n, n))
    for a, la in enumerate(labels):
        for b, lb in enumerate(labels):
            if la[0] != lb[0]:
                continue
            if la == "s":
                out[a, b] = 1.0
            elif la[0] == "p":
                out[a, b] = vec(la) @ op @ vec(lb)
            else:
                out[a, b] = np.sum(tensor(la) * (op @ tensor(lb) @ op.T))
    return out


def spin_rep(axis_angle):
    """Spin-1/2 matrix of a proper rotation given by axis and angle."""
    axis, ang = axis_angle
    s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
    m = sum(a * b for a, b in zip(axis, s))
    return np.cos(ang / 2) * np.eye(2) - 1j * np.sin(ang / 2) * m


# ---- reference models: (lattice, positions, energies, [(i, j, dr, value)] each with its conjugate) ----

class Model:
    def __init__(self, lat, pos, eng):
        self.lat, self.pos, self.eng = np.array(lat, float), np.array(pos, float), list(eng)
        self.bonds = {}

    def add(self, i, j, dr, val):
        key = (i, j) + tuple(np.round(dr, 5) + 0.0)
        con = (j, i) + tuple(np.round(-np.asarray(dr), 5) + 0.0)
        dr = np.asarray(dr, dtype=float)
        self.bonds[key] = (dr, complex(val))
        self.bonds[con] = (-dr, complex(val).conjugate())

    def add_all(self, i, j, cond):
        """All bonds i -> j (in-plane images) with a value given by cond(dr), None for no bond."""
        for a in range(-4, 5):
            for b in range(-4, 5):
                dr = self.pos[j] - self.pos[i] + a * self.lat[0] + b * self.lat[1]
                if np.linalg.norm(dr) < 1e-4:
                    continue
                v = cond(dr)
                if v is not None:
                    self.add(i, j, dr, v)

    def ham(self, k):
        h = np.diag(np.array(self.eng, dtype=complex))
        for (i, j, *_), (dr, v) in self.bonds.items():
            h[i, j] += v * np.exp(1j * (k @ dr))
        return h


def ref_graphene(c, t, rect):
    a = 0.246
    cc = a / S3
    if rect:
        m = Model([[a, 0, 0], [0, 3 * cc, 0], [0, 0, c]], [[0, 0, 0], [0, 2 * cc, 0], [a / 2, cc / 2, 0], [a / 2, 1.5 * cc, 0]], [0] * 4)
    else:
        m = Model([[a, 0, 0], [a / 2, a * S3 / 2, 0], [0, 0, c]], [[0, 0, 0], [a / 2, cc / 2, 0]], [0] * 2)
    for i in range(len(m.pos)):
        for j in range(i + 1, len(m.pos)):
            m.add_all(i, j, lambda dr: t if abs(np.linalg.norm(dr) - cc) < 1e-3 else None)
    return m


def ref_graphene_sp(c):
    a = 0.246
    lab = ["s"] + P_ORB
    m = Model([[a, 0, 0], [a / 2, a * S3 / 2, 0], [0, 0, c]], [[0, 0, 0]] * 4 + [[a / 2, a / S3 / 2, 0]] * 4, [-8.370, 0, 0, 0] * 2)
    par = {1: dict(v_sss=-5.729, v_sps=5.618, v_pps=6.050, v_ppp=-3.070), 2: dict(v_sss=0.102, v_sps=-0.171, v_pps=-0.377, v_ppp=0.070)}

    def cond(i, j):
        def f(dr):
            d = np.linalg.norm(dr)
            shell = 1 if abs(d - a / S3) < 1e-3 else 2 if abs(d - a) < 1e-3 else 0
            return sk_reference(dr, lab[i % 4], lab[j % 4], par[shell]) if shell else None
        return f
    for i in range(8):
        for j in range(i, 8):
            m.add_all(i, j, cond(i, j))
    return m


def ref_phosphorene(c):
    t = [None, -1.486, 3.729, -0.252, -0.071, 0.019, 0.186, -0.063, 0.101, -0.042, 0.073]
    nn, nnb, th, thz, nz = 0.22156, 0.07159, np.radians(48.395), np.radians(108.657), 0.22378
    a, p = 2 * nn * np.sin(th), nnb
    b = 2 * nnb + 2 * nn * np.cos(th)
    q = nz * np.cos(thz - np.pi / 2)
    m = Model(np.diag([a, b, c]), [[0, 0, 0], [0, p, q], [a / 2, b / 2, q], [a / 2, b / 2 + p, 0]], [0] * 4)
    z = b / 2 - p        # y component of the t1 bond
    # bond classes by (|dx|, |dy|, crosses the layer)
    classes = [((a / 2, z, 0), t[1]), ((0, p, 1), t[2]), ((a, 0, 0), t[3]), ((a / 2, b / 2 + p, 0), t[4]), ((a / 2, b / 2, 1), t[5]),
               ((0, b - p, 1), t[6]), ((0, b, 0), t[7]), ((1.5 * a, z, 0), t[8]), ((a, b - p, 1), t[9]), ((a, b, 0), t[10])]

    def cond(dr):
        key = (abs(dr[0]), abs(dr[1]), 1 if abs(dr[2]) > 0.05 else 0)
        for k, v in classes:
            if abs(key[0] - k[0]) < 1e-3 and abs(key[1] - k[1]) < 1e-3 and key[2] == k[2]:
                return v
        return None
    for i in range(4):
        for j in range(i, 4):
            m.add_all(i, j, cond)
    return m


SB_T = [None, -2.09, 0.47, 0.18, -0.50, -0.11, 0.21, 0.08, -0.07, 0.07, 0.07, -0.06, -0.06, -0.03, -0.03, -0.04]
# one representative per integral: (orbital, orbital, cell); the rest follows from D3d
SB_REP = {1: (1, 4, 0, 0), 2: (0, 3, 0, 0), 3: (1, 1, 1, 0), 4: (1, 2, -1, 0), 5: (1, 4, 1, 0), 6: (1, 2, 1, 0), 7: (0, 4, 0, 0), 8: (0, 4, -1, 1),
          9: (0, 3, 0, 1), 10: (1, 5, -2, 0), 11: (0, 0, 1, 0), 12: (0, 4, 1, -1), 13: (0, 3, 1, 0), 14: (1, 2, 2, 0), 15: (1, 2, -2, 0)}


def ref_antimonene(c, soc):
    a, z = 0.411975806, 0.16455347
    b = a / S3
    lat = np.array([[1.5 * b, -a / 2, 0], [1.5 * b, a / 2, 0], [0, 0, c]])
    s1, s2 = [-b / 2, 0, -z / 2], [b / 2, 0, z / 2]
    m = Model(lat, [s1] * 3 + [s2] * 3, [0] * 6)
    # bond directions of p1, p2, p3: cells (0,-1), (0,0), (-1,0); counter-clockwise rotation by 120 degrees: p1 -> p2 -> p3
    ops = []
    for n in range(3):
        for mir in (0, 1):
            for inv in (0, 1):
                def perm(o, n=n, mir=mir, inv=inv):
                    site, p = divmod(o, 3)
                    p = (p + n) % 3
                    if mir:
                        p = 2 - p
                    return 3 * (site ^ inv) + p
                op = (INV if inv else np.eye(3)) @ (MY if mir else np.eye(3)) @ rot(120 * n)
                ops.append((perm, op))
    for n, (i, j, ra, rb) in SB_REP.items():
        dr = m.pos[j] - m.pos[i] + ra * lat[0] + rb * lat[1]
        for perm, op in ops:
            m.add(perm(i), perm(j), op @ dr, SB_T[n])
    if soc is None:
        return m
    full = Model(lat, [s1] * 6 + [s2] * 6, [0] * 12)
    for (i, j, *dr), v in m.bonds.items():
        for s in (0, 3):
            full.bonds[(6 * (i // 3) + i % 3 + s, 6 * (j // 3) + j % 3 + s, *dr)] = v
    lam = 0.5 * soc
    x, y, u, w = 0.5854, 0.7020, 0.4053, 0.8107
    up = np.array([[0, 1j * x, -1j * x], [-1j * x, 0, 1j * x], [1j * x, -1j * x, 0]])
    ud = np.array([[0, y - 1j * u, -1j * w], [-y + 1j * u, 0, -y - 1j * u], [1j * w, y + 1j * u, 0]])
    mat = lam * np.block([[up, ud], [ud.conj().T, -up]])
    for site in (0, 6):
        for i in range(6):
            for j in range(i + 1, 6):
                full.add(site + i, site + j, np.zeros(3), mat[i, j])
    return full


def ref_tmdc(name):
    a, d = TMDC[name]
    lat = np.array([[a / 2, a * S3 / 2, 0], [-a / 2, a * S3 / 2, 0], [0, 0, 1.0]])
    par = TMDC_PAR[name]
    eps, h = par[:11], par[11:]
    pos = [[0, a / S3, d / 2]] * 5 + [[0, 0, d]] * 3 + [[0, 0, 0]] * 3
    m = Model(lat, pos, [0] * 11)
    u = np.zeros((11, 11))          # symmetrised orbital (row) in the basis of the cell
    w = 1 / np.sqrt(2)
    for row, cols in enumerate([{3: 1}, {4: 1}, {7: w, 10: w}, {5: w, 8: -w}, {6: w, 9: -w}, {0: 1}, {1: 1}, {2: 1}, {7: w, 10: -w}, {5: w, 8: w}, {6: w, 9: w}]):
        for col, v in cols.items():
            u[row, col] = v
    t1 = np.zeros((11, 11))         # bond between equal sublattices along -x
    # order of the published table: eleven diagonal integrals are given first
    order1 = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (10, 10), (2, 4), (5, 7), (8, 10), (0, 1), (2, 3), (3, 4),
              (5, 6), (6, 7), (8, 9), (9, 10)]
    for (i, j), v in zip(order1, h):
        t1[i, j] = v
        if i != j:
            t1[j, i] = v if (i, j) in ((2, 4), (5, 7), (8, 10)) else -v
    order5 = [(3, 0), (2, 1), (4, 1), (8, 5), (10, 5), (9, 6), (8, 7), (10, 7)]
    order6 = [(8, 5), (10, 5), (8, 7), (10, 7)]
    t5, t6 = np.zeros((11, 11)), np.zeros((11, 11))     # metal row, chalcogen column
    for (i, j), v in zip(order5, h[21:29]):
        t5[j, i] = v
    for (i, j), v in zip(order6, h[29:]):
        t6[j, i] = v
    blocks = []
    for n in range(3):
        op = rot(120 * n)
        dmat = np.zeros((11, 11))
        dmat[:5, :5] = rep(D_ORB, op)
        dmat[5:8, 5:8] = dmat[8:, 8:] = rep(P_ORB, op)
        for t, dr in ((t1, [-a, 0, 0]), (t5, [0, -a / S3, 0]), (t6, [0, 2 * a / S3, 0])):
            blocks.append((op @ np.array(dr), dmat @ (u.T @ t @ u) @ dmat.T))
    onsite = u.T @ np.diag(eps) @ u

    def ham(k):
        out = onsite.astype(complex)
        for dr, t in blocks:
            ph = np.exp(1j * (k[:2] @ dr[:2]))
            out = out + ph * t + (ph * t).conj().T
        zz = np.array(pos)[:, 2]
        f = np.exp(1j * k[2] * zz)
        return f.conj()[:, None] * out * f[None, :]
    m.ham = ham
    return m


def ref_mos2_soc():
    ang = 0.1
    lat = np.array([[3.16, 0, 0], [-1.579999, 2.736640276, 0], [0, 0, 3.172]]) * ang
    mo = np.array([0.66667, 0.33333, 0.5]) @ lat
    lab = ["dz2", "dzx", "dyz", "dx2-y2", "dxy"] + P_ORB + P_ORB
    e = {"dz2": -1.512, "dzx": 0.419, "dyz": 0.419, "dx2-y2": -3.025, "dxy": -3.025, "px": -1.276, "py": -1.276, "pz": -8.236}
    pos = [mo] * 5 + [[0, 0, 0]] * 3 + [lat[2]] * 3
    v = dict(v_pps=0.696, v_ppp=0.278, v_pds=-2.619, v_pdp=-1.396, v_dds=-0.933, v_ddp=-0.478, v_ddd=-0.442)
    m = Model(lat, pos + pos, [e[x] for x in lab] * 2)
    for i in range(11):
        for j in range(i, 11):
            one = Model(lat, pos, [0] * 11)
            one.add_all(i, j, lambda dr: sk_reference(dr, lab[i], lab[j], v) if np.linalg.norm(dr) < 0.32 else None)
            for (p, q, *dr), val in one.bonds.items():
                m.bonds[(p, q, *dr)] = val
                m.bonds[(p + 11, q + 11, *dr)] = val
    site = [0] * 5 + [1] * 3 + [2] * 3
    lam = [0.075, 0.052, 0.052]
    for i in range(22):
        for j in range(i + 1, 22):
            if site[i % 11] == site[j % 11]:
                x = LS[2 * LABELS.index(lab[i % 11]) + i // 11, 2 * LABELS.index(lab[j % 11]) + j // 11]
                if abs(x) > 1e-12:
                    m.add(i, j, np.zeros(3), lam[site[i % 11]] * x)
    return m


def ref_graphene_soc(qsh):
    nm = 0.1
    t, so, ra = -1.0, -0.06, -0.05
    nu = -0.1 if qsh else -0.4
    lat = np.array([[S3 / 2, -0.5, 0], [S3 / 2, 0.5, 0], [0, 0, 1.0]])
    cc = 1 / S3
    m = Model(lat * nm, np.array([[0, 0, 0]] * 2 + [[cc, 0, 0]] * 2) * nm, [nu, nu, -nu, -nu])
    sx, sy, sz = [np.array(x) for x in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    for ang in (0, 120, 240):
        e = rot(ang) @ np.array([1.0, 0, 0])
        blk = t * np.eye(2) + 1j * ra * (e[1] * sx - e[0] * sy)        # t + i lambda_R (sigma x d)_z up to the overall sign convention
        for a in range(2):
            for b in range(2):
                m.add(a, 2 + b, e * cc * nm, blk[a, b])
    for ang in (30, 150, 270):
        e = rot(ang) @ np.array([1.0, 0, 0])
        for s, sgn in ((0, 1), (1, -1)):
            m.add(s, s, e * nm, 1j * so * sgn)
            m.add(2 + s, 2 + s, e * nm, -1j * so * sgn)
    return m


def build(case):
    import tbplas as tb
    n, c, t, lam = case["mat"], case["c"], case["t"], case["lam"]
    if n == "graphene_diamond":
        return tb.make_graphene_diamond(c=c, t=t), ref_graphene(c, t, False), 2
    if n in ("graphene_rect", "graphene_rect_reshaped"):
        return tb.make_graphene_rect(from_scratch=n == "graphene_rect", c=c, t=t), ref_graphene(c, t, True), 4
    if n == "graphene_sp":
        return tb.make_graphene_sp(c=c), ref_graphene_sp(c), 8
    if n.startswith("graphene_soc"):
        return tb.make_graphene_soc(n.endswith("qsh")), ref_graphene_soc(n.endswith("qsh")), 4
    if n == "antimonene":
        return tb.make_antimonene(with_soc=False, soc_lambda=lam, c=c), ref_antimonene(c, None), 6
    if n == "antimonene_soc":
        return tb.make_antimonene(with_soc=True, soc_lambda=lam, c=c), ref_antimonene(c, lam), 12
    if n == "phosphorene":
        return tb.make_black_phosphorus(c=c), ref_phosphorene(c), 4
    if n == "mos2_soc":
        return tb.make_mos2_soc(), ref_mos2_soc(), 22
    return tb.make_tmdc(n), ref_tmdc(n), 11


MATS = ["graphene_diamond", "graphene_rect", "graphene_rect_reshaped", "graphene_sp", "graphene_soc_qsh", "graphene_soc_trivial", "antimonene",
        "antimonene_soc", "phosphorene", "mos2_soc", "MoS2", "MoSe2", "WS2", "WSe2"]


def labels(name):
    """Labels of the orbitals, in order."""
    if name.startswith("graphene_soc"):
        return None
    if name == "graphene_sp":
        return ["s", "px", "py", "pz"] * 2
    if name.startswith("graphene"):
        return ["C_pz"] * (2 if name.endswith("diamond") else 4)
    if name == "phosphorene":
        return ["P_pz"] * 4
    if name == "antimonene":
        return [f"p{i}{j}" for i in (1, 2) for j in (1, 2, 3)]
    if name == "antimonene_soc":
        return [f"p{i}{j}{s}" for i in (1, 2) for s in "+-" for j in (1, 2, 3)]
    if name == "mos2_soc":
        one = ["Mo:" + d for d in ("dz2", "dzx", "dyz", "dx2-y2", "dxy")] + [f"S{i}:p{x}" for i in (1, 2) for x in "xyz"]
        return [f"{x}:{s}" for s in ("up", "down") for x in one]
    metal, chalcogen = ("Mo", name[2:-1]) if name[0] == "M" else ("W", name[1:-1])
    return [f"{metal}_{d}" for d in ("dz2", "dxy", "dx2-y2", "dxz", "dyz")] + [f"{chalcogen}{s}_p{x}" for s in "AB" for x in "xyz"]


@st.composite
def mat_case(draw):
    return {"mat": draw(st.sampled_from(MATS)), "c": draw(st.one_of(st.just(1.0), st.integers(1, 40).map(lambda n: n / 8))),
            "t": draw(st.one_of(st.just(-2.7), st.integers(-40, 40).filter(bool).map(lambda n: n / 10))), "lam": draw(st.sampled_from([0.34, 0.0, 0.1, 1.0, -0.2])),
            "ks": draw(g.sized(g.kpoint(-2, 2), 2, 5)), "bad": draw(st.sampled_from(["", "mos2", "MoTe2", "WSe", "graphene"]))}


def dense(cell, k):
    cell.sync_array()
    h = np.zeros((cell.num_orb, cell.num_orb), dtype=complex)
    cell.set_ham_dense(np.array(k, dtype=float), h, 1)
    return h


def symmetries(name):
    """[(operation on k, matrix, antiunitary)] with H(g k) = D H(k)(*) D^+; a matrix of None asks for the spectrum only."""
    sy = np.array([[0, -1j], [1j, 0]])
    if name.startswith("graphene_soc"):
        u = spin_rep(([0, 0, 1], np.radians(120)))
        m = spin_rep(([0, 1, 0], np.pi))                # mirror y -> -y = inversion times rotation about y
        return [(INV, np.kron(np.eye(2), 1j * sy), True), (rot(120), np.kron(np.eye(2), u), False), (MY, np.kron(np.eye(2), m), False)]
    if name.startswith("graphene_rect"):
        return [(INV, np.eye(4), True), (MX, None, False), (MY, None, False)]
    if name == "graphene_diamond":
        return [(INV, np.eye(2), True), (INV, np.eye(2)[::-1], False), (rot(120), np.eye(2), False), (rot(60), np.eye(2)[::-1], False)]
    if name == "graphene_sp":
        lab = ["s"] + P_ORB
        sw = np.eye(2)[::-1]
        return [(INV, np.eye(8), True), (INV, np.kron(sw, rep(lab, INV)), False), (rot(120), np.kron(np.eye(2), rep(lab, rot(120))), False),
                (MZ, np.kron(np.eye(2), rep(lab, MZ)), False), (rot(60), np.kron(sw, rep(lab, rot(60))), False)]
    if name == "antimonene":
        sw = np.eye(2)[::-1]
        return [(INV, np.eye(6), True), (INV, np.kron(sw, np.eye(3)), False), (rot(120), np.kron(np.eye(2), np.roll(np.eye(3), 1, 0)), False),
                (MY, np.kron(np.eye(2), np.eye(3)[::-1]), False)]
    if name == "antimonene_soc":
        sw = np.eye(2)[::-1]
        return [(INV, np.kron(np.eye(2), np.kron(1j * sy, np.eye(3))), True), (INV, np.kron(sw, np.eye(6)), False), (rot(120), None, False)]
    if name == "phosphorene":
        inv = np.eye(4)[[1, 0, 3, 2]]
        return [(INV, np.eye(4), True), (INV, inv, False), (MX, np.eye(4), False), (rot(180), None, False)]
    if name == "mos2_soc":
        lab = ["dz2", "dzx", "dyz", "dx2-y2", "dxy"]
        d = np.zeros((11, 11))
        d[:5, :5] = rep(lab, rot(120))
        d[5:8, 5:8] = d[8:, 8:] = rep(P_ORB, rot(120))
        mz = np.zeros((11, 11))
        mz[:5, :5] = rep(lab, MZ)
        mz[5:8, 8:] = mz[8:, 5:8] = rep(P_ORB, MZ)
        return [(INV, np.kron(1j * sy, np.eye(11)), True), (rot(120), np.kron(spin_rep(([0, 0, 1], np.radians(120))), d), False),
                (MZ, np.kron(spin_rep(([0, 0, 1], np.pi)), mz), False)]
    d, mx, mz = [np.zeros((11, 11)) for _ in range(3)]
    for mat, op in ((d, rot(120)), (mx, MX)):
        mat[:5, :5] = rep(D_ORB, op)
        mat[5:8, 5:8] = mat[8:, 8:] = rep(P_ORB, op)
    mz[:5, :5] = rep(D_ORB, MZ)
    mz[5:8, 8:] = mz[8:, 5:8] = rep(P_ORB, MZ)
    return [(INV, np.eye(11), True), (rot(120), d, False), (MX, mx, False), (MZ, mz, False)]


@sub("C23", mat_case, 500, shards=4, rule="a k-point off the zone centre and a material with more than one orbital per site or a non-default parameter")
def materials(case, ctx):
    import tbplas as tb
    n = case["mat"]
    cell, model, size = build(case)
    ctx.equal(cell.num_orb, size, f"number of orbitals of {n}")
    lat = np.asarray(cell.lat_vec)
    ctx.close(lat, model.lat, 1e-8, f"lattice vectors of {n} in nm")
    if labels(n) is not None:
        ctx.equal([o.label for o in cell.orbitals], labels(n), f"labels of the orbitals of {n}")
    ks = [np.array(k) for k in case["ks"]]
    if any(np.linalg.norm(k[:2] % 1) > 1e-6 for k in ks) and (size > 4 or case["c"] != 1.0 or case["t"] != -2.7):
        ctx.nontrivial()
    ctx.label(n)
    soft = 2e-3 if n in ("mos2_soc", "antimonene_soc") else 1e-6       # coordinates and SOC elements rounded in the model itself
    rec = ref.recip(lat)
    if n != "graphene_rect_reshaped":
        pos = np.asarray(cell.orb_pos) @ lat
        ctx.close(pos - pos[0], model.pos - model.pos[0], 1e-8, f"orbital positions of {n} relative to the first one")
    for k in ks:
        kc = k @ rec
        h = dense(cell, k)
        e = np.linalg.eigvalsh(h)
        tol = 1e-8 * (1 + np.max(np.abs(e)))
        ctx.close(h, h.conj().T, tol, f"hermiticity of {n}")
        want = model.ham(kc)
        rtol = 1e-7 * (1 + np.max(np.abs(e)))
        if n == "graphene_rect_reshaped":
            ctx.close(e, np.linalg.eigvalsh(want), rtol, f"spectrum of {n}")
        else:
            ctx.close(h, want, rtol, f"Bloch Hamiltonian of {n} at {k.tolist()}")
        ctx.close(np.linalg.eigvalsh(dense(cell, [k[0], k[1], k[2] + 0.37])), e, 1e-7 * (1 + np.max(np.abs(e))),
                  f"{n} is a single layer: no dispersion along c")
        for op, d, anti in symmetries(n):
            kp = (op @ kc) @ lat.T / (2 * np.pi)
            hp = dense(cell, kp)
            if d is None:
                ctx.close(np.linalg.eigvalsh(hp), e, 10 * soft, f"spectrum of {n} under {op.round(2).tolist()}")
            else:
                src = h.conj() if anti else h
                ctx.close(hp, d @ src @ d.conj().T, 10 * soft if not anti else tol * 10, f"H of {n} under {op.round(2).tolist()}{' with conjugation' if anti else ''}")
        if n == "antimonene_soc":
            ctx.close(e[0::2], e[1::2], 1e-7, "Kramers pairs of an inversion symmetric crystal")
            if case["lam"] == 0.0:
                e0 = np.linalg.eigvalsh(dense(tb.make_antimonene(with_soc=False, c=case["c"]), k))
                ctx.close(e, np.repeat(e0, 2), 1e-7, "antimonene with vanishing spin-orbit coupling")
        if n in ("graphene_rect", "graphene_rect_reshaped"):
            dia = tb.make_graphene_diamond(c=case["c"], t=case["t"])
            both = []
            for s in (0, 1):                      # the two momenta folding onto k
                kd = (kc + s * rec[1]) @ np.asarray(dia.lat_vec).T / (2 * np.pi)
                both.extend(np.linalg.eigvalsh(dense(dia, kd)))
            ctx.close(e, np.sort(both), 1e-6, "rectangular cell against the folded diamond cell")
    # every call makes a model of its own
    k = ks[0]
    h = dense(cell, k)
    cell.set_orbital(0, energy=7.25, position=(0.11, 0.12, 0.13))
    cell.add_hopping((1, 0, 0), 0, cell.num_orb - 1, 0.77)
    cell.remove_orbital(cell.num_orb - 1)
    cell.reset_lattice(np.eye(3), unit=tb.NM)
    again = build(case)[0]
    ctx.equal(again.num_orb, size, f"number of orbitals of {n} built a second time")
    ctx.close(np.asarray(again.lat_vec), model.lat, 1e-8, f"lattice vectors of {n} built a second time")
    ctx.close(dense(again, k), h, 0.0, f"Bloch Hamiltonian of {n} built a second time, after the first one was edited")
    ctx.close(again.extended, 2.0 if n == "graphene_rect_reshaped" else 1.0, 1e-9, f"number of primitive cells in {n}")
    if case["bad"]:
        ctx.raises(NotImplementedError, lambda: tb.make_tmdc(case["bad"]), f"unknown material {case['bad']!r}")
