"""C10: magnetic field."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub
from pbt.checks.c08_sample import build as build_sample, sample_case

# |e| / h in 1/(T nm^2); the code uses the rounded value 1/4135.666734 (relative difference 2e-7)
FLUX = 1.602176634e-19 / 6.62607015e-34 * 1e-18


@st.composite
def field_case(draw):
    case = draw(sample_case(max_parts=2, max_size=70))
    for p in case["parts"]:
        if draw(st.integers(0, 3)):      # make sure there are loops in the plane
            c = p["cell"]
            n = len(c["orbs"])
            pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
            raw = [([1, 0, 0], *draw(pair), [1.0, 0.0]), ([1, 0, 0], 0, 0, draw(g.nonzero_complex())), ([0, 1, 0], 0, 0, draw(g.nonzero_complex())),
                   ([1, 1, 0], *draw(pair), draw(g.nonzero_complex())), ([1, -1, 0], *draw(pair), draw(g.nonzero_complex()))]
            seen = {}
            for h in raw[:draw(st.integers(3, 5))]:
                seen.setdefault(g.canon(*h[:3])[0], list(h))
            for i in range(1, n):
                seen[((0, 0, 0), 0, i)] = [[0, 0, 0], 0, i, [-0.5, 0.25]]
            c["hops"] = list(seen.values())
            p["dim"] = [3, 3 + draw(st.integers(0, 1)), 1]
            p["vac"] = sorted({v % (9 * n) for v in p["vac"]})[:2]
        p["pbc"] = [False, False, False]
        p["hops"] = []
    for h in case["inter"]:
        for t in h["terms"]:
            t[0] = [0, 0, 0]
    case["B"] = draw(g.weighted((1, st.just(0.0)), (8, st.integers(-40, 40).map(lambda n: n * 25.0)), (8, st.floats(-3000, 3000).map(lambda x: round(x, 3))),
                             (2, st.floats(-60000, 60000).map(lambda x: round(x, 2))), (1, st.floats(-1, 1).map(lambda x: round(x, 5)))))
    case["far"] = draw(g.weighted((9, st.just([0, 0])), (1, st.lists(st.integers(-400, 400), min_size=2, max_size=2))))
    for p in case["parts"]:
        p["cell"]["origin"] = [x + f for x, f in zip(p["cell"]["origin"], case["far"] + [0])]
    case["shift"] = draw(st.lists(st.integers(-24, 24).map(lambda n: n / 8), min_size=3, max_size=3))
    return case


def matrix(sample):
    return sample.build_ham_csr().toarray()


def triangles(n, terms):
    """Closed loops of the graph: fundamental cycles of a spanning forest, as lists of (i, j, dr, sign)."""
    adj = {}
    for idx, (i, j, e, d) in enumerate(terms):
        adj.setdefault(i, []).append((j, idx, 1))
        adj.setdefault(j, []).append((i, idx, -1))
    parent, seen, loops, tree = {}, set(), [], set()
    for root in range(n):
        if root in seen:
            continue
        seen.add(root)
        queue = [root]
        parent[root] = None
        for u in queue:
            for v, idx, s in adj.get(u, []):
                if v not in seen:
                    seen.add(v)
                    parent[v] = (u, idx, s)
                    tree.add(idx)
                    queue.append(v)
    for idx, (i, j, e, d) in enumerate(terms):
        if idx in tree:
            continue
        path_i, path_j = [], []
        u = i
        while parent[u] is not None:
            p, k, s = parent[u]
            path_i.append((k, s))
            u = p
        u = j
        while parent[u] is not None:
            p, k, s = parent[u]
            path_j.append((k, s))
            u = p
        # root -> i -> j -> root
        loops.append([(k, s) for k, s in reversed(path_i)] + [(idx, 1)] + [(k, -s) for k, s in path_j])
    return loops


@sub("C10", field_case, quick=260, shards=4, rule="non-zero field and at least one loop enclosing an area above 1e-3 nm^2")
def loops(case, ctx):
    """Phase of every fundamental loop equals the enclosed flux, in every gauge."""
    b = case["B"]
    results, big = [], False
    for gauge in (0, 1, 2):
        sample, rs, _, _ = build_sample(case)
        sample.init_orb_eng(), sample.init_orb_pos(), sample.init_hop()
        hi, hj, v0, dr = sample.hop_i.copy(), sample.hop_j.copy(), sample.hop_v.copy(), sample.dr.copy()
        pos = sample.orb_pos.copy()
        h0 = matrix(sample)
        sample.set_magnetic_field(b, gauge=gauge)
        ctx.equal((sample.hop_i.tolist(), sample.hop_j.tolist()), (hi.tolist(), hj.tolist()), "bond list in the field")
        ctx.close(sample.dr, dr, 0, "bond vectors in the field")
        ctx.close(sample.orb_pos, pos, 0, "positions in the field")
        ctx.close(np.abs(sample.hop_v), np.abs(v0), 1e-9, f"gauge {gauge}: moduli of the hoppings")
        h = matrix(sample)
        ctx.close(np.diag(h), np.diag(h0), 1e-12, "on-site energies in the field")
        ctx.close(h, h.conj().T, 1e-12, "hermiticity in the field")
        if b == 0.0:
            ctx.close(h, h0, 1e-12, f"gauge {gauge}: zero field")
        th = np.angle(sample.hop_v / v0)
        # documented phase of a bond: e/(2 hbar) (R_j - R_i) (A_j + A_i), A as documented for the gauge
        x, y = pos[:, 0], pos[:, 1]
        ax, ay = {0: (b * y, 0 * x), 1: (0 * y, -b * x), 2: (0.5 * b * y, -0.5 * b * x)}[gauge]
        bond = np.pi * FLUX * (dr[:, 0] * (ax[hi] + ax[hj]) + dr[:, 1] * (ay[hi] + ay[hj]))
        ctx.close(np.exp(1j * th), np.exp(1j * bond), 1e-6 + 1e-6 * np.abs(bond).max(initial=0.0), f"gauge {gauge}: phases of the bonds")
        terms = list(zip(hi.tolist(), hj.tolist(), v0.tolist(), dr))
        for loop in triangles(len(pos), terms):
            total, area, reach = 0.0, 0.0, 0.0
            x = pos[terms[loop[0][0]][0] if loop[0][1] > 0 else terms[loop[0][0]][1]][:2]
            x0 = x
            for k, s in loop:
                d = s * dr[k][:2]
                total += s * th[k]
                y = x + d
                area += 0.5 * (x[0] * y[1] - x[1] * y[0])
                reach += float(np.abs(x).sum() + 1) * float(np.abs(d).sum())
                x = y
            assert np.allclose(x, x0, atol=1e-7)
            # the field points to -z: exp(1j e/hbar int A.dl) = exp(-2 pi i B S e/h) for counter-clockwise loops
            want = -2 * np.pi * FLUX * b * area
            diff = abs(np.exp(1j * total) - np.exp(1j * want))
            ctx.check(diff < 1e-6 + 1e-6 * abs(2 * np.pi * FLUX * b) * reach,
                      f"gauge {gauge}: loop phase {total} != {want} (flux through area {area} nm^2 at {b} T)")
            big = big or abs(area) > 1e-3
        results.append(np.linalg.eigvalsh(h))
    for gauge in (1, 2):
        ctx.close(results[gauge], results[0], 1e-6, f"spectrum in gauge {gauge} and gauge 0")
    ctx.label("B0" if b == 0 else "B", "loops" if big else "tree")
    ctx.nontrivial(b != 0 and big)


@sub("C10", field_case, quick=150, shards=2, rule="non-zero field and shift")
def translation(case, ctx):
    """Spectra do not depend on where the sample lies; reversing the field conjugates."""
    b = case["B"]
    specs = []
    for p in case["parts"]:
        p["pos"] = None
    for shift in ([0, 0, 0], case["shift"]):
        import copy
        c2 = copy.deepcopy(case)
        for p in c2["parts"]:
            p["cell"]["origin"] = [x + s for x, s in zip(p["cell"]["origin"], shift)]
        row = []
        for gauge in (0, 1, 2):
            sample = build_sample(c2)[0]
            sample.set_magnetic_field(b, gauge=gauge)
            row.append(np.linalg.eigvalsh(matrix(sample)))
        specs.append(row)
    for gauge in (0, 1, 2):
        ctx.close(specs[0][gauge], specs[1][gauge], 1e-6, f"gauge {gauge}: spectrum of the translated sample")
    # time reversal: conj(H0)(-B) = conj(H0(B))
    c2 = copy.deepcopy(case)
    for p in c2["parts"]:
        for h in p["cell"]["hops"]:
            h[3] = [h[3][0], -h[3][1]]
    for h in c2["inter"]:
        for t in h["terms"]:
            t[3] = [t[3][0], -t[3][1]]
    for gauge in (0, 1, 2):
        s1, s2 = build_sample(case)[0], build_sample(c2)[0]
        s1.set_magnetic_field(b, gauge=gauge)
        s2.set_magnetic_field(-b, gauge=gauge)
        ctx.close(matrix(s2), matrix(s1).conj(), 1e-9, f"gauge {gauge}: reversed field is the complex conjugate")
        s1.set_magnetic_field(-b, gauge=gauge)
        ctx.close(matrix(s1), build_sample(case)[0].build_ham_csr().toarray(), 1e-9, f"gauge {gauge}: field B then -B")
        s1.reset_array()
        ctx.close(matrix(s1), build_sample(case)[0].build_ham_csr().toarray(), 1e-12, "field removed by reset_array")
    ctx.raises(ValueError, lambda: s1.set_magnetic_field(b, gauge=3), "gauge 3")
    ctx.nontrivial(b != 0 and any(case["shift"][:2]))


@st.composite
def ribbon_case(draw):
    c = draw(g.cell(max_orb=3, max_hop=6, max_r=1, dims=2))
    axis = draw(st.integers(0, 1))
    c["lat"] = [[draw(st.integers(8, 24)) / 8, 0.0, 0.0], [0.0, draw(st.integers(8, 24)) / 8, 0.0], [0.0, 0.0, 2.0]]
    other = draw(st.integers(-4, 4)) / 8
    c["lat"][1 - axis][axis] = other         # the periodic vector is along x (or y), the other one is free
    return {"cell": c, "axis": axis, "dim": [d + draw(st.integers(0, 2)) for d in ref.dim_min(c)],
            "B": draw(st.integers(-80, 80)) * 12.5, "k": draw(st.floats(-1, 1).map(lambda x: round(x, 4)))}


@sub("C10", ribbon_case, quick=200, shards=2, rule="non-zero field and bonds across the periodic boundary")
def ribbon(case, ctx):
    """Ribbon periodic along x (gauge 0) or y (gauge 1): the field keeps the lattice translation."""
    import tbplas as tb
    c, ax, dim = case["cell"], case["axis"], case["dim"]
    pbc = [False] * 3
    pbc[ax] = True
    b = case["B"]
    k = [0.0, 0.0, 0.0]
    k[ax] = case["k"]
    sample = tb.Sample(tb.SuperCell(ref.build_cell(c), dim=tuple(dim), pbc=tuple(pbc)))
    sample.set_magnetic_field(b, gauge=ax)
    sample.init_orb_eng()
    got = np.linalg.eigvalsh(sample.set_ham_csr(np.array(k)).toarray())
    # reference: bonds of the tiling, phase from both true end points
    t = ref.Tiled(c, dim, pbc)
    n = len(t.ids)
    kc = np.array(k) @ ref.recip(t.sc_lat)
    h = np.diag(t.eng.astype(complex))
    for (i, j), (e, d) in t.terms.items():
        mid = t.pos[i] + 0.5 * d
        # A = (B y, 0, 0) or (0, -B x, 0), straight bond
        line = b * mid[1] * d[0] if ax == 0 else -b * mid[0] * d[1]
        v = e * np.exp(2j * np.pi * FLUX * line + 1j * float(kc @ d))
        h[i, j] += v
        h[j, i] += np.conj(v)
    ctx.close(got, np.linalg.eigvalsh(h), 1e-5, "spectrum of the ribbon in the field")
    ctx.label("axis:%d" % ax)
    ctx.nontrivial(b != 0 and any(hp[0][ax] != 0 for hp in c["hops"]))
