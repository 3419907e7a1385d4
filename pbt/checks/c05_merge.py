"""C05: merging cells, hopping containers and neighbour search."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub


@st.composite
def merge_case(draw, cells_st=g.cell(max_orb=3, min_hop=0, max_hop=4), terms_max=4):
    n = draw(g.weighted((6, st.integers(1, 3)), (1, st.integers(4, 7))))
    lat = draw(g.lattice())
    cells = []
    for _ in range(n):
        c = draw(cells_st)
        c["lat"] = lat
        cells.append(c)
    inter = []
    if n > 1:
        for _ in range(draw(st.integers(0, 3 if n < 4 else 6))):
            a = draw(st.integers(0, n - 1))
            b = (a + draw(st.integers(1, n - 1))) % n
            terms = draw(st.lists(st.tuples(g.rn_strategy(2), st.integers(0, 99), st.integers(0, 99), g.nonzero_complex()).map(list),
                                  min_size=1, max_size=terms_max))
            inter.append([a, b, terms])
    return {"cells": cells, "inter": inter, "ext": draw(st.lists(st.sampled_from([1.0, 1.0, 1.5, 2.0, 3.0]), min_size=n, max_size=n)),
            "k": draw(g.kpoint(-2, 2)), "lock": draw(st.booleans()), "interleave": draw(st.booleans()), "off": [draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.sampled_from([0.5, -0.5, 0.03, -0.03, 0.002, -0.002]))]}


@sub("C05", merge_case, quick=700, shards=3, rule="two or more cells coupled by at least one inter-cell term")
def merge(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    cells = [ref.build_cell(c) for c in case["cells"]]
    for cell, e in zip(cells, case["ext"]):
        cell.extended = e
    sizes = [c.num_orb for c in cells]
    start = np.cumsum([0] + sizes)
    carts = [np.array(c.orb_pos_nm) for c in cells]
    hops, seen, couplings = [], set(), []
    for a, b, terms in case["inter"]:
        ih = tb.PCInterHopping(cells[a], cells[b])
        for rn, i, j, t in terms:
            i, j = i % sizes[a], j % sizes[b]
            key = g.canon(rn, i + start[a], j + start[b])[0]
            if key in seen:
                continue
            seen.add(key)
            ih.add_hopping(tuple(rn), i, j, ref.cplx(t))
            couplings.append((tuple(rn), i + start[a], j + start[b], ref.cplx(t)))
            got = ih.get_hopping(tuple(rn), i, j)
            ctx.check(got[1] and abs(got[0] - ref.cplx(t)) == 0, "get_hopping of an inter-cell term")
        hops.append(ih)
    if case["lock"]:
        for c in cells:
            c.add_subscriber("x", None)
            c.lock("x")
    args = cells + hops
    if case["interleave"]:
        args = hops + cells
    snap = [(np.array(c.origin), np.array(c.orb_pos), ref.cell_terms(c)) for c in cells]
    m = tb.merge_prim_cell(*args)
    for i, (c, s) in enumerate(zip(cells, snap)):
        ctx.close(c.origin, s[0], 1e-12, f"origin of argument {i} changed")
        ctx.close(c.orb_pos, s[1], 1e-9, f"positions of argument {i} changed")
        ctx.equal(ref.cell_terms(c), s[2], f"terms of argument {i} changed")
    ctx.equal(m.num_orb, sum(sizes), "number of orbitals of the merged cell")
    ctx.close(m.orb_pos_nm, np.vstack(carts), 1e-8, "positions in the merged cell")
    ctx.equal([o.label for o in m.orbitals], [o[2] for c in case["cells"] for o in c["orbs"]], "labels in the merged cell")
    ctx.close(m.lat_vec, cells[0].lat_vec, 1e-10, "lattice of the merged cell")
    ctx.equal(np.asarray(m.orb_eng).tolist(), [o[1] for c in case["cells"] for o in c["orbs"]], "energies in the merged cell")
    want = {}
    for c, s in zip(case["cells"], start):
        for rn, i, j, t in c["hops"]:
            key, conj = g.canon(rn, i + int(s), j + int(s))
            want[key] = ref.cplx(t).conjugate() if conj else ref.cplx(t)
    for rn, i, j, t in couplings:
        key, conj = g.canon(rn, int(i), int(j))
        want[key] = t.conjugate() if conj else t
    ctx.equal(ref.cell_terms(m), want, "terms of the merged cell")
    same = all(e == case["ext"][0] for e in case["ext"])
    ctx.close(m.extended, case["ext"][0] if same else 1.0, 1e-12, "extended attribute of the merged cell")
    # block structure of the Hamiltonian
    if m.num_hop:
        m.sync_array()
        h = np.zeros((m.num_orb, m.num_orb), dtype=complex)
        m.set_ham_dense(np.array(case["k"], dtype=float), h, 2)
        h0 = np.zeros_like(h)
        for c, s in zip(case["cells"], start):
            n = len(c["orbs"])
            h0[s:s + n, s:s + n] = ref.ham_of(c, case["k"], 2)
        for rn, i, j, t in couplings:
            v = t * ref.phase(np.dot(case["k"], rn))
            h0[i, j] += v
            h0[j, i] += v.conjugate()
        ctx.close(h, h0, 1e-8, "Hamiltonian of the merged cell")
    # errors
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(), "no argument")
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(cells[0], 1), "argument of a wrong type")
    if hops and len(cells) > 1:
        for gone in (hops[-1].pc_bra, hops[-1].pc_ket):
            ctx.raises(ValueError, lambda: tb.merge_prim_cell(*[c for c in cells if c is not gone], *hops[:0], hops[-1]),
                       "coupling to a cell that is not merged")
            ctx.raises(ValueError, lambda: tb.merge_prim_cell(*[c for c in cells if c is not gone], *hops), "coupling to a cell that is not merged")
    other = ref.build_cell(dict(case["cells"][0], lat=(np.array(case["cells"][0]["lat"]) * 1.01).tolist()))
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(cells[0], other), "lattice mismatch")
    a, b, d = case["off"]
    off = np.array(case["cells"][0]["lat"], dtype=float)
    off[a, b] += d
    other = ref.build_cell(dict(case["cells"][0], lat=off.tolist()))
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(*cells, other), f"mismatch of {d} in component {b} of vector {a}")
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(other, *cells), f"mismatch of {d} in component {b} of vector {a}")
    off[(a + 1) % 3, b] -= d            # differences that cancel are differences
    other = ref.build_cell(dict(case["cells"][0], lat=off.tolist()))
    ctx.raises(ValueError, lambda: tb.merge_prim_cell(*cells, other), f"mismatch of {d} in component {b} of vectors {a} and {(a + 1) % 3}")
    off[(a + 1) % 3, b] += d
    off[a, b] += 1e-7 - d
    near = ref.build_cell(dict(case["cells"][0], lat=off.tolist()))
    ctx.equal(tb.merge_prim_cell(*cells, near).num_orb, sum(sizes) + sizes[0], "cells whose lattices agree within rounding")
    ctx.nontrivial(len(couplings) > 0)


sub("C05", merge_case(g.bulk(orbs=(5, 40), hops=(5, 80)), 20), quick=30, shards=2, rule="as for merge, at least 5 orbitals per cell", name="large")(merge)


@sub("C05", merge_case, quick=250, shards=1, rule="a coupling refers to an orbital that does not exist")
def merge_range(case, ctx):
    """Couplings to orbitals that do not exist are rejected (when they do not land in another cell)."""
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    if len(case["cells"]) < 2:
        return
    cells = [ref.build_cell(c) for c in case["cells"][:2]]
    ih = tb.PCInterHopping(cells[0], cells[1])
    ih.add_hopping((0, 0, 0), 0, cells[1].num_orb, 1.0)
    ctx.raises(exc.PCOrbIndexError, lambda: tb.merge_prim_cell(*cells, ih), "orbital index out of range")
    ctx.nontrivial()


@st.composite
def nb_case(draw, cells=g.cell(max_orb=4, max_hop=1)):
    lat = draw(g.lattice())
    c1 = draw(cells)
    c1["lat"] = lat
    c2 = None
    if draw(st.booleans()):
        c2 = draw(cells)
        if draw(st.booleans()):
            c2["lat"] = lat
    return {"c1": c1, "c2": c2, "max": draw(g.weighted((5, st.lists(st.integers(0, 2), min_size=3, max_size=3)), (1, st.sampled_from([[6, 0, 0], [0, 5, 1], [1, 0, 6]])))),
            "frac": draw(st.integers(1, 40).map(lambda n: n / 40)), "sc": draw(st.booleans())}


@sub("C05", nb_case, quick=500, shards=2, rule="at least 4 neighbours within the cut-off and at least one pair outside it")
def neighbors(case, ctx):
    import tbplas as tb
    for c in (case["c1"], case["c2"]):
        if c:
            c["hops"] = [[[1, 0, 0], 0, 0, [1.0, 0.0]]]
    cell1 = ref.build_cell(case["c1"])
    cell2 = ref.build_cell(case["c2"]) if case["c2"] else None
    if case["sc"]:
        sc1 = tb.SuperCell(cell1, dim=(3, 1, 1), pbc=(False, False, False))
        sc2 = tb.SuperCell(cell2, dim=(3, 1, 1), pbc=(False, False, False)) if cell2 else None
        bra, ket = sc1, sc2
        pos1 = np.array(sc1.get_orb_pos())
        pos2 = np.array(sc2.get_orb_pos()) if sc2 else pos1
        lat2 = np.array((sc2 or sc1).sc_lat_vec)
    else:
        bra, ket = cell1, cell2
        pos1 = np.array(cell1.orb_pos_nm)
        pos2 = np.array(cell2.orb_pos_nm) if cell2 else pos1
        lat2 = np.array((cell2 or cell1).lat_vec)
    am, bm, cm = case["max"]
    pairs = {}
    for ra in range(-am, am + 1):
        for rb in range(-bm, bm + 1):
            for rc in range(-cm, cm + 1):
                shift = np.array([ra, rb, rc]) @ lat2
                for i in range(len(pos1)):
                    for j in range(len(pos2)):
                        d = pos2[j] + shift - pos1[i]
                        pairs[((ra, rb, rc), (i, j))] = d
    dist = {k: float(np.linalg.norm(v)) for k, v in pairs.items()}
    ds = sorted(x for x in dist.values())
    # a cut-off in the middle of a gap
    pos = min(int(case["frac"] * len(ds)), len(ds) - 1)
    cut = ds[pos] + 0.05
    for a, b in zip(ds[pos:], ds[pos + 1:]):
        if b - a > 1e-3:
            cut = (a + b) / 2
            break
    if case["frac"] > 0.5 and all(abs(x - 1.0) > 1e-4 for x in ds) and ds[0] < 1.0:
        cut = 1.0        # the documented default, in nm
    expect = {k for k, v in dist.items() if v <= cut}
    if any(0 < v < 1e-9 for v in dist.values()):
        return
    expect = {k for k in expect if dist[k] > 0}
    kw = {"a_max": am, "b_max": bm, "c_max": cm, "max_distance": cut}
    nb = tb.find_neighbors(bra, ket, **kw) if ket is not None else tb.find_neighbors(bra, **kw)
    got = {}
    for t in nb:
        key = (tuple(int(x) for x in t.rn), tuple(int(x) for x in t.pair))
        ctx.check(key not in got, f"neighbour {key} reported twice")
        got[key] = t
    ctx.equal(sorted(got), sorted(expect), "set of neighbours")
    for k, t in got.items():
        ctx.close(t.rij, pairs[k], 1e-8, f"displacement of {k}")
        ctx.close(t.distance, dist[k], 1e-8, f"distance of {k}")
    d = [t.distance for t in nb]
    ctx.check(all(a <= b + 1e-12 for a, b in zip(d, d[1:])), "neighbours are not sorted by distance")
    ctx.nontrivial(4 <= len(expect) < len(pairs))


sub("C05", nb_case(g.bulk(orbs=(8, 14), hops=(1, 1))), quick=10, shards=2, rule="as for neighbors, at least 8 orbitals", name="neighbors_large")(neighbors)


@st.composite
def hd_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=8, min_hop=0))
    return {"cell": c, "both": draw(st.booleans()), "set": draw(st.booleans()), "k": draw(g.kpoint(-1, 1)),
            "diag": draw(st.integers(0, 9)), "small": draw(st.booleans())}


@sub("C05", hd_case, quick=400, shards=1, rule="at least 2 orbitals and 2 terms")
def hopdict(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    c = case["cell"]
    n = len(c["orbs"])
    mats = {}
    for rn, i, j, t in c["hops"]:
        mats.setdefault(tuple(rn), np.zeros((n, n), dtype=complex))[i, j] = ref.cplx(t)
        if case["both"]:
            neg = tuple(-x for x in rn)
            mats.setdefault(neg, np.zeros((n, n), dtype=complex))[j, i] = ref.cplx(t).conjugate()
    hd = tb.HopDict(n)
    for rn, m in mats.items():
        key = rn[:2] if rn[2] == 0 else rn
        if case["set"]:
            m2 = m.copy()
            hd[key] = m2
            m2[:] = 99.0            # the container holds a copy
            ctx.close(hd[rn], m, 0, "matrix read back from a HopDict")
        else:
            for i in range(n):
                for j in range(n):
                    if m[i, j] != 0:
                        hd[key][i, j] = m[i, j]
    want = {}
    for rn, i, j, t in c["hops"]:
        key, conj = g.canon(rn, i, j)
        want[key] = ref.cplx(t).conjugate() if conj else ref.cplx(t)
    # the same container may be added to several cells
    for _ in range(2):
        cell = ref.build_cell(dict(c, hops=[]))
        cell.add_hopping_dict(hd)
        ctx.equal(ref.cell_terms(cell), want, "terms added from a HopDict")
        if want:
            cell.sync_array()
            h = np.zeros((n, n), dtype=complex)
            cell.set_ham_dense(np.array(case["k"], dtype=float), h, 1)
            ctx.close(h, ref.ham_of(c, case["k"], 1), 1e-9, "Hamiltonian of a model given as HopDict")
    hd2 = tb.HopDict(n)
    bad = np.zeros((n, n), dtype=complex)
    bad[case["diag"] % n, case["diag"] % n] = 1e-3 if case["small"] else 2.0

    def put_diag():
        hd2[(0, 0, 0)] = bad
    ctx.raises(exc.PCHopDiagonalError, put_diag, "on-site energies in a HopDict")
    hd3 = tb.HopDict(n)
    hd3[(0, 0)][case["diag"] % n, case["diag"] % n] = 1.0
    cell = ref.build_cell(dict(c, hops=[]))
    ctx.raises(exc.PCHopDiagonalError, lambda: cell.add_hopping_dict(hd3), "on-site energies in a HopDict")
    ctx.equal(cell.num_hop, 0, "terms after a rejected HopDict")

    def put_shape():
        hd2[(1, 0, 0)] = np.zeros((n + 1, n))
    ctx.raises(ValueError, put_shape, "matrix of a wrong shape")
    ctx.raises(exc.CellIndexLenError, lambda: hd2[(1,)], "cell index of length 1")
    ctx.nontrivial(n > 1 and len(c["hops"]) > 1)
