"""C08: samples against the brute-force assembly of their parts."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub
from pbt.checks.c07_super import super_case, build as build_super

OFF = 2.3141592e-7        # keeps plain decimal fractions away from the boundaries of rounding


@st.composite
def sample_case(draw, max_parts=3, max_size=120, max_extra=1):
    parts = []
    many = max_parts > 2 and draw(st.integers(0, 7)) == 0       # four to six small parts
    if many:
        max_size, max_extra = 36, 0
    for _ in range(draw(st.integers(4, 6) if many else st.integers(1, max_parts))):
        case = draw(super_case(max_extra=max_extra, cap=max(260, max_size), loops=False))
        size = int(np.prod(case["dim"])) * len(case["cell"]["orbs"])
        if size > max_size:        # keep dense matrices small: cut the range of the hoppings to one direction
            for h in case["cell"]["hops"]:
                h[0] = [max(-1, min(1, h[0][0])), 0, 0]
                if h[0] == [0, 0, 0] and h[1] == h[2]:
                    h[0] = [1, 0, 0]
            seen = {}
            for h in case["cell"]["hops"]:
                seen.setdefault(g.canon(h[0], h[1], h[2])[0], h)
            case["cell"]["hops"] = list(seen.values())
            case["dim"] = [m + e for m, e in zip(ref.dim_min(case["cell"]), draw(st.tuples(*[st.integers(0, 1)] * 3)))]
            size = int(np.prod(case["dim"])) * len(case["cell"]["orbs"])
            case["vac"] = sorted({v % size for v in case["vac"]})[:max(size // 3, 0)]
        parts.append(case)
    inter = []
    if len(parts) > 1:
        idx = st.integers(0, len(parts) - 1)
        term = st.tuples(g.rn_strategy(1), st.integers(0, 400), st.integers(0, 400), g.nonzero_complex()).map(list)
        for _ in range(draw(st.integers(0, 6 if many else 3))):
            a = draw(idx)
            b = draw(idx)
            if a == b:
                b = (a + 1) % len(parts)
            inter.append({"bra": a, "ket": b, "terms": draw(st.lists(term, min_size=1, max_size=5))})
    return {"parts": parts, "inter": inter, "perm": draw(st.permutations(range(len(parts) + len(inter)))), "k": draw(g.kpoint(-2, 2)),
            "faint": draw(st.integers(0, 4)) == 0, "cutoff": draw(st.sampled_from([1e-5, 1e-5, 0.5, 1.0, 0.0]))}


class RefSample:
    """Concatenation of the parts, in the order in which the supercells are given."""
    def __init__(self, case):
        self.case = case

    def assemble(self, tiled, inter_terms, order):
        self.start, n = {}, 0
        for p in order:
            self.start[p] = n
            n += len(tiled[p].ids)
        self.num = n
        self.eng = np.concatenate([tiled[p].eng for p in order])
        self.pos = np.concatenate([tiled[p].pos for p in order])
        self.lat = tiled[order[0]].sc_lat
        self.terms = []
        for p in order:
            s = self.start[p]
            self.terms += [(i + s, j + s, e, d) for (i, j), (e, d) in tiled[p].terms.items()]
        for bra, ket, terms in inter_terms:
            for rn, i, j, t in terms:
                dr = tiled[ket].pos[j] + np.array(rn) @ tiled[ket].sc_lat - tiled[bra].pos[i]
                self.terms.append((i + self.start[bra], j + self.start[ket], ref.cplx(t), dr))
        return self

    def ham(self, k=(0, 0, 0), eng=True):
        kc = np.asarray(k, dtype=float) @ ref.recip(self.lat)
        h = np.diag(self.eng.astype(complex)) if eng else np.zeros((self.num, self.num), complex)
        for i, j, e, d in self.terms:
            v = e * np.exp(1j * float(kc @ d))
            h[i, j] += v
            h[j, i] += np.conj(v)
        return h


def build(case):
    """(Sample, reference, supercells, inter-hopping objects)."""
    import tbplas as tb
    built = [build_super(p) for p in case["parts"]]
    inter_obj, inter_terms = [], []
    for h in case["inter"]:
        obj = tb.SCInterHopping(built[h["bra"]][0], built[h["ket"]][0])
        nb, nk = len(built[h["bra"]][1].ids), len(built[h["ket"]][1].ids)
        terms = {}
        for rn, i, j, t in h["terms"]:
            obj.add_hopping(tuple(rn), i % nb, j % nk, ref.cplx(t))
            terms[(tuple(rn), i % nb, j % nk)] = t
        inter_obj.append(obj)
        if case.get("faint"):         # one very weak bond
            key = next(iter(terms))
            terms[key] = [x * 1e-5 for x in terms[key]]
            obj.add_hopping(*key, ref.cplx(terms[key]))
        inter_terms.append((h["bra"], h["ket"], [(k[0], k[1], k[2], t) for k, t in terms.items()]))
    objs = [b[0] for b in built] + inter_obj
    args = [objs[i] for i in case["perm"]]
    order = [i for i in case["perm"] if i < len(built)]
    sample = tb.Sample(*args)
    tiled = [b[1] for b in built]
    return sample, RefSample(case).assemble(tiled, inter_terms, order), built, inter_obj


def dense_of_dxy(n, indptr, indices, data):
    out = np.zeros((n, n), dtype=np.asarray(data).dtype)
    for i in range(n):
        for p in range(int(indptr[i]), int(indptr[i + 1])):
            out[i, int(indices[p])] += data[p]
    return out


def rows_of(n, indptr, indices, hop, dx, dy):
    """Sorted multiset of (row, column, value, dx, dy)."""
    out = []
    for i in range(n):
        for p in range(int(indptr[i]), int(indptr[i + 1])):
            out.append((i, int(indices[p]), complex(hop[p]), float(dx[p]), float(dy[p])))
    return sorted(out, key=lambda t: (t[0], t[1], round(t[3] + OFF, 6), round(t[4] + OFF, 6), round(t[2].real, 8), round(t[2].imag, 8)))


def compare_arrays(ctx, sample, rs, what, scale=1.0):
    ctx.equal(sample.num_orb, rs.num, f"{what}: number of orbitals")
    ctx.close(sample.orb_eng, rs.eng / scale, 1e-10, f"{what}: orbital energies")
    ctx.close(sample.orb_pos, rs.pos, 1e-8, f"{what}: orbital positions")
    hi, hj = np.asarray(sample.hop_i), np.asarray(sample.hop_j)
    ctx.check(hi.dtype.kind == "i" and hj.dtype.kind == "i", f"{what}: hopping indices are not integers")
    ctx.equal((len(hi), len(hj), len(sample.hop_v)), (len(sample.dr),) * 3, f"{what}: lengths of the hopping arrays")
    ref.compare_terms(ctx, list(zip(hi.tolist(), hj.tolist(), (np.asarray(sample.hop_v)).tolist(), np.asarray(sample.dr))),
                      [(i, j, e / scale, d) for i, j, e, d in rs.terms], what)


@sub("C08", sample_case, quick=560, shards=6, rule="two or more parts, or vacancies / modifiers, and at least 6 bonds")
def assembly(case, ctx):
    sample, rs, built, inter = build(case)
    n = rs.num
    # lazily built: ask for one of the forms first
    h0 = sample.build_ham_csr()
    ctx.close(h0.toarray(), rs.ham(), 1e-9, "build_ham_csr")
    sample.init_orb_pos()
    compare_arrays(ctx, sample, rs, "sample arrays")
    ctx.equal(sample.num_hop, len(rs.terms), "num_hop")
    ctx.close(sample.sc0.sc_lat_vec, rs.lat, 1e-9, "lattice of the first supercell")
    first = case["parts"][next(p for p in case["perm"] if p < len(built))]["cell"]
    lat = np.array(first["lat"]) * ref.ANG
    ctx.equal(sample.nr_orbitals, len(first["orbs"]), "nr_orbitals: orbitals of the primitive cell")
    ctx.close(sample.area_unit_cell, np.linalg.norm(np.cross(lat[0], lat[1])), 1e-10, "area_unit_cell")
    ctx.close(sample.volume_unit_cell, abs(np.linalg.det(lat)), 1e-10, "volume_unit_cell")
    ctx.equal((sample.extended, sample.rescale, sample.energy_range), (1, 1.0, 2.0), "extended, rescale and energy_range of a fresh sample")
    k = np.array(case["k"])
    want = rs.ham(k)
    dense = np.full((n, n), 3.0 + 1j)
    sample.set_ham_dense(k, dense)
    ctx.close(dense, want, 1e-9, "set_ham_dense")
    ctx.close(sample.set_ham_csr(k).toarray(), want, 1e-9, "set_ham_csr")
    ctx.raises(ValueError, lambda: sample.set_ham_dense(k, dense, convention=2), "convention 2 is not available for samples")
    pairs = [tuple(sorted(t[:2])) for t in rs.terms]
    dup = len(set(pairs)) < len(pairs)
    if not dup:
        dx, dy = sample.build_dxy_csr()
        wx, wy = np.zeros((n, n)), np.zeros((n, n))
        for i, j, e, d in rs.terms:
            wx[i, j], wx[j, i], wy[i, j], wy[j, i] = d[0], -d[0], d[1], -d[1]
        ctx.close(dx.toarray(), wx, 1e-8, "build_dxy_csr: dx")
        ctx.close(dy.toarray(), wy, 1e-8, "build_dxy_csr: dy")
    want_rows = [(i, i, complex(e), 0.0, 0.0) for i, e in enumerate(rs.eng) if abs(e) >= case["cutoff"]]
    for i, j, e, d in rs.terms:
        want_rows += [(i, j, e, d[0], d[1]), (j, i, e.conjugate(), -d[0], -d[1])]
    ptr = np.concatenate([[0], np.cumsum(np.bincount([w[0] for w in want_rows], minlength=n))]) if want_rows else np.zeros(n + 1)
    key = lambda t: (t[0], t[1], round(t[3] + OFF, 6), round(t[4] + OFF, 6), round(t[2].real, 8), round(t[2].imag, 8))
    want_rows.sort(key=key)
    for algo in ("fast", "safe"):
        for sort_col in (False, True):
            what = f"build_ham_dxy({algo}, sort_col={sort_col})"
            res = sample.build_ham_dxy(orb_eng_cutoff=case["cutoff"], algo=algo, sort_col=sort_col)
            ctx.equal(np.asarray(res[0]).tolist(), ptr.astype(int).tolist(), f"{what}: indptr")
            got = rows_of(n, *res)
            ctx.equal([t[:2] for t in got], [t[:2] for t in want_rows], f"{what}: stored elements")
            ctx.close(np.array([t[2] for t in got]), np.array([t[2] for t in want_rows]), 1e-9, f"{what}: elements")
            ctx.close(np.array([t[3:] for t in got]).reshape(-1, 2), np.array([t[3:] for t in want_rows]).reshape(-1, 2), 1e-8,
                      f"{what}: displacements")
            if sort_col:
                for i in range(n):
                    cols = np.asarray(res[1])[int(res[0][i]):int(res[0][i + 1])].tolist()
                    ctx.equal(cols, sorted(cols), f"{what}: columns of row {i}")
    compare_arrays(ctx, sample, rs, "sample arrays after building the matrices")
    sample.set_k_point(k)
    ctx.close(sample.build_ham_csr().toarray(), want, 1e-9, "build_ham_csr after set_k_point")
    ctx.label("parts:%d" % len(case["parts"]), "inter:%d" % len(case["inter"]), "dup" if dup else "nodup", "cutoff:%g" % case["cutoff"])
    ctx.nontrivial(len(rs.terms) >= 6 and (len(case["parts"]) > 1 or case["parts"][0]["vac"] or case["parts"][0]["hops"]))


sub("C08", sample_case(2, 700, 6), quick=20, shards=3, rule="as for assembly, larger supercells", name="large")(assembly)


@st.composite
def fold_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=7, max_r=draw(st.sampled_from([1, 1, 2])), dims=draw(st.integers(1, 3))))
    dim = ref.dim_min(c)
    for i in range(3):
        if np.prod(dim) * len(c["orbs"]) < 60:
            dim[i] += draw(st.integers(0, 2))
    return {"cell": c, "dim": dim, "ks": draw(st.lists(g.kpoint(-2, 2), min_size=1, max_size=3))}


@sub("C08", fold_case, quick=280, shards=3, rule="supercell of at least two cells and at least 4 hopping terms per cell or 2 orbitals")
def folding(case, ctx):
    """Fully periodic sample: bands are the folded bands of the primitive cell."""
    import tbplas as tb
    c, dim = case["cell"], case["dim"]
    cell = ref.build_cell(c)
    sample = tb.Sample(tb.SuperCell(cell, dim=tuple(dim), pbc=(True, True, True)))
    ks = np.array(case["ks"])
    k_len, bands = sample.calc_bands(ks, echo_details=False)
    ks_c = ks @ ref.recip(sample.sc0.sc_lat_vec)
    want_len = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(ks_c, axis=0), axis=1))])
    ctx.close(k_len, want_len, 1e-7, "length of the k-path")
    sample.init_orb_eng()
    sample.init_hop()
    for ik, k in enumerate(ks):
        want = []
        for a in range(dim[0]):
            for b in range(dim[1]):
                for d in range(dim[2]):
                    kk = (k + np.array([a, b, d])) / np.array(dim)
                    want.append(np.linalg.eigvalsh(ref.ham_of(c, kk)))
        want = np.sort(np.concatenate(want))
        ctx.close(np.sort(bands[ik]), want, 1e-8, "folded bands")
    ctx.label("size:%d" % int(np.prod(dim)))
    ctx.nontrivial(np.prod(dim) >= 2 and (len(c["hops"]) >= 4 or len(c["orbs"]) >= 2))


@sub("C08", sample_case, quick=120, shards=1, rule="a legal sample")
def closure(case, ctx):
    """Illegal part lists are rejected."""
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    sample, rs, built, inter = build(case)
    ctx.raises(exc.SampleVoidError, lambda: tb.Sample(), "no parts")
    ctx.raises(exc.SampleCompError, lambda: tb.Sample(built[0][0], built[0][2]), "a primitive cell as part")
    for h, spec in zip(inter, case["inter"]):
        for side in ("bra", "ket"):
            rest = [b[0] for i, b in enumerate(built) if i != spec[side]]
            ctx.raises(exc.SampleClosureError, lambda: tb.Sample(*rest, h), f"{side} supercell missing")
    if len(built) > 1:
        void = tb.SCInterHopping(built[0][0], built[1][0])
        s2 = tb.Sample(built[0][0], built[1][0], void)
        ctx.raises(exc.InterHopVoidError, s2.init_hop, "empty inter-hopping")
    sample.init_orb_eng(), sample.init_orb_pos(), sample.init_hop()
    compare_arrays(ctx, sample, rs, "sample after rejected constructions")
    ctx.label("inter:%d" % len(inter))
    ctx.nontrivial()


@st.composite
def pair_case(draw):
    parts = [draw(super_case(max_extra=1, loops=False)) for _ in range(2)]
    term = st.tuples(g.rn_strategy(draw(st.sampled_from([1, 3]))), st.integers(0, 400), st.integers(0, 400), g.nonzero_complex()).map(list)
    return {"parts": parts, "terms": draw(g.sized(term, 1, 30)), "dup": draw(st.one_of(st.none(), st.integers(0, 29))), "rn": draw(g.rn_strategy(1))}


@sub("C08", pair_case, quick=160, shards=1, rule="at least four inter-hopping terms")
def pairs(case, ctx):
    """Terms between two supercells: each pair with its energy and bond vector; repeated pairs are reported on request."""
    import tbplas as tb
    (bra, t_bra, _, _), (ket, t_ket, _, _) = [build_super(p) for p in case["parts"]]
    obj, terms = tb.SCInterHopping(bra, ket), {}
    ctx.raises(Exception, obj.get_hop, "inter-hopping without terms")
    for rn, i, j, t in case["terms"]:
        key = (i % len(t_bra.ids), j % len(t_ket.ids))
        if key in {k[1:] for k in terms}:
            continue
        obj.add_hopping(tuple(rn), *key, ref.cplx(t))
        terms[(tuple(rn), *key)] = t

    def compare(what, check_dup):
        hi, hj, hv, dr = obj.get_hop(check_dup=check_dup)
        want = [(i, j, ref.cplx(t), t_ket.pos[j] + np.array(rn) @ t_ket.sc_lat - t_bra.pos[i]) for (rn, i, j), t in terms.items()]
        key = lambda t: (t[0], t[1], tuple(np.round(t[3] + OFF, 6)))
        got = sorted(zip(np.asarray(hi).tolist(), np.asarray(hj).tolist(), np.asarray(hv).tolist(), np.asarray(dr)), key=key)
        want.sort(key=key)
        ctx.equal([t[:2] for t in got], [t[:2] for t in want], f"{what}: pairs")
        ctx.close(np.array([t[2] for t in got]), np.array([t[2] for t in want]), 1e-12, f"{what}: energies")
        ctx.close(np.array([t[3] for t in got]), np.array([t[3] for t in want]), 1e-8, f"{what}: bond vectors")

    ctx.equal(obj.num_hop, len(terms), "number of terms")
    compare("distinct pairs", False)
    compare("distinct pairs, checked", True)
    if case["dup"] is not None:
        rn, i, j = list(terms)[case["dup"] % len(terms)]
        shift = tuple(np.add(rn, case["rn"]).tolist()) if any(case["rn"]) else (rn[0] + 1, *rn[1:])
        obj.add_hopping(shift, i, j, 0.5)
        terms[(shift, i, j)] = [0.5, 0.0]
        ctx.raises(ValueError, lambda: obj.get_hop(check_dup=True), "a pair with two terms")
        compare("a pair with two terms", False)
    ctx.label("dup" if case["dup"] is not None else "nodup")
    ctx.nontrivial(len(terms) >= 4)
