"""C02: Bloch Hamiltonian against an independent Fourier sum."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

big = g.cell(max_orb=6, max_hop=16, max_r=4)
far = g.cell(max_r=60)


def dense(cell, k, conv, overlap=False):
    cell.sync_array()
    h = np.zeros((cell.num_orb, cell.num_orb), dtype=np.complex128)
    (cell.set_overlap_dense if overlap else cell.set_ham_dense)(np.array(k, dtype=float), h, conv)
    return h


@st.composite
def ham_case(draw, cells=g.weighted((2, g.cell()), (2, big), (1, far))):
    c = draw(cells)
    n = len(c["orbs"])
    edits = draw(st.lists(st.one_of(
        st.tuples(st.just("e"), st.integers(0, n - 1), g.real_val),
        st.tuples(st.just("p"), st.integers(0, n - 1), st.lists(g.pos_comp, min_size=3, max_size=3)),
        st.tuples(st.just("h"), st.integers(0, 400), st.booleans(), g.nonzero_complex()),
        st.tuples(st.just("x"), st.integers(0, 400), st.booleans())).map(list), max_size=3))
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=3)),
            "g": draw(st.lists(st.integers(-2, 2), min_size=3, max_size=3)), "edits": edits}


def check_all(ctx, cell, c, ks, gvec):
    scale = 1.0 + sum(abs(o[1]) for o in c["orbs"]) + 2 * sum(abs(ref.cplx(h[3])) for h in c["hops"])
    tol = 1e-10 * scale
    for k in ks:
        hs = {}
        for conv in (1, 2):
            h0 = ref.ham_of(c, k, conv)
            h = hs[conv] = dense(cell, k, conv)
            ctx.close(h, h0, tol, f"set_ham_dense at {k}, convention {conv}")
            ctx.close(h, h.conj().T, tol, "hermiticity of the dense Hamiltonian")
            cell.sync_array()
            s = cell.set_ham_csr(np.array(k, dtype=float), conv)
            ctx.close(s.toarray(), h0, tol, f"set_ham_csr at {k}, convention {conv}")
        ctx.close(np.linalg.eigvalsh(hs[1]), np.linalg.eigvalsh(hs[2]), 10 * tol, "spectra of the two conventions")
        kg = [a + b for a, b in zip(k, gvec)]
        ctx.close(dense(cell, kg, 2), hs[2], 20 * tol, "convention 2 repeats with the reciprocal lattice")
        d = np.diag(ref.phase(np.array([o[0] for o in c["orbs"]]) @ np.array(gvec, dtype=float)))
        ctx.close(dense(cell, kg, 1), d.conj() @ hs[1] @ d, 20 * tol, "convention 1 under a reciprocal lattice shift")


@sub("C02", ham_case, quick=1200, shards=4, rule="at least 2 orbitals, a complex term and a k-point off the zone centre")
def hamiltonian(case, ctx):
    from tbplas.builder import exceptions as exc
    c = case["cell"]
    cell = ref.build_cell(c)
    check_all(ctx, cell, c, case["ks"], case["g"])
    # edits after the arrays were used
    for e in case["edits"]:
        if e[0] == "e":
            cell.set_orbital(e[1], energy=e[2])
            c["orbs"][e[1]][1] = e[2]
        elif e[0] == "p":
            cell.set_orbital(e[1], position=tuple(e[2]))
            c["orbs"][e[1]][0] = e[2]
        elif not c["hops"]:
            continue
        else:
            i = e[1] % len(c["hops"])
            rn, a, b, t = c["hops"][i]
            if e[2]:
                rn, a, b = [-x for x in rn], b, a
            if e[0] == "h":
                t = ref.cplx(e[3])
                cell.add_hopping(tuple(rn), a, b, t)
                t = t.conjugate() if e[2] else t
                c["hops"][i][3] = [t.real, t.imag]
            elif len(c["hops"]) > 1:
                cell.remove_hopping(tuple(rn), a, b)
                c["hops"].pop(i)
    if case["edits"]:
        cell.update()
        ctx.close(cell.set_ham_csr(np.array(case["ks"][0], dtype=float), 1).toarray(), ref.ham_of(c, case["ks"][0], 1), 1e-7,
                  "set_ham_csr after update()")
        check_all(ctx, cell, c, case["ks"], case["g"])
        ctx.label("edited")
    ctx.raises(ValueError, lambda: dense(cell, [0, 0, 0], 3), "illegal convention (dense)")
    ctx.raises(ValueError, lambda: cell.set_ham_csr(np.zeros(3), 0), "illegal convention (csr)")
    cell.apply_pbc((False, False, False))
    if cell.num_hop == 0:
        cell.sync_array()
        ctx.raises(exc.PCHopEmptyError, lambda: dense(cell, [0, 0, 0], 1), "cell without hopping terms")
    ctx.nontrivial(len(c["orbs"]) > 1 and any(abs(ref.cplx(h[3]).imag) > 0 for h in c["hops"]) and
                   any(any(x != 0 for x in k) for k in case["ks"]))


sub("C02", ham_case(g.bulk(orbs=(20, 90), hops=(40, 300), max_r=4)), quick=24, shards=2, rule="as for hamiltonian, with at least 20 orbitals",
    name="large")(hamiltonian)


@st.composite
def ovl_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=8))
    n = len(c["orbs"])
    return {"cell": c, "onsite": draw(st.lists(st.tuples(st.integers(0, n - 1), g.real_val).map(list), max_size=4)),
            "k": draw(g.kpoint())}


@sub("C02", ovl_case, quick=400, shards=2, rule="an on-site overlap was changed and there are 2 orbitals")
def overlap(case, ctx):
    import tbplas as tb
    c = case["cell"]
    ham_cell = ref.build_cell(dict(c, hops=[]))
    ham_cell.add_hopping((1, 0, 0), 0, 0, 1.0)
    ov = tb.Overlap(ham_cell)
    ctx.close(ov.lat_vec, ham_cell.lat_vec, 1e-12, "lattice vectors of the overlap")
    ctx.close(ov.orb_pos_nm, ham_cell.orb_pos_nm, 1e-10, "positions of the overlap")
    s = {"orbs": [[o[0], 1.0, o[2]] for o in c["orbs"]], "hops": c["hops"]}
    for rn, i, j, t in c["hops"]:
        ov.add_offsite(tuple(rn), i, j, ref.cplx(t))
    for i, v in case["onsite"]:
        ov.set_onsite(i, v)
        s["orbs"][i][1] = v
    for conv in (1, 2):
        s0 = ref.ham_of(s, case["k"], conv)
        ctx.close(dense(ov, case["k"], conv, overlap=True), s0, 1e-9, f"set_overlap_dense, convention {conv}")
        ctx.close(ov.set_overlap_csr(np.array(case["k"]), conv).toarray(), s0, 1e-9, f"set_overlap_csr, convention {conv}")
        # the Hamiltonian is not affected
        ctx.close(dense(ham_cell, case["k"], conv), ref.ham_of(dict(c, hops=[[[1, 0, 0], 0, 0, [1.0, 0.0]]]), case["k"], conv),
                  1e-9, "Hamiltonian next to an overlap")
    ctx.nontrivial(len(case["onsite"]) > 0 and len(c["orbs"]) > 1)


grid_pos = st.one_of(st.integers(-8, 16).map(lambda n: n / 8), st.sampled_from([1 / 3, 2 / 3, -1 / 3]))


@st.composite
def print_case(draw):
    c = draw(g.cell(max_orb=4, max_hop=8, max_r=3))
    for o in c["orbs"]:
        o[0] = draw(st.lists(grid_pos, min_size=3, max_size=3))
    return {"cell": c, "ks": draw(st.lists(g.kpoint(), min_size=1, max_size=2)), "conv": draw(st.integers(1, 2))}


@sub("C02", print_case, quick=500, shards=2, rule="at least 2 orbitals and 2 terms")
def printed(case, ctx):
    c = case["cell"]
    cell = ref.build_cell(c)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cell.print_hk(convention=case["conv"])
    text = out.getvalue()
    ctx.check("with exp_i" in text, "printed Hamiltonian does not end with the definition of exp_i")
    code = compile(text[:text.index("with exp_i")], "hk", "exec")
    n = len(c["orbs"])
    for k in case["ks"]:
        h = np.zeros((n, n), dtype=complex)
        env = {"ham": h, "exp_i": lambda x: complex(np.exp(2j * np.pi * x)), "ka": k[0], "kb": k[1], "kc": k[2]}
        exec(code, env)
        ctx.close(h, ref.ham_of(c, k, case["conv"]), 1e-7, f"printed Hamiltonian at {k}")
    ctx.raises(ValueError, lambda: cell.print_hk(convention=3), "illegal convention")
    ctx.nontrivial(n > 1 and len(c["hops"]) > 1)
