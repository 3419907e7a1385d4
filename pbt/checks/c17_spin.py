"""C17: spin textures against Pauli expectation values, along histories of edits."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

SIGMA = {"x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.array([[1, 0], [0, -1]])}


@st.composite
def spin_case(draw):
    n = 2 * draw(g.weighted((11, st.integers(1, 3)), (1, st.integers(4, 10))))
    c = draw(g.cell(min_orb=n, max_orb=n, min_hop=1, max_hop=9 if n < 8 else 30, max_r=1))
    grid = g.weighted((9, g.sized(g.kpoint(-2, 2), 1, 4)), (1, g.sized(g.kpoint(-2, 2), 5, 80)))
    op = g.weighted(
        (6, st.tuples(st.just("eval"), st.sampled_from("xyz"))),
        (2, st.tuples(st.just("grid"), grid)),
        (1, st.tuples(st.just("inplace"), st.integers(0, 9), g.kpoint(-2, 2))),
        (1, st.tuples(st.just("neg"), st.integers(0, 9), st.integers(0, 2), st.sampled_from([-1.0, -2.0]))),
        (2, st.tuples(st.just("eng"), st.integers(0, 9), g.real_val)),
        (1, st.tuples(st.just("hop"), st.integers(0, 9), g.nonzero_complex())),
        (1, st.tuples(st.just("orb"), st.lists(g.pos_comp, min_size=3, max_size=3), g.real_val))).map(list)
    return {"cell": c, "grid": draw(grid), "order": draw(st.sampled_from(["spin", "orbital", "custom"])),
            "perm": draw(st.permutations(list(range(n)))), "ops": draw(g.sized(op, 2, 7))}


def pauli(n, order, perm, comp):
    s = SIGMA[comp]
    m = n // 2
    if order == "orbital":
        return np.kron(np.eye(m), s)
    full = np.kron(s, np.eye(m))
    if order == "spin":
        return full
    p = np.array(perm)          # position of (spin, orbital) in the basis
    out = np.zeros((n, n), dtype=complex)
    out[np.ix_(p, p)] = full
    return out


@sub("C17", spin_case, 800, shards=6, rule="an evaluation follows a change of the grid or the model")
def texture(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    grid = np.array(case["grid"], dtype=float)
    perm = list(case["perm"])
    if case["order"] == "custom":
        class Custom(tb.SpinTexture):
            def split_spin(self, state):
                m = len(perm) // 2
                return state[perm[:m]], state[perm[m:]]
        solver = Custom(cell, grid, echo_details=False)
    else:
        solver = tb.SpinTexture(cell, grid, spin_major=case["order"] == "spin", echo_details=False)

    def evaluate(comp):
        n = len(c["orbs"])
        got = solver.eval(comp)
        ctx.equal(got.shape, (len(grid), n), "shape of the spin texture")
        op = pauli(n, case["order"], perm, comp)
        for ik, k in enumerate(grid):
            e, v = np.linalg.eigh(ref.ham_of(c, k, 1))
            vals = np.einsum("ib,ij,jb->b", v.conj(), op, v).real
            scale = 1 + np.max(np.abs(e))
            i = 0
            while i < n:                       # groups of degenerate bands: only the sum is defined
                j = i + 1
                while j < n and e[j] - e[j - 1] < 1e-4 * scale:
                    j += 1
                ctx.close(np.sum(got[ik, i:j]), np.sum(vals[i:j]), 1e-8,
                          f"sigma_{comp} of bands {i}..{j - 1} at k-point {k.tolist()}")
                i = j
        ctx.close(solver.k_cart, grid @ ref.recip(np.array(c["lat"]) * 0.1), 1e-7 * (1 + np.max(np.abs(solver.k_cart))), "k_cart")
        return got

    evaluate("z")
    changed = False
    for op in case["ops"]:
        n = len(c["orbs"])
        if op[0] == "eval":
            evaluate(op[1])
            ctx.nontrivial(changed)
            continue
        changed = True
        if op[0] == "grid":
            grid = np.array(op[1], dtype=float)
            solver.k_grid = grid
        elif op[0] == "inplace":
            grid[op[1] % len(grid)] = op[2]
        elif op[0] == "neg":
            grid = grid.copy()
            grid[op[1] % len(grid), op[2]] = op[3]
            solver.k_grid = grid
        elif op[0] == "eng":
            i = op[1] % n
            cell.set_orbital(i, energy=op[2])
            c["orbs"][i][1] = op[2]
        elif op[0] == "hop":
            h = c["hops"][op[1] % len(c["hops"])]
            cell.add_hopping(tuple(h[0]), h[1], h[2], ref.cplx(op[2]))
            h[3] = op[2]
        elif op[0] == "orb" and case["order"] != "custom":
            for s in (0, 1):
                cell.add_orbital(tuple(op[1]), op[2] + 0.37 * s, "N")
                c["orbs"].append([op[1], op[2] + 0.37 * s, "N"])
        ctx.label(op[0])
    tot = sum(evaluate(comp) ** 2 for comp in "xyz")
    ctx.check(np.max(tot) <= 1 + 1e-8, f"spin longer than one: {np.max(tot)}")
    ctx.nontrivial(changed)
    ctx.label(case["order"])
