"""C13: spin-orbit matrix elements against angular-momentum algebra."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt.harness import sub
from pbt.checks.c12_sk import LABELS, tensor, vec

SPINS = ["up", "down"]
PAULI = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]


def l_matrices():
    """L_x, L_y, L_z in the basis of the nine real orbitals."""
    out = []
    for k in range(3):
        cross = np.zeros((3, 3))
        for j in range(3):
            cross[:, j] = np.cross(np.eye(3)[k], np.eye(3)[j])
        m = np.zeros((9, 9), complex)
        for b, lb in enumerate(LABELS):
            for a, la in enumerate(LABELS):
                if la[0] != lb[0] or la == "s":
                    continue
                if la[0] == "p":
                    m[a, b] = 1j * vec(la) @ cross @ vec(lb)
                else:
                    q = tensor(lb)
                    m[a, b] = 1j * np.sum(tensor(la) * (cross @ q + q @ cross.T))
        out.append(m)
    return out


LMAT = l_matrices()
LS = sum(np.kron(l, 0.5 * p) for l, p in zip(LMAT, PAULI))      # index = orbital * 2 + spin


def want(i, si, j, sj):
    return LS[2 * LABELS.index(i) + SPINS.index(si), 2 * LABELS.index(j) + SPINS.index(sj)]


def implementations():
    import tbplas as tb
    return {"SOC": tb.SOC, "SOCTable": tb.SOCTable, "SOCTable2": tb.SOCTable2}


pairs = [[a, s, b, t] for a in LABELS for s in SPINS for b in LABELS for t in SPINS if abs(LS[2 * LABELS.index(a) + SPINS.index(s),
                                                                                         2 * LABELS.index(b) + SPINS.index(t)]) > 1e-9]
hit = st.sampled_from(pairs)
call = st.tuples(st.sampled_from(LABELS), st.sampled_from(SPINS), st.sampled_from(LABELS), st.sampled_from(SPINS)).map(list)
bad = st.sampled_from([["f", "up", "s", "up"], ["px", "left", "py", "up"], ["px", "up", "p", "up"], ["px", "up", "py", "Down"], ["", "up", "s", "down"]])


@st.composite
def calls(draw):
    return {"impl": draw(st.sampled_from(["SOC", "SOCTable", "SOCTable2"])), "calls": draw(g.sized(g.weighted((5, hit), (4, call), (1, bad)), 10, 60))}


@sub("C13", calls, quick=600, shards=4, rule="at least five non-zero elements were asked for")
def elements(case, ctx):
    """Sequences of queries on one object: every answer is the L.S element, whatever was asked before."""
    obj = implementations()[case["impl"]]()
    count = 0
    for c in case["calls"]:
        legal = c[0] in LABELS and c[2] in LABELS and c[1] in SPINS and c[3] in SPINS
        ask = lambda: obj.eval(label_i=c[0], spin_i=c[1], label_j=c[2], spin_j=c[3])
        if not legal:
            ctx.raises(ValueError, ask, f"labels {c}")
            continue
        got, w = ask(), want(*c)
        ctx.check(abs(got - w) < 1e-10, f"{case['impl']}: <{c[0]} {c[1]}|L.S|{c[2]} {c[3]}> is {got}, expected {w}")
        count += abs(w) > 1e-9
    ctx.label(case["impl"])
    ctx.nontrivial(count >= 5)


@st.composite
def shells(draw):
    return {"impl": draw(st.sampled_from(["SOC", "SOCTable", "SOCTable2"])), "order": draw(st.permutations(LABELS)),
            "rep": draw(st.integers(1, 2))}


@sub("C13", shells, quick=60, shards=1, rule="always")
def shell(case, ctx):
    """Full matrices, orbitals queried in any order: spectrum, hermiticity, time reversal."""
    obj = implementations()[case["impl"]]()
    order = case["order"]
    for _ in range(case["rep"]):
        m = np.array([[obj.eval(label_i=a, spin_i=s, label_j=b, spin_j=t) for b in order for t in SPINS] for a in order for s in SPINS],
                     dtype=complex)
    w = np.array([[want(a, s, b, t) for b in order for t in SPINS] for a in order for s in SPINS])
    ctx.close(m, w, 1e-10, f"{case['impl']}: matrix of L.S")
    ctx.close(m, m.conj().T, 1e-12, "hermiticity")
    ctx.close(np.trace(m), 0, 1e-12, "trace")
    tr = np.kron(np.eye(9), np.array([[0, 1], [-1, 0]]))
    ctx.close(tr @ m.conj() @ tr.T, m, 1e-10, "time reversal")
    ctx.close(np.linalg.eigvalsh(m), np.sort([0.0] * 2 + [-1.0] * 2 + [0.5] * 4 + [-1.5] * 4 + [1.0] * 6), 1e-9, "spectrum of the shells")
    ctx.nontrivial()


def states(l_max=3):
    return [(l, m) for l in range(l_max + 1) for m in range(-l, l + 1)]


STATES = states()


def ladder(op):
    mat = np.zeros((len(STATES),) * 2)
    for b, (l, m) in enumerate(STATES):
        if op == "lz":
            mat[b, b] = m
            continue
        up = m + (1 if op == "l+" else -1)
        if abs(up) <= l:
            mat[STATES.index((l, up)), b] = np.sqrt(l * (l + 1) - m * up)
    return mat


comp = st.tuples(st.integers(0, len(STATES) - 1), g.nonzero_complex()).map(list)
bad_qn = st.sampled_from([[0, 1], [1, -2], [2, 3], [1, 2], [3, -4], [-1, 0]])


@st.composite
def orbital_case(draw):
    return {"bra": draw(st.lists(comp, min_size=1, max_size=6)), "ket": draw(st.lists(comp, min_size=1, max_size=6)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["l+", "l-", "lz", "read", "set", "product", "mtxel", "bad"]), comp).map(list), min_size=1, max_size=8)),
            "bad": draw(bad_qn)}


@sub("C13", orbital_case, quick=500, shards=1, rule="at least two operators were applied to a state with two components")
def operators(case, ctx):
    """Histories of angular-momentum operators on a state of several |l,m>."""
    import tbplas as tb
    from tbplas.builder import advanced
    AtomicOrbital = getattr(advanced, "AtomicOrbital", None) or getattr(tb, "AtomicOrbital", None)
    if AtomicOrbital is None:
        return      # the class is not part of the documented interface
    objs, vecs = [], []
    for spec in (case["bra"], case["ket"]):
        o, v = AtomicOrbital(), np.zeros(len(STATES), complex)
        for i, c in spec:
            o[STATES[i]] = complex(*c)
            v[i] = complex(*c)
        objs.append(o)
        vecs.append(v)
    (bra, ket), (vb, vk) = objs, vecs
    applied = 0
    for op, (i, c) in case["ops"]:
        if op in ("l+", "l-", "lz"):
            {"l+": ket.l_plus, "l-": ket.l_minus, "lz": ket.l_z}[op]()
            vk = ladder(op) @ vk
            applied += 1
        elif op == "read":
            ctx.close(ket[STATES[i]], vk[i], 1e-9 * (1 + abs(vk[i])), f"coefficient of {STATES[i]}")
        elif op == "set":
            ket[STATES[i]] = complex(*c)
            vk[i] = complex(*c)
        elif op == "product":
            ctx.close(bra.product(ket), vb.conj() @ vk, 1e-9 * (1 + np.abs(vk).max()), "inner product")
            ctx.close(ket.product(bra), vk.conj() @ vb, 1e-9 * (1 + np.abs(vk).max()), "inner product, exchanged")
        elif op == "mtxel":
            for name in ("l+", "l-", "lz"):
                ctx.close(bra.mtxel(ket, name), vb.conj() @ ladder(name) @ vk, 1e-9 * (1 + 10 * np.abs(vk).max()), f"matrix element of {name}")
        else:
            key = tuple(case["bad"])
            ctx.raises(ValueError, lambda: ket.__setitem__(key, 1.0), f"coefficient of the illegal state {key}")
            ctx.raises(ValueError, lambda: ket[key], f"reading the illegal state {key}")
            ctx.raises(ValueError, lambda: bra.mtxel(ket, "lx"), "unknown operator")
    for b, s in enumerate(STATES):
        ctx.close(ket[s], vk[b], 1e-9 * (1 + np.abs(vk).max()), f"final coefficient of {s}")
        ctx.close(bra[s], vb[b], 1e-12 * (1 + np.abs(vb).max()), f"coefficient of {s} of the bra state")
    ctx.nontrivial(applied >= 2 and len({i for i, _ in case["ket"]}) >= 2)


@sub("C13", st.tuples(st.sampled_from(SPINS + ["left"]), st.sampled_from(SPINS + ["Up"])).map(list), quick=30, shards=1, rule="legal spins")
def printed(case, ctx):
    """The printed table lists exactly the non-vanishing elements."""
    import contextlib
    import io
    import tbplas as tb
    soc = tb.SOC()
    if not set(case) <= set(SPINS):
        ctx.raises(ValueError, lambda: soc.print_soc_table(*case), f"spins {case}")
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        soc.print_soc_table(spin_i=case[0], spin_j=case[1])
    table = eval(out.getvalue()[out.getvalue().index("{"):])
    nonzero = {(a, b): want(a, case[0], b, case[1]) for a in LABELS for b in LABELS if abs(want(a, case[0], b, case[1])) > 1e-9}
    ctx.equal(sorted(table), sorted(nonzero), f"elements in the table {case}")
    for k in nonzero:
        ctx.close(table[k], nonzero[k], 1e-9, f"element {k} of the table {case}")
    ctx.nontrivial()
