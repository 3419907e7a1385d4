"""C06: index conversions of supercells with vacancies."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

any_id = st.integers(0, 400) | st.integers(0, 10 ** 5)
vac_sel = st.lists(any_id, max_size=6)
op = g.weighted(
    (3, st.tuples(st.just("add"), any_id, st.integers(0, 2))),
    (3, st.tuples(st.just("adds"), vac_sel, st.integers(0, 2))),
    (2, st.tuples(st.just("set"), st.one_of(st.none(), vac_sel), st.integers(0, 2))),
    (1, st.tuples(st.just("block"), any_id, st.integers(1, 12) | st.integers(1, 100))),
    (2, st.tuples(st.just("move"), any_id, st.integers(0, 3), st.integers(1, 3))),
    (1, st.tuples(st.just("pc_hop"), st.integers(0, 9))),
    (2, st.tuples(st.just("bad"), st.integers(0, 8), st.integers(0, 2))),
    (2, st.tuples(st.just("pc_add"), g.real_val)),
    (2, st.tuples(st.just("pc_rm"), st.integers(0, 5))),
    (1, st.tuples(st.just("lock"), st.integers(0, 400))),
    (1, st.tuples(st.just("sync"), st.booleans())),
).map(list)


@st.composite
def case_strategy(draw, extra=2, orbs=4):
    c = draw(g.cell(max_orb=orbs, min_hop=1, max_hop=3, max_r=1, dims=3 if extra == 2 else 2))
    dims = [m + draw(st.integers(0, extra if d < 2 else 2)) for d, m in enumerate(ref.dim_min(c))]
    return {"cell": c, "dim": dims, "short": draw(st.booleans()), "vac": draw(st.one_of(st.none(), vac_sel)),
            "ops": draw(g.sized(op, 0, 8)), "every": draw(st.booleans()), "lazy": draw(st.integers(0, 2)) == 0}


def fmt(ids, kind):
    if kind == 0:
        return [tuple(x) for x in ids]
    if kind == 1:
        return [list(x) for x in ids]
    return np.array(ids, dtype=np.int32).reshape(-1, 4)


def check_map(ctx, sc, dim, n, vac, where):
    from tbplas.builder import exceptions as exc
    ids = [(a, b, c, o) for a in range(dim[0]) for b in range(dim[1]) for c in range(dim[2]) for o in range(n)]
    live = [t for t in ids if t not in vac]
    ctx.equal(sc.num_orb_pc, n, f"{where}: num_orb_pc")
    ctx.equal(sc.num_vac, len(vac), f"{where}: num_vac")
    ctx.equal(sc.num_orb_sc, len(live), f"{where}: num_orb_sc")
    if live:
        arr = np.array(live, dtype=np.int32)
        ctx.equal(sc.orb_id_pc2sc_array(arr).tolist(), list(range(len(live))), f"{where}: orb_id_pc2sc_array")
        ctx.equal(np.asarray(sc.orb_id_sc2pc_array(np.arange(len(live), dtype=np.int64))).tolist(), [list(t) for t in live],
                  f"{where}: orb_id_sc2pc_array")
        # array conversions in another order
        rev = list(range(len(live)))[::-3]
        ctx.equal(np.asarray(sc.orb_id_sc2pc_array(np.array(rev))).tolist(), [list(live[i]) for i in rev],
                  f"{where}: orb_id_sc2pc_array, other order")
        ctx.equal(np.asarray(sc.orb_id_pc2sc_array(np.array([live[i] for i in rev]))).tolist(), rev,
                  f"{where}: orb_id_pc2sc_array, other order")
        # other types and memory layouts
        wide = np.array([live[i] for i in rev], dtype=np.int64)
        for form, x in (("list", wide.tolist()), ("int64", wide), ("int16", wide.astype(np.int16)),
                        ("Fortran order", np.asfortranarray(wide.astype(np.int32)).tolist())):
            ctx.equal(np.asarray(sc.orb_id_pc2sc_array(x)).tolist(), rev, f"{where}: orb_id_pc2sc_array of {form}")
        for form, x in (("list", rev), ("int32", np.array(rev, dtype=np.int32)), ("tuple", tuple(rev))):
            ctx.equal(np.asarray(sc.orb_id_sc2pc_array(x)).tolist(), wide.tolist(), f"{where}: orb_id_sc2pc_array of {form}")
        step = max(1, len(live) // 12)
        for i in list(range(0, len(live), step)) + [len(live) - 1]:
            t = live[i]
            ctx.equal(sc.orb_id_pc2sc(t), i, f"{where}: orb_id_pc2sc{t}")
            ctx.equal(sc.orb_id_pc2sc(np.array(t)), i, f"{where}: orb_id_pc2sc(array {t})")
            ctx.equal(np.asarray(sc.orb_id_sc2pc(i)).tolist(), list(t), f"{where}: orb_id_sc2pc({i})")
            # an index that was handed out is the caller's, who may go on from there to another cell
            mine = sc.orb_id_sc2pc(i)
            if isinstance(mine, np.ndarray) and mine.flags.writeable:
                mine[:3] = (mine[:3] + 1) % np.array(dim)
                ctx.equal(np.asarray(sc.orb_id_sc2pc(i)).tolist(), list(t), f"{where}: orb_id_sc2pc({i}) after the index handed out before was changed")
    for v in sorted(vac)[:4]:
        ctx.raises(exc.IDPCVacError, lambda: sc.orb_id_pc2sc(tuple(v)), f"{where}: vacancy {v}")
        bad = np.array((live[:2] if live else []) + [v], dtype=np.int32)
        ctx.raises(exc.IDPCVacError, lambda: sc.orb_id_pc2sc_array(bad), f"{where}: vacancy {v} in an array")
    for i in (-1, len(live), len(live) + 3):
        ctx.raises(exc.IDSCIndexError, lambda: sc.orb_id_sc2pc(i), f"{where}: orb_id_sc2pc({i})")
        ctx.raises(exc.IDSCIndexError, lambda: sc.orb_id_sc2pc_array(np.array([0, i] if live else [i])), f"{where}: orb_id_sc2pc_array([0, {i}])")
        ctx.raises(exc.IDSCIndexError, lambda: sc.orb_id_sc2pc_array(np.array([*range(len(live)), i])), f"{where}: orb_id_sc2pc_array([..., {i}])")
        ctx.raises(exc.IDSCIndexError, lambda: sc.orb_id_sc2pc_array(np.array([i, *range(len(live))])), f"{where}: orb_id_sc2pc_array([{i}, ...])")
    for d in range(4):
        top = (list(dim) + [n])[d]
        for x in (-1, top):
            t = [0, 0, 0, 0]
            t[d] = x
            ctx.raises(exc.IDPCIndexError, lambda: sc.orb_id_pc2sc(tuple(t)), f"{where}: orb_id_pc2sc{t}")
            ctx.raises(exc.IDPCIndexError, lambda: sc.orb_id_pc2sc(np.array(t)), f"{where}: orb_id_pc2sc(array {t})")
            ctx.raises(exc.IDPCIndexError, lambda: sc.orb_id_pc2sc_array(np.array([t])), f"{where}: orb_id_pc2sc_array([{t}])")
            if live:
                e = list(live[(7 * d + 3) % len(live)])
                e[d] = x
                ctx.raises(exc.IDPCIndexError, lambda: sc.orb_id_pc2sc_array(np.array([*live, e])), f"{where}: orb_id_pc2sc_array([..., {e}])")
                ctx.raises(exc.IDPCIndexError, lambda: sc.orb_id_pc2sc_array(np.array([e, *live])), f"{where}: orb_id_pc2sc_array([{e}, ...])")
    ctx.raises(exc.IDPCLenError, lambda: sc.orb_id_pc2sc((0, 0, 0)), f"{where}: index of length 3")
    ctx.raises(exc.IDPCTypeError, lambda: sc.orb_id_pc2sc([0, 0, 0, 0]), f"{where}: index as a list")
    ctx.raises(exc.IDPCLenError, lambda: sc.orb_id_pc2sc_array(np.zeros((1, 3), dtype=np.int32)), f"{where}: array of width 3")
    ctx.raises(ValueError, lambda: sc.orb_id_sc2pc_array(np.zeros((1, 1), dtype=np.int64)), f"{where}: matrix of indices")


class Listener:
    def __init__(self, seen):
        self.seen = seen

    def update(self):
        self.seen.append(1)


@sub("C06", case_strategy, quick=2000, shards=5, rule="the vacancy set changed at least twice and is not empty at the end")
def indices(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    c, dim = case["cell"], case["dim"]
    cell = ref.build_cell(c)
    n = len(c["orbs"])

    def sel(k):
        size = [*dim, n]
        out = []
        for s in reversed(size):
            out.append(k % s)
            k //= s
        return tuple(reversed(out))
    vac = set()
    init = None
    if case["vac"] is not None:
        init = [sel(k * 7) for k in case["vac"]]
        vac = set(init)
    args = dim[:2] if case["short"] and dim[2] == 1 else dim
    sc = tb.SuperCell(cell, dim=tuple(args), vacancies=init)
    check_map(ctx, sc, dim, n, vac, "initially")
    changes, seen, told = 0, [], False

    def refresh():
        """Tell everything built from the cell that it changed."""
        before = len(seen)
        if case["lazy"]:
            return
        if case["short"]:
            sc.sync_array()
            return
        cell.update()
        ctx.equal(len(seen) - before, int(told), f"{where}: calls of the update method of a subscriber")
        ctx.raises(exc.LockError, lambda: cell.add_orbital((0.0, 0.0, 0.0), 0.0), f"{where}: cell of a supercell after update()")
    for step, o in enumerate(case["ops"]):
        name, a = o[0], o[1:]
        where = f"step {step} {name}"
        ctx.label("op:" + name)
        if name == "add":
            v = sel(a[0])
            sc.add_vacancy(fmt([v], a[1])[0])
            vac.add(v)
            changes += 1
        elif name == "adds":
            vs = [sel(k) for k in a[0]]
            sc.add_vacancies(fmt(vs, a[1]))
            vac |= set(vs)
            changes += 1
        elif name == "block":
            vs = [sel(a[0] + k) for k in range(a[1])]
            sc.add_vacancies(vs)
            vac |= set(vs)
            changes += 1
        elif name == "move":
            # one vacancy replaced by a neighbouring one: same cell and other orbital, or same orbital and other cell
            if not vac:
                continue
            old = sorted(vac)[a[0] % len(vac)]
            new = list(old)
            new[a[1]] = (new[a[1]] + a[2]) % [*dim, n][a[1]]
            vac = (vac - {old}) | {tuple(new)}
            sc.set_vacancies(sorted(vac))
            changes += 1
        elif name == "pc_hop":
            terms = list(ref.cell_terms(cell))
            if len(terms) > 1:
                cell.unlock()
                cell.remove_hopping(*terms[a[0] % len(terms)])
                refresh()
        elif name == "set":
            if a[0] is None:
                sc.set_vacancies()
                vac = set()
            else:
                vs = [sel(k) for k in a[0]]
                sc.set_vacancies(fmt(vs, a[1]))
                vac = set(vs)
            changes += 1
        elif name == "bad":
            d = a[0] % 4
            t = [0, 0, 0, 0]
            t[d] = -1 if a[0] >= 4 else [*dim, n][d]
            ctx.raises(exc.IDPCIndexError, lambda: sc.add_vacancy(fmt([t], a[1])[0]), where)
            ctx.raises(exc.IDPCLenError, lambda: sc.add_vacancy((0, 0, 0)), where)
        elif name == "lock":
            v = sel(a[0])
            sc.add_subscriber("x", Listener(seen))
            told = True
            sc.lock("x")
            ctx.raises(exc.LockError, lambda: sc.add_vacancy(v), where)
            ctx.raises(exc.LockError, lambda: sc.set_vacancies([v]), where)
            sc.unlock()
        elif name == "sync":
            sc.sync_array(force_sync=a[0])
        elif name == "pc_add":
            if not case["lazy"]:
                ctx.raises(exc.LockError, lambda: cell.add_orbital((0.0, 0.0, 0.0), a[0]), f"{where}: cell of a supercell")
            cell.unlock()
            cell.add_orbital((0.1, 0.2, 0.3), a[0])
            n += 1
            refresh()
        elif name == "pc_rm":
            i = a[0] % n
            stay = [h for h in ref.cell_terms(cell) if i not in h[1:]]
            if n == 1 or not stay:
                continue
            if any(v[3] == n - 1 for v in vac) and a[0] % 2:      # a vacancy that no longer exists is reported, and can be taken back
                cell.unlock()
                cell.remove_orbital(i)
                n -= 1
                ctx.raises(exc.IDPCIndexError, sc.sync_array, f"{where}: vacancy at a removed orbital")
                ctx.raises(exc.IDPCIndexError, sc.get_orb_eng, f"{where}: vacancy at a removed orbital, asked again")
                vac = {v for v in vac if v[3] < n}
                sc.set_vacancies(sorted(vac))
                refresh()
                continue
            if any(v[3] == n - 1 for v in vac):
                sc.set_vacancies([v for v in vac if v[3] < n - 1])
                vac = {v for v in vac if v[3] < n - 1}
            cell.unlock()
            cell.remove_orbital(i)
            n -= 1
            refresh()
        if len(vac) >= n * np.prod(dim):
            sc.set_vacancies([])
            vac = set()
        if case["every"]:
            check_map(ctx, sc, dim, n, vac, where)
    check_map(ctx, sc, dim, n, vac, "at the end")
    ctx.nontrivial(changes > 1 and len(vac) > 0)


sub("C06", case_strategy(14, 6), quick=60, shards=2, rule="as for indices, supercells of up to some thousand orbitals", name="large")(indices)


@st.composite
def bad_case(draw):
    c = draw(g.cell(max_orb=3, min_hop=1, max_hop=3, max_r=2))
    return {"cell": c, "dir": draw(st.integers(0, 2)), "cut": draw(st.integers(1, 2)), "len": draw(st.sampled_from([1, 4]))}


@sub("C06", bad_case, quick=200, shards=1, rule="the size is too small along a direction")
def rejected(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    c = case["cell"]
    dm = ref.dim_min(c)
    cell = ref.build_cell(c)
    sc = tb.SuperCell(cell, dim=tuple(dm))
    ctx.equal(sc.num_orb_sc, len(c["orbs"]) * int(np.prod(dm)), "smallest legal supercell")
    small = list(dm)
    small[case["dir"]] -= case["cut"]
    ctx.raises(exc.SCDimSizeError, lambda: tb.SuperCell(cell, dim=tuple(small)), f"dimension {small}")
    ctx.raises(exc.SCDimLenError, lambda: tb.SuperCell(cell, dim=(9,) * case["len"]), "dimension of a wrong length")
    ctx.raises(exc.PBCLenError, lambda: tb.SuperCell(cell, dim=tuple(dm), pbc=(True,) * case["len"]), "pbc of a wrong length")
    ctx.raises(exc.IDPCIndexError, lambda: tb.SuperCell(cell, dim=tuple(dm), vacancies=[(0, 0, 0, len(c["orbs"]))]), "illegal vacancy")
    empty = tb.PrimitiveCell()
    ctx.raises(exc.PCOrbEmptyError, lambda: tb.SuperCell(empty, dim=(1, 1, 1)), "cell without orbitals")
    one = tb.PrimitiveCell()
    one.add_orbital((0, 0, 0))
    ctx.raises(exc.PCHopEmptyError, lambda: tb.SuperCell(one, dim=(1, 1, 1)), "cell without terms")
    ctx.nontrivial()
