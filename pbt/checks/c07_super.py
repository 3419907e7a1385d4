"""C07: orbitals and bonds of supercells against brute-force tiling."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub


def make_mod(spec):
    """Position modifier from plain data: x += A x + b, plus a displacement of single orbitals."""
    if spec is None:
        return None
    mat, single = np.array(spec["mat"]), spec["single"]

    def mod(pos):
        pos[:] = pos + pos @ mat.T
        for i, d in single:
            pos[i % len(pos)] += d
    return mod


small = st.integers(-8, 8).map(lambda n: n / 40)
mod_st = st.one_of(st.none(), st.fixed_dictionaries({
    "mat": st.lists(st.lists(small, min_size=3, max_size=3), min_size=3, max_size=3),
    "single": st.lists(st.tuples(st.integers(0, 200), st.lists(small, min_size=3, max_size=3)).map(list), max_size=2)}))


@st.composite
def super_case(draw, max_extra=2, cap=260, loops=True):
    far = draw(st.integers(0, 11)) == 0                # a chain with bonds that skip many cells
    c = draw(g.cell(max_orb=4, max_hop=6, max_r=6 if far else draw(st.sampled_from([1, 1, 1, 2])), dims=1 if far else draw(st.integers(1, 3))))
    dim = [m + draw(st.integers(0, max_extra)) for m in ref.dim_min(c)]
    short = ref.dim_min(c)[2] == 1 and draw(st.booleans())     # dimensions and boundary conditions with two components
    if short:
        dim[2] = 1
    while np.prod(dim) * len(c["orbs"]) > cap:
        i = int(np.argmax(dim))
        if dim[i] <= ref.dim_min(c)[i]:
            break
        dim[i] -= 1
    size = int(np.prod(dim)) * len(c["orbs"])
    vac = draw(st.one_of(st.just([]), st.lists(st.integers(0, size - 1), max_size=min(6, size - 1), unique=True),
                         st.lists(st.integers(0, size - 1), min_size=size // 4, max_size=max(size // 3, 1), unique=True)))
    term = st.tuples(st.sampled_from(["new", "new", "existing", "conj"]), g.rn_strategy(draw(st.sampled_from([1, 1, 1, 4]))), st.integers(0, 400),
                     st.integers(0, 400), g.nonzero_complex(), st.sampled_from([0, 0, 0, 1, 2])).map(list)
    mods = draw(g.weighted((7, st.lists(term, max_size=4)), (1, g.sized(term, 5, 24))))
    return {"cell": c, "dim": dim, "pbc": [draw(st.booleans()), draw(st.booleans()), not short and draw(st.booleans())], "vac": vac, "hops": mods,
            "pos": draw(mod_st), "late": draw(st.booleans()), "short": short, "loops": loops}


def vac_ids(case):
    n = len(case["cell"]["orbs"])
    all_ids = [(a, b, c, o) for a in range(case["dim"][0]) for b in range(case["dim"][1]) for c in range(case["dim"][2])
               for o in range(n)]
    return [all_ids[i] for i in case["vac"]]


def plan_mods(case, tiled):
    """Concrete modifier terms: legal, and no two of them act on the same pair."""
    num = len(tiled.ids)
    out, used = [], set()
    pairs = sorted(tiled.terms)
    for kind, rn, i, j, t, again in case["hops"]:
        if kind == "new" or not pairs:
            i, j = i % num, j % num
            if i == j and not (case["loops"] and any(rn)):
                continue
        else:
            i, j = pairs[i % len(pairs)]
            if kind == "conj":
                i, j = j, i
        key = (min(i, j), max(i, j))
        if key in used:
            continue
        used.add(key)
        if again:                            # first another value, in one of the two directions
            old = [t[0] + 1.0, -t[1]]
            out.append([rn, i, j, old] if again == 1 else [[-x for x in rn], j, i, old])
        out.append([rn, i, j, t])
    return out


def build(case):
    """(SuperCell, reference) of a case."""
    import tbplas as tb
    vac = vac_ids(case)
    tiled = ref.Tiled(case["cell"], case["dim"], case["pbc"], vac, make_mod(case["pos"]))
    mods = plan_mods(case, tiled)
    cell = ref.build_cell(case["cell"])
    late = case["late"]
    keep = 2 if case["short"] and case["dim"][2] == 1 and not case["pbc"][2] else 3
    sc = tb.SuperCell(cell, dim=tuple(case["dim"][:keep]), pbc=tuple(case["pbc"][:keep]), vacancies=None if late else vac,
                      orb_pos_modifier=None if late else make_mod(case["pos"]))
    if late:
        sc.get_hop()
        sc.add_vacancies(vac)
        sc.set_orb_pos_modifier(make_mod(case["pos"]))
    for rn, i, j, t in mods:
        sc.add_hopping(tuple(rn[:2] if keep == 2 and rn[2] == 0 else rn), i, j, ref.cplx(t))
        tiled.modify(rn, i, j, t)
    return sc, tiled, cell, mods


def compare(ctx, sc, tiled, what):
    ctx.equal(sc.num_orb_sc, len(tiled.ids), f"{what}: number of orbitals")
    ctx.close(sc.sc_lat_vec, tiled.sc_lat, 1e-9, f"{what}: lattice vectors")
    ctx.close(sc.get_orb_eng(), tiled.eng, 1e-12, f"{what}: orbital energies")
    ctx.close(np.asarray(sc.get_orb_pos()).reshape(-1, 3), tiled.pos, 1e-8, f"{what}: orbital positions")
    hi, hj, hv, dr = sc.get_hop()
    hi, hj = np.asarray(hi), np.asarray(hj)
    ctx.check(hi.dtype.kind == "i" and hj.dtype.kind == "i", f"{what}: hopping indices are not integers ({hi.dtype}, {hj.dtype})")
    ctx.equal((len(hi), len(hj), len(hv)), (len(dr),) * 3, f"{what}: lengths of the hopping arrays")
    ref.compare_terms(ctx, list(zip(hi.tolist(), hj.tolist(), np.asarray(hv).tolist(), np.asarray(dr))),
                      [(i, j, e, d) for (i, j), (e, d) in tiled.terms.items()], what)


@sub("C07", super_case, quick=1000, shards=6,
     rule="at least 10 bonds, and a vacancy, a modifier or a partly open boundary")
def tiling(case, ctx):
    sc, tiled, cell, mods = build(case)
    compare(ctx, sc, tiled, "supercell")
    compare(ctx, sc, tiled, "supercell read again")
    ctx.label("short" if case.get("short") else "long", "vac" if case["vac"] else "novac", "mods:%d" % len(mods), "pos" if case["pos"] else "nopos",
              "pbc:%d" % sum(case["pbc"]), "rmax2" if max(ref.dim_min(case["cell"])) > 3 else "rmax1")
    ctx.nontrivial(len(tiled.terms) >= 10 and (case["vac"] or mods or 0 < sum(case["pbc"]) < 3))


sub("C07", super_case(12, 2500), quick=36, shards=3, rule="as for tiling, supercells of up to 2500 orbitals", name="large")(tiling)


@st.composite
def edit_case(draw):
    case = draw(super_case(max_extra=1))
    c = case["cell"]
    n = len(c["orbs"])
    case["edits"] = draw(st.lists(st.one_of(
        st.tuples(st.just("e"), st.integers(0, n - 1), g.real_val),
        st.tuples(st.just("p"), st.integers(0, n - 1), st.lists(g.pos_comp, min_size=3, max_size=3)),
        st.tuples(st.just("h"), st.integers(0, 9), g.nonzero_complex()),
        st.tuples(st.just("x"), st.integers(0, 9)),
        st.tuples(st.just("l"), g.lattice(), g.origin()),
        st.tuples(st.just("v"), st.integers(0, 400))).map(list), min_size=1, max_size=4))
    if any(e[0] == "v" for e in case["edits"]):
        case["hops"] = []         # the numbers of orbitals in the modifier would change
    return case


@sub("C07", edit_case, quick=400, shards=3, rule="the primitive cell or the vacancies were changed after the arrays were used")
def edited(case, ctx):
    """Edits of the (unlocked) primitive cell show up in the supercell."""
    sc, tiled, cell, mods = build(case)
    c = case["cell"]
    vac = set(vac_ids(case))
    compare(ctx, sc, tiled, "before the edits")
    for e in case["edits"]:
        cell.unlock()
        if e[0] == "e":
            cell.set_orbital(e[1], energy=e[2])
            c["orbs"][e[1]][1] = e[2]
        elif e[0] == "p":
            cell.set_orbital(e[1], position=tuple(e[2]))
            c["orbs"][e[1]][0] = e[2]
        elif e[0] == "h":
            h = c["hops"][e[1] % len(c["hops"])]
            cell.add_hopping(tuple(h[0]), h[1], h[2], ref.cplx(e[2]))
            h[3] = e[2]
        elif e[0] == "x" and len(c["hops"]) > 1:
            h = c["hops"].pop(e[1] % len(c["hops"]))
            cell.remove_hopping(tuple(h[0]), h[1], h[2])
        elif e[0] == "l":
            from tbplas import ANG
            cell.reset_lattice(lat_vec=np.array(e[1]), origin=np.array(e[2]), unit=ANG, fix_orb=False)
            c["lat"], c["origin"] = e[1], e[2]
        elif e[0] == "v":
            v = ref.Tiled(c, case["dim"], case["pbc"]).ids[e[1] % (int(np.prod(case["dim"])) * len(c["orbs"]))]
            if len(vac) + 1 < np.prod(case["dim"]) * len(c["orbs"]):
                sc.add_vacancy(v)
                vac.add(v)
        tiled = ref.Tiled(c, case["dim"], case["pbc"], vac, make_mod(case["pos"]))
        for m in mods:
            tiled.modify(*m)
        compare(ctx, sc, tiled, f"after {e[0]}")
    ctx.nontrivial(len(tiled.terms) > 3)


@sub("C07", super_case, quick=400, shards=2, rule="some but not all orbitals are dangling")
def trim(case, ctx):
    sc, tiled, cell, mods = build(case)
    count = [0] * len(tiled.ids)
    for i, j in tiled.terms:
        count[i] += 1
        count[j] += 1
    keep = [i for i, k in enumerate(count) if k > 1]
    if not keep:
        return
    sc.trim()
    ctx.equal(sc.num_orb_sc, len(keep), "number of orbitals after trim")
    live = np.asarray(sc.orb_id_sc2pc_array(np.arange(len(keep)))).tolist()
    ctx.equal([tuple(x) for x in live], [tiled.ids[i] for i in keep], "orbitals after trim")
    # modifiers follow the renumbering, everything else is the tiling with more vacancies
    new = {k: n for n, k in enumerate(keep)}
    vac = set(vac_ids(case)) | {tiled.ids[i] for i in range(len(tiled.ids)) if i not in new}
    # position modifiers that move single orbitals by index are not comparable after renumbering
    if case["pos"] is None or not case["pos"]["single"]:
        t2 = ref.Tiled(case["cell"], case["dim"], case["pbc"], vac, make_mod(case["pos"]))
        for rn, i, j, t in mods:
            if i in new and j in new:
                t2.modify(rn, new[i], new[j], t)
        compare(ctx, sc, t2, "after trim")
    ctx.nontrivial(len(keep) < len(tiled.ids))


@sub("C07", super_case, quick=250, shards=1, rule="a legal supercell")
def rejected(case, ctx):
    from tbplas.builder import exceptions as exc
    sc, tiled, cell, mods = build(case)
    n = len(tiled.ids)
    ctx.raises(exc.SCOrbIndexError, lambda: sc.add_hopping((0, 0, 0), 0, n, 1.0), "orbital out of range")
    ctx.raises(exc.SCOrbIndexError, lambda: sc.add_hopping((0, 0, 0), -1, 0, 1.0), "negative orbital")
    ctx.raises(exc.SCHopDiagonalError, lambda: sc.add_hopping((0, 0, 0), 0, 0, 1.0), "diagonal term")
    ctx.raises(exc.CellIndexLenError, lambda: sc.add_hopping((0,), 0, 0, 1.0), "cell index of length 1")
    sc.add_subscriber("x", None)
    sc.lock("x")
    ctx.raises(exc.LockError, lambda: sc.add_hopping((0, 0, 0), 0, 1, 1.0), "locked supercell")
    ctx.raises(exc.LockError, lambda: sc.set_orb_pos_modifier(None), "locked supercell")
    ctx.raises(exc.LockError, lambda: sc.add_vacancy((0, 0, 0, 0)), "locked supercell")
    ctx.raises(exc.LockError, sc.trim, "locked supercell")
    compare(ctx, sc, tiled, "after rejected operations")
    ctx.nontrivial()
