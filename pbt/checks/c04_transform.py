"""C04: extension, reshaping, rotation and boundary changes describe the same crystal."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub


def labelled(c):
    for i, o in enumerate(c["orbs"]):
        o[2] = f"o{i}"
    return c


def term_table(c):
    out = {}
    for rn, i, j, t in c["hops"]:
        t = ref.cplx(t)
        out[(tuple(rn), i, j)] = t
        out[(tuple(-x for x in rn), j, i)] = t.conjugate()
    return out


def check_same_crystal(ctx, c, new, lat_frac, ks, what, tol=1e-7):
    """new: PrimitiveCell that should be the crystal of c on the sub-lattice spanned by lat_frac (rows, integer)."""
    lat = np.array(c["lat"]) * 0.1
    lf = np.array(lat_frac, dtype=float)
    det = int(round(abs(np.linalg.det(lf))))
    n = len(c["orbs"])
    ctx.close(new.lat_vec, lf @ lat, tol, f"{what}: lattice vectors")
    ctx.close(new.origin, np.array(c["origin"]) * 0.1, tol, f"{what}: origin")
    ctx.equal(new.num_orb, n * det, f"{what}: number of orbitals")
    # identify every orbital
    inv = np.linalg.inv(lat)
    pos = np.array([o[0] for o in c["orbs"]])
    where, seen = [], set()
    cart = np.asarray(new.orb_pos_nm)
    lfi = np.linalg.inv(lf)
    for m, orb in enumerate(new.orbitals):
        ctx.check(isinstance(orb.label, str) and orb.label[:1] == "o" and orb.label[1:].isdigit() and int(orb.label[1:]) < n,
                  f"{what}: unknown label {orb.label}")
        i = int(orb.label[1:])
        ctx.check(abs(orb.energy - c["orbs"][i][1]) < 1e-12, f"{what}: energy of an image of orbital {i}")
        r = (cart[m] - np.array(c["origin"]) * 0.1) @ inv - pos[i]
        rr = np.rint(r)
        ctx.close(r, rr, max(1e-6, 10 * tol), f"{what}: orbital {m} is not on an image of orbital {i}")
        rr = tuple(int(x) for x in rr)
        # representative modulo the new lattice
        f = np.array(rr) @ lfi
        cls = (i,) + tuple(int(x) for x in np.rint((np.array(rr) - np.floor(f + 1e-9) @ lf)))
        ctx.check(cls not in seen, f"{what}: orbital {i} at {rr} appears twice")
        seen.add(cls)
        where.append((i, np.array(rr)))
    # every hopping term of the new cell is a term of the crystal, and all are there
    table = term_table(c)
    lfint = np.rint(lf).astype(int)
    ind, eng = np.asarray(new.hop_ind).reshape(-1, 5), np.asarray(new.hop_eng)
    ctx.equal(len(ind), len(c["hops"]) * det, f"{what}: number of hopping terms")
    found = set()
    for row, e in zip(ind.tolist(), eng.tolist()):
        i, ri = where[row[3]]
        j, rj = where[row[4]]
        d = tuple(int(x) for x in (rj + np.array(row[:3]) @ lfint - ri))
        ctx.check((d, i, j) in table, f"{what}: term {row} is not in the crystal ({i}->{j}, {d})")
        ctx.check(abs(table[(d, i, j)] - e) < 1e-12, f"{what}: energy of term {row}: {e} instead of {table[(d, i, j)]}")
        key = g.canon(row[:3], row[3], row[4])[0]
        ctx.check(key not in found, f"{what}: term {key} listed twice")
        found.add(key)
    # folding of the bands
    if new.num_hop:
        reps = coset(lfint.T, det)
        for k in ks:
            b_new = np.sort(new.calc_bands(np.array([k], dtype=float), echo_details=False)[1][0])
            # k (in units of the new reciprocal vectors) = k0 @ lf.T with k0 in the old ones
            e = [np.linalg.eigvalsh(ref.ham_of(c, np.linalg.solve(lf, np.array(k, dtype=float) + m))) for m in reps]
            ctx.close(b_new, np.sort(np.concatenate(e)), 1e-7 * (1 + np.max(np.abs(b_new))), f"{what}: folded bands at {k}")
    return det


def coset(m, det):
    """Representatives of Z^3 modulo the column lattice... of lf: vectors n with distinct solve(lf, n) modulo 1."""
    reps, seen = [], set()
    inv = np.linalg.inv(m.T.astype(float))
    rng = range(-det, det + 1) if det > 1 else [0]
    for a in rng:
        for b in rng:
            for c in rng:
                f = inv @ np.array([a, b, c], dtype=float)
                key = tuple(int(x) % det for x in np.rint(f * det))
                if key not in seen:
                    seen.add(key)
                    reps.append(np.array([a, b, c]))
                    if len(reps) == det:
                        return reps
    return reps


def unchanged(ctx, c, cell, what):
    ctx.close(cell.orb_pos, np.array([o[0] for o in c["orbs"]]), 1e-12, f"{what}: input positions changed")
    ctx.equal(ref.cell_terms(cell), {g.canon(h[0], h[1], h[2])[0]: (ref.cplx(h[3]).conjugate() if g.canon(h[0], h[1], h[2])[1]
              else ref.cplx(h[3])) for h in c["hops"]}, f"{what}: input terms changed")


@st.composite
def ext_case(draw, cells=g.weighted((5, g.cell(max_orb=3, max_hop=6, max_r=3)), (1, g.cell(max_orb=2, max_hop=3, max_r=40))), top=3):
    c = labelled(draw(cells))
    dims = draw(st.lists(st.integers(1, top), min_size=2, max_size=3))
    return {"cell": c, "dim": dims, "again": draw(st.one_of(st.none(), st.lists(st.integers(1, 2), min_size=3, max_size=3))),
            "ext": draw(st.sampled_from([1.0, 2.0])), "ks": draw(st.lists(g.kpoint(-1, 1), min_size=1, max_size=2))}


@sub("C04", ext_case, quick=500, shards=3, rule="the extension factor is at least 2 and the cell has at least 2 terms")
def extend(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    c = case["cell"]
    cell = ref.build_cell(c)
    cell.extended = case["ext"]
    dim = case["dim"]
    new = tb.extend_prim_cell(cell, dim={0: tuple, 1: list, 2: np.array}[sum(dim) % 3](dim))
    full = dim + [1] * (3 - len(dim))
    det = check_same_crystal(ctx, c, new, np.diag(full), case["ks"], f"extend {dim}")
    ctx.close(new.extended, case["ext"] * det, 1e-9, "extended attribute")
    unchanged(ctx, c, cell, "extend")
    if case["again"]:
        new2 = tb.extend_prim_cell(new, dim=tuple(case["again"]))
        if new2.num_orb <= 60:
            check_same_crystal(ctx, c, new2, np.diag(np.array(full) * case["again"]), case["ks"][:1], "extended twice")
            ctx.close(new2.extended, case["ext"] * det * np.prod(case["again"]), 1e-9, "extended attribute after two extensions")
    ctx.raises(exc.CoordLenError, lambda: tb.extend_prim_cell(cell, dim=(2,)), "dimension of length 1")
    ctx.raises(ValueError, lambda: tb.extend_prim_cell(cell, dim=(1, 0, 1)), "dimension 0")
    ctx.nontrivial(det > 1 and len(c["hops"]) > 1)


sub("C04", ext_case(g.bulk(orbs=(5, 12), hops=(10, 50), distinct=True)), quick=16, shards=2, rule="as for extend, at least 5 orbitals", name="large")(extend)
sub("C04", ext_case(g.cell(max_orb=2, max_hop=3, max_r=2), top=6), quick=24, shards=2, rule="as for extend", name="long")(extend)


@st.composite
def int_matrix(draw, planar):
    m = draw(st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3), min_size=3, max_size=3))
    if planar:
        m[2], m[0][2], m[1][2] = [0, 0, 1], 0, 0
    return m


@st.composite
def res_case(draw):
    mode = draw(st.sampled_from(["grid", "grid", "out"]))
    c = labelled(draw(g.cell(max_orb=3, max_hop=5, max_r=2, inside=mode == "grid")))
    if mode == "out":
        for o in c["orbs"]:
            o[0] = draw(st.lists((st.integers(-64, 64) | st.integers(-200, 200)).map(lambda n: n / 32), min_size=3, max_size=3))
    if draw(st.booleans()):              # several orbitals on one site, as for atoms with s, p, d orbitals
        for o in c["orbs"][1:]:
            if draw(st.booleans()):
                o[0] = list(c["orbs"][0][0])
    planar = draw(st.booleans())
    m = draw(int_matrix(planar).filter(lambda m: 1 <= abs(round(np.linalg.det(np.array(m)))) <= 8))
    return {"cell": c, "m": m, "ks": draw(st.lists(g.kpoint(-1, 1), min_size=1, max_size=1)), "hetero": draw(st.booleans()),
            "delta": draw(st.sampled_from([0.01, 0.01, 0.017])), "tol": draw(st.sampled_from([1e-5, 1e-5, 1e-3])),
            "fuzz": draw(st.one_of(st.none(), st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3), min_size=3, max_size=3)))}


@sub("C04", res_case, quick=400, shards=4, rule="the new lattice is not an axis-aligned extension and has at least twice the volume")
def reshape(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    c = case["cell"]
    lf = np.array(case["m"], dtype=float)
    det = abs(round(np.linalg.det(lf)))
    # keep orbital images away from the (shifted) border of the new cell, where membership is a matter of rounding
    inv = np.linalg.inv(lf)
    for o in c["orbs"]:
        f = (np.array(o[0]) @ inv + case["delta"]) * det
        if np.min(np.abs(f - np.rint(f))) < 1e-5:
            return
    cell = ref.build_cell(c)
    cell.extended = 2.0
    given = lf.copy()
    if case["fuzz"]:          # vectors known to a limited number of digits, the tolerance on positions makes up for it
        given += np.array(case["fuzz"]) * case["tol"] * 3e-4
    if case["hetero"]:
        new = tb.make_hetero_layer(cell, given @ np.asarray(cell.lat_vec), delta=case["delta"], pos_tol=case["tol"])
    else:
        new = tb.reshape_prim_cell(cell, given, delta=case["delta"], pos_tol=case["tol"])
    ctx.close(new.lat_vec, given @ np.asarray(cell.lat_vec), 1e-11, "lattice vectors are the ones asked for")
    check_same_crystal(ctx, c, new, lf, case["ks"], f"reshape {case['m']}", 1e-5 if case["fuzz"] else 1e-7)
    ctx.close(new.extended, 2.0 * det, 1e-6 if not case["fuzz"] else 1e-3, "extended attribute")
    unchanged(ctx, c, cell, "reshape")
    ctx.raises(exc.LatVecError, lambda: tb.reshape_prim_cell(cell, np.eye(2)), "illegal lattice")
    diag = np.allclose(lf, np.diag(np.diag(lf)))
    ctx.label("det:%d" % det, "skew" if not diag else "diag")
    ctx.nontrivial(det > 1 and not diag)


@st.composite
def spiral_case(draw):
    c = labelled(draw(g.cell(max_orb=4, max_hop=6)))
    return {"cell": c, "angle": draw(st.integers(-36, 36).map(lambda n: n * np.pi / 18)), "center": draw(g.origin()),
            "shift": draw(g.eighth), "k": draw(g.kpoint(-1, 1)), "twice": draw(st.booleans())}


@sub("C04", spiral_case, quick=400, shards=1, rule="rotation by a non-trivial angle about a centre off the origin")
def spiral(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    pos0, lat0, dr0 = np.array(cell.orb_pos_nm), np.array(cell.lat_vec), np.array(cell.dr_nm)
    a, ctr = case["angle"], np.array(case["center"])
    rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    reps = 2 if case["twice"] else 1
    for _ in range(reps):
        tb.spiral_prim_cell(cell, angle=a, center=ctr, shift=case["shift"])
        pos0 = (pos0 - ctr) @ rot.T + ctr + np.array([0, 0, case["shift"]])
        lat0, dr0 = lat0 @ rot.T, dr0 @ rot.T
        ctx.close(cell.orb_pos_nm, pos0, 1e-8, "positions after spiral_prim_cell")
        ctx.close(cell.lat_vec, lat0, 1e-8, "lattice vectors after spiral_prim_cell")
        ctx.close(cell.dr_nm, dr0, 1e-8, "bond vectors after spiral_prim_cell")
    ctx.equal([o.label for o in cell.orbitals], [o[2] for o in c["orbs"]], "labels after spiral_prim_cell")
    ctx.equal(np.asarray(cell.orb_eng).tolist(), [o[1] for o in c["orbs"]], "energies after spiral_prim_cell")
    e0 = np.linalg.eigvalsh(ref.ham_of(c, case["k"]))
    e1 = np.sort(cell.calc_bands(np.array([case["k"]], dtype=float), echo_details=False)[1][0])
    ctx.close(e1, e0, 1e-8 * (1 + np.max(np.abs(e0))), "bands after spiral_prim_cell")
    ctx.nontrivial(abs(np.sin(a)) > 0.1 and np.any(ctr != 0))


@st.composite
def gauge_case(draw):
    c = labelled(draw(g.cell(max_orb=4, max_hop=8)))
    return {"cell": c, "origin": draw(g.origin()), "lat": draw(g.lattice()), "pbc": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "k": draw(g.kpoint(-1, 1)), "dim": draw(st.lists(st.integers(1, 2), min_size=3, max_size=3))}


@sub("C04", gauge_case, quick=400, shards=1, rule="the boundary cut removes some but not all terms")
def regauge(case, ctx):
    import tbplas as tb
    c = case["cell"]
    cell = ref.build_cell(c)
    pos, dr = np.array(cell.orb_pos_nm), np.array(cell.dr_nm)
    # moving the origin only
    cell.reset_lattice(origin=np.array(case["origin"]), fix_orb=True)
    ctx.close(cell.orb_pos_nm, pos, 1e-8, "positions after moving the origin")
    ctx.close(cell.dr_nm, dr, 1e-8, "bond vectors after moving the origin")
    b = np.sort(cell.calc_bands(np.array([case["k"]], dtype=float), echo_details=False)[1][0])
    ctx.close(b, np.linalg.eigvalsh(ref.ham_of(c, case["k"])), 1e-7 * (1 + np.max(np.abs(b))), "bands after moving the origin")
    # cutting the periodicity commutes with enlarging as long as nothing is cut inside
    pbc = case["pbc"]
    kept = [h for h in c["hops"] if all(p or r == 0 for p, r in zip(pbc, h[0]))]
    cell = ref.build_cell(c)
    cell.apply_pbc(tuple(pbc))
    ctx.equal(len(kept), cell.num_hop, "terms left after apply_pbc")
    if kept:
        check_same_crystal(ctx, dict(c, hops=kept), tb.extend_prim_cell(cell, dim=tuple(case["dim"])), np.diag(case["dim"]),
                           [case["k"]], "extension after apply_pbc")
    # cutting after enlarging removes exactly the terms that cross the border of the large cell
    big = tb.extend_prim_cell(ref.build_cell(c), dim=tuple(case["dim"]))
    before = ref.cell_terms(big)
    big.apply_pbc(tuple(pbc))
    ctx.equal(ref.cell_terms(big), {k: v for k, v in before.items() if all(p or r == 0 for p, r in zip(pbc, k[0]))},
              "terms left after apply_pbc of the large cell")
    ctx.raises(ValueError, lambda: cell.apply_pbc((True, False)), "illegal pbc")
    ctx.nontrivial(0 < len(kept) < len(c["hops"]))
