"""C11: lattice and k-point utilities."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

num = st.one_of(st.integers(-5, 5), st.floats(-20, 20).map(lambda x: round(x, 4)))
coords = st.lists(st.lists(num, min_size=3, max_size=3), min_size=1, max_size=6)


@st.composite
def geo_case(draw):
    return {"lat": draw(g.lattice()), "unit": draw(st.sampled_from([1.0, 0.1, 10.0])), "coord": draw(coords), "extra": draw(g.weighted((14, st.just(0)), (1, st.integers(1, 400)))), "origin": draw(st.lists(num, min_size=3, max_size=3)),
            "angle": draw(st.one_of(st.integers(-8, 8).map(lambda n: n * np.pi / 4), st.floats(-7, 7).map(lambda x: round(x, 5)))),
            "axis": draw(st.sampled_from("xyz")), "perm": draw(st.permutations(range(3))), "form": draw(st.sampled_from(["array", "list", "int"]))}


def give(x, form):
    if form == "list":
        return [list(r) for r in x]
    if form == "int":
        return np.array(np.round(x), dtype=int)
    return np.array(x, dtype=float)


@sub("C11", geo_case, quick=2600, shards=4, rule="skewed lattice and a coordinate with three different non-zero components")
def geometry(case, ctx):
    import tbplas as tb
    from tbplas.base import lattice as lt
    lat = (np.array(case["lat"]) * case["unit"])[case["perm"]]
    more = np.random.default_rng(case["extra"]).uniform(-20, 20, (case["extra"], 3)).round(3).tolist()
    coord = give(case["coord"] + more, case["form"])
    val = np.array(coord, dtype=float)
    keep_lat, keep = lat.copy(), val.copy()
    org = np.array(case["origin"], dtype=float)
    inv = np.linalg.inv(lat)
    scale = 1 + np.abs(val).max() * max(1, np.abs(lat).max(), np.abs(inv).max()) + np.abs(org).max() * np.abs(inv).max()
    tol = 1e-10 * scale
    cart = tb.frac2cart(lat, coord, org)
    ctx.close(cart, val @ lat + org, tol, "frac2cart")
    ctx.close(tb.frac2cart(lat, coord), val @ lat, tol, "frac2cart without origin")
    frac = tb.cart2frac(lat, coord, org)
    ctx.close(frac, (val - org) @ inv, tol, "cart2frac")
    ctx.close(tb.cart2frac(lat, coord), val @ inv, tol, "cart2frac without origin")
    ctx.close(tb.cart2frac(lat, cart, org), val, tol * 10, "cart2frac(frac2cart)")
    ctx.close(tb.frac2cart(lat, frac, org), val, tol * 10 * scale, "frac2cart(cart2frac)")
    ctx.close(tb.cart2frac(case["lat"], coord), val @ np.linalg.inv(case["lat"]), tol * 10, "cart2frac with a nested list as lattice")
    ctx.close(tb.frac2cart(case["lat"], coord), val @ np.array(case["lat"]), tol * 10, "frac2cart with a nested list as lattice")
    # reciprocal vectors
    rec = tb.gen_reciprocal_vectors(lat)
    ctx.close(rec @ lat.T, 2 * np.pi * np.eye(3), 1e-9, "duality of the reciprocal vectors")
    ctx.close(tb.gen_reciprocal_vectors(rec), lat, 1e-9 * np.abs(lat).max(), "reciprocal of the reciprocal lattice")
    # volumes and areas
    vol = abs(np.linalg.det(lat))
    ctx.close(tb.get_lattice_volume(lat), vol, 1e-9 * vol, "volume")
    ctx.close(tb.get_lattice_volume(rec), (2 * np.pi) ** 3 / vol, 1e-8 * (2 * np.pi) ** 3 / vol, "volume of the reciprocal cell")
    for i, d in enumerate("abc"):
        u, v = lat[(i + 1) % 3], lat[(i + 2) % 3]
        area = np.sqrt(max((u @ u) * (v @ v) - (u @ v) ** 2, 0))
        ctx.close(tb.get_lattice_area(lat, d), area, 1e-8 * (u @ u + v @ v), f"area normal to {d}")
    ctx.close(tb.get_lattice_area(lat), tb.get_lattice_area(lat, "c"), 0, "default area")
    ctx.raises(ValueError, lambda: tb.get_lattice_area(lat, "x"), "area along x")
    # rotations
    a, ax = case["angle"], "xyz".index(case["axis"])
    j, k = (ax + 1) % 3, (ax + 2) % 3
    rel = val - org
    want = rel.copy()
    want[:, j] = np.cos(a) * rel[:, j] - np.sin(a) * rel[:, k]
    want[:, k] = np.sin(a) * rel[:, j] + np.cos(a) * rel[:, k]
    want += org
    ctx.close(tb.rotate_coord(coord, angle=a, axis=case["axis"], center=org), want, tol, "rotate_coord")
    ctx.close(tb.rotate_coord(coord, angle=a, axis=case["axis"], center=org.tolist()), want, tol, "rotate_coord with a list as centre")
    ctx.close(tb.rotate_coord(coord, angle=a, axis=case["axis"]) + 0.0,
              tb.rotate_coord(val, angle=a, axis=case["axis"], center=np.zeros(3)), tol, "rotate_coord without centre")
    back = tb.rotate_coord(tb.rotate_coord(val, angle=a, axis=case["axis"], center=org), angle=-a, axis=case["axis"], center=org)
    ctx.close(back, val, tol, "rotation and back")
    ctx.raises(ValueError, lambda: tb.rotate_coord(val, axis="w"), "rotation about axis w")
    ctx.raises(ValueError, lambda: tb.rotate_coord(val, center=np.zeros(2)), "rotation centre of length 2")
    # inputs are not modified
    ctx.check(np.array_equal(lat, keep_lat) and np.array_equal(np.array(coord, dtype=float), keep), "an input was modified")
    ctx.label("form:" + case["form"])
    ctx.nontrivial(np.count_nonzero(lat) > 3 and any(len({abs(x) for x in r}) == 3 and all(r) for r in val.tolist()))


@st.composite
def cellpar(draw):
    length = st.one_of(st.just(1.0), st.floats(0.2, 30).map(lambda x: round(x, 4)))
    near = st.tuples(st.sampled_from([90.0, 90.0, 60.0]), st.sampled_from([1e-2, 1e-4, 1e-6]), st.integers(-9, 9)).map(lambda t: t[0] + t[1] * t[2])
    ang = st.one_of(st.sampled_from([60.0, 90.0, 120.0, 45.0]), near, st.floats(35, 140).map(lambda x: round(x, 3)))
    return {"len": draw(st.tuples(length, length, length)), "ang": draw(st.tuples(ang, ang, ang))}


@sub("C11", cellpar, quick=1500, shards=1, rule="angles that form a cell, not all 90 degrees")
def lattice_parameters(case, ctx):
    import tbplas as tb
    from tbplas import gen_lattice_vectors
    l, ang = case["len"], case["ang"]
    ca, cb, cg = np.cos(np.radians(ang))
    det = 1 + 2 * ca * cb * cg - ca ** 2 - cb ** 2 - cg ** 2
    if det < 0.02:
        return
    lat = tb.gen_lattice_vectors(**dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), (*l, *ang))))
    ctx.close(gen_lattice_vectors(*l, *ang), lat, 0.0, "arguments given by position")
    ctx.close(np.linalg.norm(lat, axis=1), np.array(l), 1e-9 * max(l), "lengths of the lattice vectors")
    gram = lat @ lat.T
    ctx.close(gram[1, 2] / (l[1] * l[2]), ca, 1e-9, "alpha is the angle between a2 and a3")
    ctx.close(gram[2, 0] / (l[2] * l[0]), cb, 1e-9, "beta is the angle between a3 and a1")
    ctx.close(gram[0, 1] / (l[0] * l[1]), cg, 1e-9, "gamma is the angle between a1 and a2")
    ctx.check(np.linalg.det(lat) > 0, "the lattice vectors are right-handed")
    ctx.close(tb.get_lattice_volume(lat), np.prod(l) * np.sqrt(det), 1e-8 * np.prod(l), "volume from the parameters")
    ctx.nontrivial(any(a != 90 for a in ang))


@st.composite
def kpath_case(draw):
    n = draw(st.integers(2, 6))
    return {"hs": [draw(g.kpoint(-2, 2)) for _ in range(n)], "num": draw(st.lists(st.integers(1, 9), min_size=n - 1, max_size=n - 1)),
            "form": draw(st.sampled_from(["array", "list"])), "lat": draw(g.lattice()), "mesh": [draw(st.integers(1, 7)) for _ in range(3)]}


@sub("C11", kpath_case, quick=1500, shards=3, rule="three or more path points and a mesh of at least 8 points")
def kpoints(case, ctx):
    import tbplas as tb
    hs, numi = np.array(case["hs"]), case["num"]
    path, idx = tb.gen_kpath(hs if case["form"] == "array" else case["hs"], numi if case["form"] == "list" else np.array(numi))
    path = np.asarray(path)
    ctx.equal(path.shape, (sum(numi) + 1, 3), "shape of the path")
    ctx.equal(list(np.asarray(idx)), list(np.concatenate([[0], np.cumsum(numi)])), "indices of the given points")
    ctx.close(path[idx], hs, 1e-12, "given points on the path")
    for s in range(len(numi)):
        seg = path[idx[s]:idx[s + 1] + 1]
        want = np.linspace(hs[s], hs[s + 1], numi[s] + 1)
        ctx.close(seg, want, 1e-12, f"segment {s} is straight and uniform")
    ctx.raises(ValueError, lambda: tb.gen_kpath(hs, numi + [3]), "wrong number of segments")
    lat = np.array(case["lat"])
    dist = tb.gen_kdist(lat, path)
    steps = np.linalg.norm(np.diff(path, axis=0) @ ref.recip(lat), axis=1)
    ctx.equal(float(dist[0]), 0.0, "distance of the first point")
    ctx.close(np.diff(dist), steps, 1e-9, "increments of the path length")
    ctx.check((np.diff(dist) >= 0).all(), "path length decreases")
    mesh = tuple(case["mesh"])
    km = np.asarray(tb.gen_kmesh(mesh))
    ctx.equal(km.shape, (int(np.prod(mesh)), 3), "shape of the mesh")
    want = [[a / mesh[0], b / mesh[1], c / mesh[2]] for a in range(mesh[0]) for b in range(mesh[1]) for c in range(mesh[2])]
    ctx.close(km, np.array(want), 1e-12, "mesh points in a-b-c order")
    ctx.raises(ValueError, lambda: tb.gen_kmesh(mesh[:2]), "two-component mesh")
    # exactness of the mesh: sums of plane waves vanish unless the wave is commensurate with the mesh
    for r in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 1], [mesh[0], 0, mesh[2]]):
        s = ref.phase(km @ np.array(r)).mean()
        ctx.close(s, 1.0 if all(x % m == 0 for x, m in zip(r, mesh)) else 0.0, 1e-10, f"plane-wave sum for {r}")
    ctx.nontrivial(len(hs) >= 3 and np.prod(mesh) >= 8)


@st.composite
def derived_case(draw):
    cell = draw(g.cell(max_orb=3, max_hop=4, max_r=1))
    return {"cell": cell, "dim": [m + draw(st.integers(0, 2)) for m in ref.dim_min(cell)], "extra": [draw(st.integers(1, 3)) for _ in range(3)],
            "edit": [draw(st.integers(0, 9)), draw(g.real_val)], "other": draw(g.lattice()), "unit": draw(st.sampled_from([1.0, 0.1, 0.3])),
            "scale": draw(st.integers(1, 60).map(lambda n: n / 4))}


@sub("C11", derived_case, quick=500, shards=2, rule="skewed lattice, supercell of at least two cells along some direction")
def models(case, ctx):
    """Geometry reported by cells, supercells, samples and solvers."""
    import tbplas as tb
    c = case["cell"]
    lat = np.array(c["lat"]) * 0.1
    dim = case["dim"]
    sc_lat = lat * np.array(dim)[:, None]

    def shape(obj, vec, what):
        vol = abs(np.linalg.det(vec))
        for i, d in enumerate("abc"):
            u, v = vec[(i + 1) % 3], vec[(i + 2) % 3]
            area = np.linalg.norm(np.cross(u, v))
            ctx.close(obj.get_lattice_area(d), area, 1e-9 * area, f"{what}: area normal to {d}")
        ctx.close(obj.get_lattice_area(), np.linalg.norm(np.cross(vec[0], vec[1])), 1e-9 * area + 1e-12, f"{what}: default area")
        ctx.close(obj.get_lattice_volume(), vol, 1e-9 * vol, f"{what}: volume")
        ctx.close(obj.get_reciprocal_vectors() @ vec.T, 2 * np.pi * np.eye(3), 1e-8, f"{what}: reciprocal vectors")
    pc = ref.build_cell(c)
    sc = tb.SuperCell(pc, dim=tuple(dim), pbc=(True, True, True))
    sample = tb.Sample(sc)
    for when in ("before", "after"):
        shape(pc, lat, f"cell {when} an edit")
        ctx.close(pc.lat_vec, lat, 1e-12, "lattice vectors of the cell")
        ctx.close(pc.origin, np.array(c["origin"]) * 0.1, 1e-12, "origin of the cell")
        shape(sc, sc_lat, f"supercell {when} an edit")
        ctx.close(sc.sc_lat_vec, sc_lat, 1e-12, "lattice vectors of the supercell")
        ctx.close(sc.pc_lat_vec, lat, 1e-12, "lattice vectors of the cell of the supercell")
        ctx.close(sc.pc_origin, np.array(c["origin"]) * 0.1, 1e-12, "origin of the cell of the supercell")
        ctx.equal(sc.num_orb_pc, len(c["orbs"]), "number of orbitals of the cell of the supercell")
        for name in ("orb_pos", "orb_eng", "hop_ind", "hop_eng"):
            sc.sync_array()
            pc.sync_array()
            ctx.close(np.array(getattr(sc, "pc_" + name)), np.array(getattr(pc, name)), 1e-12, f"{name} of the cell of the supercell {when} an edit")
        ctx.equal(sample.nr_orbitals, len(c["orbs"]), "orbitals per cell of the sample")
        area, vol = np.linalg.norm(np.cross(lat[0], lat[1])), abs(np.linalg.det(lat))
        ctx.close(sample.area_unit_cell, area, 1e-9 * area, "area of the unit cell of the sample")
        ctx.close(sample.volume_unit_cell, vol, 1e-9 * vol, "volume of the unit cell of the sample")
        ctx.equal(sample.extended, 1, "extension of the sample")
        for solver, vec, what in ((tb.DiagSolver(pc), lat, "cell"), (tb.DiagSolver(sample), sc_lat, "sample")):
            ctx.close(solver.lat_vec, vec, 1e-12, f"lattice vectors of the solver of a {what}")
            ctx.close(solver.recip_lat_vec @ vec.T, 2 * np.pi * np.eye(3), 1e-8, f"reciprocal vectors of the solver of a {what}")
        if when == "before":
            i = case["edit"][0] % len(c["orbs"])
            pc.unlock()
            pc.set_orbital(i, energy=case["edit"][1])
            c["orbs"][i][1] = case["edit"][1]
    # extended cells
    ext = tb.extend_prim_cell(ref.build_cell(c), dim=tuple(case["extra"]))
    shape(ext, lat * np.array(case["extra"])[:, None], "extended cell")
    ctx.equal(tb.Sample(tb.SuperCell(ext, dim=(3, 3, 3), pbc=(True,) * 3)).extended, int(np.prod(case["extra"])), "extension of a sample of extended cells")
    ctx.close(sample.energy_range, 2.0, 1e-12, "energy range of a sample that was not rescaled")
    sample.rescale_ham(case["scale"])
    ctx.close(sample.energy_range, 2 * case["scale"], 1e-9, "energy range after rescaling")
    # models given as functions
    other = np.array(case["other"]) * case["unit"]
    fake = tb.FakePC(2, lat_vec=np.array(case["other"]), unit=case["unit"])
    ctx.close(fake.lat_vec, other, 1e-12, "lattice vectors of a model function")
    ctx.close(fake.get_reciprocal_vectors() @ other.T, 2 * np.pi * np.eye(3), 1e-8, "reciprocal vectors of a model function")
    ctx.raises(ValueError, lambda: tb.FakePC(2, lat_vec=np.eye(3)[:2]), "lattice with two vectors")
    ctx.nontrivial(max(dim) > 1 and np.abs(lat - np.diag(np.diag(lat))).max() > 0)


@st.composite
def unit_case(draw):
    return {"length": draw(st.floats(0.01, 50).map(lambda x: round(x, 4))), "unit": draw(st.sampled_from(["NM", "ANG", "BOHR2NM"])), "lat": draw(g.lattice())}


@sub("C11", unit_case, quick=200, shards=1, rule="always")
def units(case, ctx):
    """The documented constants (CODATA 2014) and lengths given in the units they stand for."""
    import tbplas as tb
    ctx.nontrivial()
    ctx.label(case["unit"])
    bohr = 0.52917721067
    for name, want in (("NM", 1.0), ("ANG", 0.1), ("BOHR2ANG", bohr), ("BOHR2NM", bohr * 0.1), ("KB", 8.6173e-5), ("HAR2EV", 27.211386), ("H_BAR_EV", 6.5821195e-16)):
        ctx.check(hasattr(tb, name), f"constant {name} is not defined")
        ctx.close(getattr(tb, name) / want, 1.0, 1e-5, f"constant {name}")
    # a charge pair at a distance: e^2 / (4 pi eps0 r) = 1.43996 eV nm / r
    from tbplas.base.constants import EPSILON0
    ctx.close(1 / EPSILON0, 1.43996, 1e-4, "e^2/(4 pi eps0) in eV nm")
    want = {"NM": 1.0, "ANG": 0.1, "BOHR2NM": bohr * 0.1}[case["unit"]]
    lat = np.array(case["lat"]) * case["length"]
    cell = tb.PrimitiveCell(lat, unit=getattr(tb, case["unit"]))
    ctx.close(cell.lat_vec / want, lat, 1e-5 * np.max(np.abs(lat)), f"lattice vectors in nm, given in {case['unit']}")
