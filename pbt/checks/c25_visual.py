"""C25: volumetric files and plots of results against what they should contain."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from scipy.special import genlaguerre, lpmv

from pbt import figure
from pbt import gens as g
from pbt import ref
from pbt.harness import sub

BOHR = 0.0529177210671212


def radial(z, n, l, r):
    rho = 2.0 * z * r / n
    norm = math.sqrt((2.0 * z / n) ** 3 * math.factorial(n - l - 1) / (2.0 * n * math.factorial(n + l)))
    return norm * np.exp(-rho / 2) * rho ** l * genlaguerre(n - l - 1, 2 * l + 1)(rho)


def angular(l, m, x, y, z, r):
    """Real spherical harmonic with the sign convention in which p_x ~ x, d_xy ~ xy, ..."""
    safe = np.where(r < 1e-7, 1.0, r)
    ct, phi = np.where(r < 1e-7, 1.0, z / safe), np.arctan2(y, x)
    a = abs(m)
    norm = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a))
    val = norm * (-1) ** a * lpmv(a, l, ct)
    if m > 0:
        val = val * math.sqrt(2) * np.cos(a * phi)
    elif m < 0:
        val = val * math.sqrt(2) * np.sin(a * phi)
    return np.where((r < 1e-7) & (l > 0), 0.0, val)


def orbital(qn, center, grid):
    z, n, l, m = qn
    x, y, w = (grid[..., i] - center[i] for i in range(3))
    r = np.sqrt(x * x + y * y + w * w)
    return radial(z, n, l, r) * angular(l, m, x, y, w, r)


@st.composite
def quantum(draw):
    l = draw(st.integers(0, 3))
    return [draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.sampled_from([29, 79]))), l + draw(st.sampled_from([1, 2, 3, 1, 2, 3, 4, 5, 6, 7])), l, draw(st.integers(-l, l))]


@st.composite
def cube_case(draw):
    c = draw(g.cell(min_orb=1, max_orb=3, max_hop=3, max_r=1, with_origin=False))
    n = len(c["orbs"])
    if n > 1 and draw(st.booleans()):              # several orbitals on one atom
        c["orbs"][1][0] = list(c["orbs"][0][0])
    dim = draw(st.one_of(st.none(), st.lists(st.integers(1, 2), min_size=3, max_size=3)))
    mult = 1
    if dim is not None:
        dim = [max(a, b) for a, b in zip(dim, ref.dim_min(c))]
        mult = int(np.prod(dim))
    qn = [draw(quantum()) for _ in range(n)]
    if n > 1 and c["orbs"][1][0] == c["orbs"][0][0]:
        qn[1][0] = qn[0][0]
    off = st.one_of(st.integers(-4, 4).map(lambda i: i / 50), st.integers(-4, 4).map(lambda i: i / 10000))
    return {"cell": c, "dim": dim, "qn": qn, "wfc": [draw(g.nonzero_complex()) for _ in range(min(n * mult, 6))],
            "conv": draw(st.sampled_from([1, 2])), "k": draw(st.one_of(st.none(), g.kpoint(-1, 1))),
            "rn": draw(st.one_of(st.none(), st.lists(g.weighted((6, st.integers(0, 1)), (1, st.integers(2, 4))), min_size=3, max_size=3))),
            "at_atom": draw(st.booleans()), "off": draw(st.lists(off, min_size=3, max_size=3)),
            "shape": draw(st.lists(st.integers(1, 5), min_size=3, max_size=3)), "long": draw(g.weighted((7, st.none()), (1, st.tuples(st.sampled_from([0, 1, 2, 2]), g.weighted((1, st.integers(6, 60)), (1, st.integers(90, 140))))))),
            "stretch": draw(g.weighted((5, st.just(1)), (1, st.integers(2, 12)))), "auto": draw(st.sampled_from([None, None, None, "origin", "size", "both", "lists"])), "res": draw(st.sampled_from([0.01, 0.03125, 0.05])),
            "kind": draw(st.sampled_from(["real", "imag", "abs2"]))}


def parse_cube(path):
    with open(path) as f:
        lines = f.read().split("\n")
    head = lines[:2]
    nat = int(lines[2][:5])
    origin = [float(x) for x in lines[2][5:].split()]
    ng, axes = [], []
    for i in range(3):
        ng.append(int(lines[3 + i][:5]))
        axes.append([float(x) for x in lines[3 + i][5:].split()])
    atoms = []
    for i in range(nat):
        row = lines[6 + i]
        atoms.append([int(row[:5])] + [float(row[5 + 12 * j:17 + 12 * j]) for j in range(4)])
    data = []
    for row in lines[6 + nat:]:
        assert len(row) <= 6 * 13, "more than six values in a line of the cube file"
        data += [float(row[p:p + 13]) for p in range(0, len(row), 13)]
    return head, np.array(origin), ng, np.array(axes), atoms, np.array(data)


@sub("C25", cube_case, 360, shards=4, rule="complex amplitudes with a k-point off the zone centre and several images, or an angular momentum above zero")
def cube(case, ctx):
    import tbplas as tb
    c = dict(case["cell"], lat=(np.array(case["cell"]["lat"]) * case["stretch"]).tolist())
    case = dict(case, shape=list(case["shape"]))
    if case["long"]:
        case["shape"][case["long"][0]] = case["long"][1]
    cell = ref.build_cell(c)
    lat = np.array(c["lat"]) * 0.1
    if case["dim"] is None:
        model, pos = cell, np.array([o[0] for o in c["orbs"]]) @ lat
        qn = case["qn"]
    else:
        sc = tb.SuperCell(cell, tuple(case["dim"]), (True, True, True))
        model = tb.Sample(sc)
        d = case["dim"]
        ids = [(a, b, e, o) for a in range(d[0]) for b in range(d[1]) for e in range(d[2]) for o in range(len(c["orbs"]))]
        pos = np.array([np.array(c["orbs"][i[3]][0]) + i[:3] for i in ids]) @ lat
        qn = [case["qn"][i[3]] for i in ids]
        lat = lat * np.array(d)[:, None]
    n = len(pos)
    wfc = np.zeros(n, dtype=complex)
    for i, w in enumerate(case["wfc"]):
        wfc[i * 7 % n] += ref.cplx(w)
    origin = pos[0] + np.array(case["off"]) if case["at_atom"] is False else pos[0].copy()
    res = case["res"]
    size = np.array(case["shape"]) * res + 0.3 * res
    shape, auto = case["shape"], case["auto"]
    if auto in ("origin", "both"):                 # documented by the code: the box of the orbitals, at least 1 nm along each direction
        origin = np.min(pos, axis=0)
    if auto in ("size", "both"):
        delta = np.max(pos, axis=0) - np.min(pos, axis=0)
        if np.any(np.abs(delta - 1.0) < 1e-6):
            return
        size = np.where(delta >= 1.0, delta, 1.0)
        res = min(np.max(size) / (min(case["shape"][0], 5) + 0.5), 0.9 * np.min(size))
        while np.any(np.abs(size / res - np.round(size / res)) < 1e-4):
            res *= 0.9871
        shape = [int(x / res) for x in size]
    k = case["k"]
    pass_origin, pass_size = (None if auto in ("origin", "both") else origin.copy()), (None if auto in ("size", "both") else size.copy())
    if auto == "lists":
        pass_origin, pass_size = origin.tolist(), size.tolist()
    before = (cell.orb_pos.copy(), cell.lat_vec.copy())
    tb.Visualizer().plot_wfc3d(model, wfc, np.array(qn), convention=case["conv"], k_point=None if k is None else np.array(k),
                               rn_max=None if case["rn"] is None else np.array(case["rn"]), cube_name="x.cube", cube_origin=pass_origin,
                               cube_size=pass_size, resolution=res, kind=case["kind"])
    for given, was, what in ((pass_origin, origin, "origin"), (pass_size, size, "size")):
        if given is not None:
            ctx.close(given, was, 0.0, f"{what} of the cube given by the caller")
    ctx.label(f"auto:{auto}")
    ctx.close(cell.orb_pos, before[0], 0.0, "orbital positions of the model after plotting")
    ctx.close(cell.lat_vec, before[1], 0.0, "lattice vectors of the model after plotting")
    head, o, ng, axes, atoms, data = parse_cube("x.cube")
    kk = np.zeros(3) if k is None else np.array(k)
    rn_max = [0, 0, 0] if case["rn"] is None else case["rn"]
    images = [np.array([a, b, e]) for a in range(-rn_max[0], rn_max[0] + 1) for b in range(-rn_max[1], rn_max[1] + 1)
              for e in range(-rn_max[2], rn_max[2] + 1)]
    if (np.linalg.norm(kk) > 0 and len(images) > 1) or any(q[2] > 0 for q in qn):
        ctx.nontrivial()
    ctx.check(case["kind"] in head[0], "the header names the kind of data")
    ctx.equal(ng, shape, "number of grid points")
    ctx.close(o, origin / BOHR, 2e-6, "origin in bohr")
    ctx.close(axes, np.eye(3) * res / BOHR, 2e-6, "grid vectors in bohr")
    every = np.array([(pos[i] + rn @ lat) / BOHR for i in range(n) for rn in images])
    species = [qn[i][0] for i in range(n) for _ in images]
    tree = cKDTree(every)
    near = tree.query_ball_point(np.array([a[2:] for a in atoms]), 1e-4)
    for (z, q, *p), found in zip(atoms, near):
        ctx.close(q, z, 1e-6, "charge of an atom")
        ctx.check(len(found) > 0, f"atom at {p} does not exist in the model")
        ctx.check(z in {species[j] for j in found}, f"species {z} of the atom at {p}")
    ctx.equal(len({j for found in near for j in found}), len(every), "number of orbitals belonging to a listed atom")
    grid = origin / BOHR + np.stack(np.meshgrid(*[np.arange(s) * res / BOHR for s in ng], indexing="ij"), axis=-1)
    total = np.zeros(ng, dtype=complex)
    for i in range(n):
        if wfc[i] == 0:
            continue
        bloch = np.zeros(ng, dtype=complex)
        for rn in images:
            arg = kk @ rn
            if case["conv"] == 1:
                arg = arg + kk @ (pos[i] @ np.linalg.inv(lat))
            bloch += np.exp(2j * np.pi * arg) * orbital(qn[i], (pos[i] + rn @ lat) / BOHR, grid)
        total += wfc[i] * bloch / np.sqrt(len(images))
    want = {"real": total.real, "imag": total.imag, "abs2": np.abs(total) ** 2}[case["kind"]]
    ctx.equal(data.shape, (int(np.prod(ng)),), "number of values")
    scale = np.max(np.abs(want)) + 1e-3
    ctx.close(data.reshape(ng), want, 2e-5 * scale, f"{case['kind']} part of the wave function")


@st.composite
def scalar_case(draw):
    n = draw(st.integers(4, 20))
    return {"seed": draw(st.integers(0, 10**6)), "n": n, "coef": draw(st.lists(g.real_val, min_size=3, max_size=3)),
            "grid": draw(st.lists(st.integers(3, 12), min_size=2, max_size=2)), "scatter": draw(st.booleans()),
            "with_model": draw(st.integers(0, 2)), "kind": draw(st.sampled_from(["scalar", "scalar", "vector", "wfc"])),
            "cell": draw(g.cell(min_orb=4, max_orb=6, max_hop=5, max_r=1)), "dim": draw(st.lists(st.integers(0, 1), min_size=3, max_size=3)),
            "color": draw(st.sampled_from(["cmap", "cmap", "b"])), "bar": draw(st.booleans())}


def model_segments(model, c, dim):
    if dim is None:
        lat = np.array(c["lat"]) * 0.1
        org = np.array(c["origin"]) * 0.1
        pos = [np.array(o[0]) @ lat + org for o in c["orbs"]]
        out = []
        for rn, i, j, _ in c["hops"]:
            dr = (np.array(c["orbs"][j][0]) + rn - np.array(c["orbs"][i][0])) @ lat
            out.append((pos[i], pos[i] + dr, pos[j], pos[j] - dr))
        return np.array(pos), out
    t = ref.Tiled(c, dim, [True] * 3)
    return t.pos, [(t.pos[i], t.pos[i] + d, t.pos[j], t.pos[j] - d) for (i, j), (e, d) in t.terms.items()]


def match_bonds(ctx, got, want, what):
    """Each bond is drawn once, from either end."""
    pool = []
    for a, b, a2, b2 in want:
        pool.append((np.concatenate([a[:2], b[:2]]), np.concatenate([a2[:2], b2[:2]])))
    ctx.equal(len(got), len(pool), f"{what}: number of bonds drawn")
    left = list(pool)
    for s in got:
        s = np.array(s).reshape(-1)
        for n, (u, v) in enumerate(left):
            if np.max(np.abs(s - u)) < 1e-6 or np.max(np.abs(s - v)) < 1e-6:
                del left[n]
                break
        else:
            ctx.fail(f"{what}: a line {s.tolist()} belongs to no bond")


@sub("C25", scalar_case, 240, shards=4, rule="interpolation on a grid that is not square, or a model drawn below the data")
def fields(case, ctx):
    import tbplas as tb
    rng = np.random.default_rng(case["seed"])
    c = case["cell"]
    cell = ref.build_cell(c)
    dim = None
    model = cell
    if case["with_model"] == 2:
        dim = [max(m, 1) + e for m, e in zip(ref.dim_min(c), case["dim"])]
        if int(np.prod(dim)) * len(c["orbs"]) <= 150:
            model = tb.Sample(tb.SuperCell(cell, tuple(dim), (True, True, True)))
        else:
            dim = None
    pos, bonds = model_segments(model, c, dim)
    a, b, d = case["coef"]
    kind = case["kind"]
    with_model = case["with_model"] > 0
    if kind == "wfc":
        x, y = pos[:, 0], pos[:, 1]
        span = np.linalg.svd((pos - pos.mean(0))[:, :2], compute_uv=False)
        if len({tuple(np.round(p, 6)) for p in pos[:, :2].tolist()}) < len(pos) or span[-1] < 1e-3:
            case = dict(case, scatter=True)
    else:
        x, y = rng.uniform(-1, 2, case["n"]), rng.uniform(0, 3, case["n"])
    z = a + b * x + d * y
    v = rng.uniform(-1, 1, len(x))
    nx, ny = case["grid"]
    vis = tb.Visualizer()
    name = [None, "f.png", "f.png"][case["seed"] % 3]
    kw = dict(fig_name=name, with_colorbar=case["bar"])
    if kind == "wfc" and not case["scatter"]:
        ctx.label("wfc interpolated")
    with figure.captured() as figs:
        if kind == "vector":
            vis.plot_vector(x, y, z, v, model=model if with_model else None, arrow_color=case["color"], **kw)
        elif kind == "wfc":
            vis.plot_wfc(model, z, with_model=with_model, scatter=case["scatter"], num_grid=(nx, ny), site_color=case["color"], **kw)
        else:
            vis.plot_scalar(x, y, z, model=model if with_model else None, scatter=case["scatter"], num_grid=(nx, ny), site_color=case["color"], **kw)
        ctx.equal([f for f, _ in figs], [name], "figures saved or shown")
        ax = figs[0][1].axes[0]
        segs = figure.segments(ax)
        if with_model:
            ctx.nontrivial()
            match_bonds(ctx, [s for col in segs for s in col], bonds, "model")
        else:
            ctx.equal(sum(len(s) for s in segs), 0, "bonds without a model")
        if kind == "vector":
            from matplotlib.quiver import Quiver
            q = [p for p in ax.collections if isinstance(p, Quiver)]
            ctx.equal(len(q), 1, "arrow fields")
            ctx.close(q[0].XY, np.c_[x, y], 1e-12, "places of the arrows")
            ctx.close(np.c_[q[0].U, q[0].V], np.c_[z, v], 1e-12, "directions of the arrows")
            if case["color"] == "cmap":
                ctx.close(np.asarray(q[0].get_array()), np.hypot(z, v), 1e-12, "lengths encoded as colours")
        elif case["scatter"]:
            s = figure.scatters(ax)
            ctx.equal(len(s), 1, "scatter plots")
            ctx.close(np.asarray(s[0].get_offsets()), np.c_[x, y], 1e-12, "places of the values")
            if case["color"] == "cmap":
                ctx.close(np.asarray(s[0].get_array()), z, 1e-12, "values shown")
        else:
            if nx != ny:
                ctx.nontrivial()
            img = ax.images
            ctx.equal(len(img), 1, "images")
            arr = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(img[0].get_array(), dtype=float)), np.nan)
            ctx.equal(arr.shape, (ny, nx), "shape of the image (rows along y)")
            ext = img[0].get_extent()
            ctx.close(ext, [x.min(), x.max(), y.min(), y.max()], 1e-12, "extent of the image")
            ctx.equal(img[0].origin, "lower", "orientation of the image")
            gx, gy = np.meshgrid(np.linspace(x.min(), x.max(), nx), np.linspace(y.min(), y.max(), ny))
            ok = ~np.isnan(arr)
            # a linear field is reproduced exactly by the interpolation wherever it is defined
            if np.any(ok):
                ctx.close(arr[ok], (a + b * gx + d * gy)[ok], 1e-5 * (1 + np.max(np.abs(z))), "interpolated values at their coordinates")


@st.composite
def curve_case(draw):
    return {"seed": draw(st.integers(0, 10**6)), "n": draw(g.weighted((5, st.integers(2, 12)), (1, st.integers(13, 300)))), "nb": draw(g.weighted((5, st.integers(1, 5)), (1, st.integers(6, 30)))), "scatter": draw(st.booleans()),
            "polar": draw(st.booleans()), "kind": draw(st.sampled_from(["xy", "dos", "bands", "phases"])), "nh": draw(st.integers(1, 4)),
            "lim": draw(st.booleans())}


@sub("C25", curve_case, 160, shards=4, rule="more than one curve")
def curves(case, ctx):
    import tbplas as tb
    rng = np.random.default_rng(case["seed"])
    n, nb = case["n"], case["nb"]
    x = np.cumsum(rng.uniform(0.1, 1, n))
    x -= x[0]
    ys = rng.uniform(-2, 2, (n, nb))
    vis = tb.Visualizer()
    kind = case["kind"]
    if nb > 1 and kind in ("bands", "phases"):
        ctx.nontrivial()
    calls = []
    with figure.captured() as figs:
        name = [None, "g.png", "g.png"][case["seed"] % 3]
        style = case["seed"] % 5 > 0
        kw = dict(fig_name=name, beautifier=(lambda: calls.append(1)) if style else None)
        if kind in ("xy", "dos"):
            if case["lim"]:
                kw.update(x_lim=(-1.0, 3.0), y_lim=(-4.0, 5.0))
            (vis.plot_xy if kind == "xy" else vis.plot_dos)(x, ys[:, 0], x_label="one", **kw)
            ys = ys[:, :1]
        elif kind == "bands":
            idx = np.sort(rng.choice(n, size=min(case["nh"], n), replace=False))
            vis.plot_bands(x, ys, idx, [f"L{i}" for i in idx], **kw)
        else:
            vis.plot_phases(x, ys, scatter=case["scatter"], polar=case["polar"], **kw)
        ctx.equal([f for f, _ in figs], [name], "figures saved or shown")
        ctx.equal(calls, [1] if style else [], "calls of the beautifier")
        ax = figs[0][1].axes[0]
        want = [np.c_[x, ys[:, i]] for i in range(ys.shape[1])]
        if kind == "phases" and case["polar"]:
            want = [w[:, ::-1] for w in want]
        if kind == "phases" and case["scatter"]:
            got = [np.asarray(s.get_offsets()) for s in figure.scatters(ax)]
        else:
            got = [np.c_[l.get_data()] for l in ax.lines]
        if kind == "bands":
            ctx.equal(len(got), len(want) + len(idx), "curves and marks")
            marks = sorted(float(l[0, 0]) for l in got[len(want):])
            ctx.close(marks, x[idx], 1e-12, "marks at the symmetric points")
            got = got[:len(want)]
            ctx.close(ax.get_xticks(), x[idx], 1e-12, "ticks at the symmetric points")
            ctx.equal([t.get_text() for t in ax.get_xticklabels()], [f"L{i}" for i in idx], "tick labels")
            ctx.close(ax.get_xlim(), [0, x.max()], 1e-12, "range of the path")
        ctx.equal(len(got), len(want), "number of curves")
        for a, b in zip(got, want):
            ctx.close(a, b, 1e-12, f"data of a curve ({kind})")
        if kind in ("xy", "dos"):
            ctx.equal(ax.get_xlabel(), "one", "label")
            if case["lim"]:
                ctx.close(ax.get_xlim(), [-1, 3], 1e-12, "x range")
                ctx.close(ax.get_ylim(), [-4, 5], 1e-12, "y range")
