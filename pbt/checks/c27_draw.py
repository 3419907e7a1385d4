"""C27: drawings of models show the orbitals, bonds and cells of the model, and nothing else."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from pbt import figure
from pbt import gens as g
from pbt import ref
from pbt.harness import sub
from pbt.checks.c08_sample import build as build_sample, sample_case

VIEWS = ["ab", "bc", "ca", "ba", "cb", "ac"]
AX = {"a": 0, "b": 1, "c": 2}
options = st.fixed_dictionaries({
    "view": st.sampled_from(VIEWS), "orbs": st.sampled_from([True, True, True, False]), "cells": st.sampled_from([True, True, False]),
    "conj": st.booleans(), "arrows": st.booleans(), "cut": st.sampled_from([1e-5, 1e-5, 0.5, 1.5]), "callback": st.booleans(), "plain": st.sampled_from([False, False, True])})


def key(*vals):
    return tuple(float(v) for v in np.round(np.concatenate([np.ravel(v) for v in vals]), 6) + 0.0)


def same(ctx, got, want, what):
    a, b = Counter(got), Counter(want)
    if a == b:
        return
    # rounding at the sixth digit may differ: match what is left by distance
    left, miss = list((a - b).elements()), list((b - a).elements())
    for x in list(left):
        for y in miss:
            if np.allclose(x, y, atol=3e-6, rtol=0):
                left.remove(x)
                miss.remove(y)
                break
    if left or miss:
        ctx.fail(f"{what}: missing {miss[:3]}, unexpected {left[:3]} (of {len(want)} expected, {len(got)} drawn)")


def rgb(color):
    from matplotlib.colors import to_rgba
    return to_rgba(color)[:3]


def proj(view, x):
    return np.asarray(x)[[AX[view[0]], AX[view[1]]]]


def bonds(view, pos_i, pos_j, hops, cut, conj):
    """Projected (start, end) of the terms [(i, j, v, dr)]."""
    out = []
    for i, j, v, dr in hops:
        if abs(v) < cut:
            continue
        out.append((proj(view, pos_i[i]), proj(view, pos_i[i] + dr)))
        if conj:
            out.append((proj(view, pos_j[j]), proj(view, pos_j[j] - dr)))
    return out


def drawn_bonds(ax, color, arrows):
    if arrows:
        return [key((x, y), (x + dx, y + dy)) for x, y, dx, dy, p in figure.arrows(ax) if tuple(p.get_edgecolor()[:3]) == rgb(color)]
    out = []
    for c in figure.line_collections(ax):
        if len(c.get_colors()) and tuple(c.get_colors()[0][:3]) == rgb(color):
            out += [key(*s[:2]) for s in c.get_segments()]
    return out


def grid(view, lat, origin, lo, hi):
    """The lines of the cells lo[d] .. hi[d] (inclusive) in the plane of the view."""
    da, db = sorted((AX[view[0]], AX[view[1]]))
    out = []

    def at(a, b):
        n = np.zeros(3)
        n[da], n[db] = a, b
        return proj(view, n @ lat + origin)
    for a in range(lo[da], hi[da] + 2):
        out.append((at(a, lo[db]), at(a, hi[db] + 1)))
    for b in range(lo[db], hi[db] + 2):
        out.append((at(lo[da], b), at(hi[da] + 1, b)))
    return out, [(at(0, 0), at(1, 0)), (at(0, 0), at(0, 1))]


def undirected(segs):
    return [min(key(a, b), key(b, a)) for a, b in segs]


def drawn_grid(ax):
    out = []
    for c in figure.line_collections(ax):
        if len(c.get_colors()) and tuple(c.get_colors()[0][:3]) == (0, 0, 0):
            out += [(s[0], s[1]) for s in c.get_segments()]
    return out


@st.composite
def cell_case(draw):
    kind = draw(st.integers(0, 9))
    if kind == 0:        # many orbitals and bonds
        c = draw(g.bulk(orbs=(5, 20), hops=(10, 60), max_r=1, dims=2))
    elif kind == 1:      # far bonds along one direction
        c = draw(g.cell(max_orb=4, min_hop=1, max_hop=4, max_r=7, dims=1))
        d = draw(st.sampled_from([0, 1, 1, 2, 2]))
        for h in c["hops"]:
            h[0] = [h[0][0] if i == d else 0 for i in range(3)]
            h[0][(d + draw(st.sampled_from([1, 2, 2]))) % 3] = draw(st.integers(-1, 1))
        c["hops"] = list({g.canon(*h[:3])[0]: h for h in c["hops"] if h[1] != h[2] or any(h[0])}.values())
    else:
        c = draw(g.cell(max_orb=4, min_hop=0, max_hop=6, max_r=2, dims=draw(st.integers(1, 3))))
    for h in c["hops"]:  # close to the default cutoff
        if draw(st.integers(0, 9)) == 0:
            h[3] = [draw(st.sampled_from([9.9e-6, 1.01e-5, 4e-5, -3e-5, 2e-4])), 0.0]
    if kind > 1 and not draw(st.booleans()):
        # bonds to one side only: the home cell may not be among their cells
        s = draw(st.sampled_from([-1, 1]))
        for h in c["hops"]:
            h[0][0] = s * (abs(h[0][0]) + 1)
        seen = {}
        for h in c["hops"]:
            seen.setdefault(g.canon(h[0], h[1], h[2])[0], h)
        c["hops"] = list(seen.values())
    return {"cell": c, "opt": draw(options)}


@sub("C27", cell_case, quick=400, shards=4, rule="at least one bond above the cutoff and two orbitals or more than one cell drawn")
def cells(case, ctx):
    o, view = case["opt"], case["opt"]["view"]
    cell = ref.build_cell(case["cell"])
    before = [np.array(cell.orb_pos), np.array(cell.orb_eng), np.array(cell.hop_ind), np.array(cell.hop_eng)]
    hops = [(int(r[3]), int(r[4]), complex(e), np.array(d)) for r, e, d in
            zip(np.asarray(cell.hop_ind).reshape(-1, 5), np.ravel(cell.hop_eng), np.asarray(cell.dr_nm).reshape(-1, 3))]
    rn = [tuple(int(x) for x in r[:3]) for r in np.asarray(cell.hop_ind).reshape(-1, 5)]
    seen = []

    def color(orbitals):
        seen.append([(tuple(x.position), x.energy, x.label) for x in orbitals])
        return ["#%02x0000" % (10 + i) for i in range(len(orbitals))]
    name = None if o["arrows"] and o["cells"] else "fig.png"
    with figure.captured() as out:
        cell.plot(fig_name=name, with_orbitals=o["orbs"], with_cells=o["cells"], with_conj=o["conj"],
                  orb_color=color if o["callback"] else None, hop_as_arrows=o["arrows"], hop_eng_cutoff=o["cut"], hop_color="#0000fe",
                  view=view)
        ctx.equal([n for n, _ in out], [name], "figures written or shown")
        ax = out[0][1].axes[0]
        pos, lat = np.asarray(cell.orb_pos_nm), np.asarray(cell.lat_vec)
        want = bonds(view, pos, pos, hops, o["cut"], o["conj"])
        same(ctx, drawn_bonds(ax, "#0000fe", o["arrows"]), [key(a, b) for a, b in want], "bonds")
        box = [(0, 0, 0)] + rn + ([tuple(-x for x in r) for r in rn] if o["conj"] else [])
        lo, hi = np.min(box, axis=0), np.max(box, axis=0)
        sc = figure.scatters(ax)
        pts, cols = [], []
        for s in sc:
            p = np.asarray(s.get_offsets())
            vals = np.ravel(s.get_array()) if s.get_array() is not None else [c[0] for c in s.get_facecolors()]
            ctx.equal(len(vals), len(p), "number of colours")
            pts += [key(x, [v]) for x, v in zip(p, vals)]
        val = [10 / 255 + i / 255 for i in range(len(pos))] if o["callback"] else np.asarray(cell.orb_eng)
        exp = []
        if o["orbs"]:
            for a in range(lo[0], hi[0] + 1):
                for b in range(lo[1], hi[1] + 1):
                    for c in range(lo[2], hi[2] + 1):
                        exp += [key(proj(view, p + np.array([a, b, c]) @ lat), [v]) for p, v in zip(pos, val)]
        same(ctx, pts, exp, "orbitals (with colours)")
        if o["callback"]:
            ctx.equal(seen[0], [(tuple(x[0]), x[1], x[2]) for x in case["cell"]["orbs"]], "orbitals handed to the colour function")
        lines, vecs = grid(view, lat, np.asarray(cell.origin), lo, hi)
        same(ctx, undirected(drawn_grid(ax)), undirected(lines) if o["cells"] else [], "borders of the cells")
        arr = [key((x, y), (x + dx, y + dy)) for x, y, dx, dy, p in figure.arrows(ax) if tuple(p.get_edgecolor()[:3]) == (0, 0, 0)]
        same(ctx, arr, [key(a, b) for a, b in vecs] if o["cells"] else [], "lattice vectors")
        ctx.equal(len(figure.arrows(ax)), (len(want) if o["arrows"] else 0) + len(arr), "number of arrows")
    for a, b in zip(before, [cell.orb_pos, cell.orb_eng, cell.hop_ind, cell.hop_eng]):
        ctx.check(np.array_equal(a, np.asarray(b)), "drawing changes the cell")
    with figure.captured() as out:
        for bad in ("", "aa", "abc", "xy", "AB"):
            ctx.raises(ValueError, lambda: cell.plot(fig_name="x.png", view=bad), f"view {bad!r}")
        ctx.equal(len(out), 0, "figures written for an illegal view")
    ctx.label(view, "conj" if o["conj"] else "noconj", "arrows" if o["arrows"] else "lines")
    ctx.nontrivial(want and (len(pos) > 1 or max(hi - lo) > 0))


@st.composite
def drawn_sample(draw):
    case = draw(sample_case(max_parts=3, max_size=40))
    case["opt"] = draw(options)
    return case


@sub("C27", drawn_sample, quick=240, shards=6, rule="two parts, or vacancies, and at least six bonds drawn")
def samples(case, ctx):
    o, view = case["opt"], case["opt"]["view"]
    sample, rs, built, inter = build_sample(case)
    order = [i for i in case["perm"] if i < len(built)]
    inter_order = [i - len(built) for i in case["perm"] if i >= len(built)]
    scs = [built[i][0] for i in order]
    hops = [inter[i] for i in inter_order]
    sc_col = ["#0000%02x" % (200 + i) for i in range(len(scs))]
    in_col = ["#00%02x00" % (200 + i) for i in range(len(hops))]
    sizes, opt = [], {}

    def color(n):
        def fn(ids):
            sizes.append(np.array(ids).tolist())
            return ["#%02x%02x00" % (1 + i % 250, 3 * n) for i in range(len(ids))]
        return fn
    if o["callback"]:
        opt["sc_orb_colors"] = [color(n) for n in range(len(scs))]
    if not o["plain"]:
        opt.update(sc_hop_colors=sc_col, inter_hop_colors=in_col)
    name = None if o["arrows"] and o["cells"] else "fig.png"
    with figure.captured() as out:
        sample.plot(fig_name=name, with_orbitals=o["orbs"], with_cells=o["cells"],
                    with_conj=o["conj"], hop_as_arrows=o["arrows"], hop_eng_cutoff=o["cut"], view=view, **opt)
        ctx.equal([n for n, _ in out], [name], "figures written or shown")
        ax = out[0][1].axes[0]
        total, lines, vecs, pts, every = 0, [], [], [], []
        for n, (sc, tiled, col) in enumerate(zip(scs, [built[i][1] for i in order], sc_col)):
            hi, hj, hv, dr = sc.get_hop()
            want = bonds(view, tiled.pos, tiled.pos, list(zip(hi.tolist(), hj.tolist(), hv.tolist(), np.asarray(dr))), o["cut"], o["conj"])
            every += want
            if not o["plain"]:
                same(ctx, drawn_bonds(ax, col, o["arrows"]), [key(a, b) for a, b in want], "bonds of a supercell")
            total += len(want)
            li, ve = grid(view, tiled.lat, np.array(tiled.c["origin"]) * 0.1, [0, 0, 0], [d - 1 for d in tiled.dim])
            lines += li
            vecs += ve
            val = [(1 + i % 250) / 255 + 3 * n / 255 * 1000 for i in range(len(tiled.ids))] if o["callback"] else tiled.eng
            pts += [key(proj(view, p), [v]) for p, v in zip(tiled.pos, val)]
        for obj, i, col in zip(hops, inter_order, in_col):
            bra, ket = built[case["inter"][i]["bra"]][1], built[case["inter"][i]["ket"]][1]
            hi, hj, hv, dr = obj.get_hop()
            want = bonds(view, bra.pos, ket.pos, list(zip(hi.tolist(), hj.tolist(), hv.tolist(), np.asarray(dr))), o["cut"], o["conj"])
            every += want
            if not o["plain"]:
                same(ctx, drawn_bonds(ax, col, o["arrows"]), [key(a, b) for a, b in want], "bonds between supercells")
            total += len(want)
        if o["plain"]:
            same(ctx, drawn_bonds(ax, "r", o["arrows"]), [key(a, b) for a, b in every], "bonds in the default colour")
        got = []
        for s in figure.scatters(ax):
            p = np.asarray(s.get_offsets())
            vals = np.ravel(s.get_array()) if s.get_array() is not None else [c[0] + 1000 * c[1] for c in s.get_facecolors()]
            ctx.equal(len(vals), len(p), "number of colours")
            got += [key(x, [v]) for x, v in zip(p, vals)]
        same(ctx, got, pts if o["orbs"] else [], "orbitals (with colours)")
        if o["callback"]:
            ctx.equal(sizes, [[list(t) for t in built[i][1].ids] for i in order], "orbitals handed to the colour functions")
        same(ctx, undirected(drawn_grid(ax)), undirected(lines) if o["cells"] else [], "borders of the cells")
        arr = [key((x, y), (x + dx, y + dy)) for x, y, dx, dy, p in figure.arrows(ax) if tuple(p.get_edgecolor()[:3]) == (0, 0, 0)]
        same(ctx, arr, [key(a, b) for a, b in vecs] if o["cells"] else [], "lattice vectors")
        ctx.equal(len(figure.arrows(ax)), (total if o["arrows"] else 0) + len(arr), "number of arrows")
    with figure.captured() as out:
        ctx.raises(ValueError, lambda: sample.plot(fig_name="x.png", view="zz"), "illegal view")
        ctx.equal(len(out), 0, "figures written for an illegal view")
    ctx.label(view, "parts:%d" % len(scs), "inter:%d" % len(hops))
    ctx.nontrivial(total >= 6 and (len(scs) > 1 or case["parts"][0]["vac"]))
