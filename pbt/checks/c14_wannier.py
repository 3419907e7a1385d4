"""C14: import of generated Wannier90 files."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub

BOHR = 0.529177210671212
num = st.one_of(g.eighth, st.sampled_from([0.0, 0.0, 1e-6, 3e-6, -2e-5, 1e-4, 1.25]), st.floats(-3, 3).map(lambda x: round(x, 6)))


@st.composite
def wan_case(draw):
    n = draw(g.weighted((24, st.integers(1, 4)), (1, st.integers(9, 12))))
    rmax = draw(st.sampled_from([0, 1, 1, 2, 3, 12]))
    half = draw(g.sized(g.rn_strategy(rmax).map(tuple), 0, draw(st.sampled_from([3, 9, 7, 20, 40])) if n <= 4 else 1))
    rs = sorted({(0, 0, 0)} | set(half) | {tuple(-x for x in r) for r in half})
    blocks, deg = {}, {}
    shifts = {}
    corr = draw(st.booleans())
    shift_st = st.lists(st.tuples(*[st.integers(-2, 2)] * 3), min_size=1, max_size=draw(st.sampled_from([3, 3, 3, 10])), unique=True)
    for r in rs:
        neg = tuple(-x for x in r)
        if neg in deg:
            continue
        deg[r] = deg[neg] = draw(st.sampled_from([1, 1, 2, 3, 4]))
        for i in range(n):
            for j in range(n):
                v = (draw(num), 0.0 if (r == neg and i == j) else draw(num))
                if (neg, j, i) in blocks:
                    w = blocks[(neg, j, i)]
                    v = (w[0], -w[1])
                blocks[(r, i, j)] = v
                blocks[(neg, j, i)] = (v[0], -v[1])
                if corr and (r, i, j) not in shifts:
                    s = draw(st.one_of(st.just([(0, 0, 0)]), shift_st))
                    if r == neg and i == j:
                        # a Hermitian on-site element stays Hermitian: symmetric set of shifts
                        s = sorted(set(s) | {tuple(-x for x in t) for t in s})
                    shifts[(r, i, j)] = s
                    shifts[(neg, j, i)] = [tuple(-x for x in t) for t in s]
    order = draw(st.permutations(rs)) if draw(st.booleans()) else rs
    return {"n": n, "rs": [list(r) for r in order], "deg": [deg[r] for r in order],
            "h": [[list(blocks[(r, i, j)]) for j in range(n) for i in range(n)] for r in order],
            "shift": [[[list(t) for t in shifts[(r, i, j)]] for j in range(n) for i in range(n)] for r in order] if corr else None,
            "lat": draw(g.lattice()), "unit": draw(st.sampled_from([None, "Ang", "ang", "Bohr", "bohr"])),
            "pos": [[draw(st.floats(-6, 6).map(lambda x: round(x, 6))) for _ in range(3)] for _ in range(n)],
            "atoms": draw(st.integers(0, 3)), "cutoff": draw(st.sampled_from([None, 0.0, 1e-5, 0.3])), "k": draw(g.kpoint(-1, 1)),
            "atom": draw(st.sampled_from(["C", "C", "Xe", "x", "Mo"])), "first": draw(st.booleans()), "pad": draw(st.booleans())}


def write_files(case, seed):
    n, pad = case["n"], "  " if case["pad"] else ""
    with open(seed + ".win", "w") as f:
        f.write("num_wann = %d\n! a comment\n\nbegin projections\nrandom\nend projections\n\n" % n)
        f.write(pad + "begin unit_cell_cart\n")
        if case["unit"]:
            f.write(pad + case["unit"] + "\n")
        for row in case["lat"]:
            f.write("  %18.12f %18.12f %18.12f\n" % tuple(row))
        f.write(pad + "end unit_cell_cart\n\nbegin atoms_frac\nC 0.0 0.0 0.0\nend atoms_frac\n")
    with open(seed + "_centres.xyz", "w") as f:
        f.write("%6d\n Wannier centres, written by Wannier90\n" % (n + case["atoms"]))
        centres = ["X      %14.8f %14.8f %14.8f\n" % tuple(p) for p in case["pos"]]
        atoms = [case["atom"].ljust(7) + "%14.8f %14.8f %14.8f\n" % (a, 0.5, 0.25) for a in range(case["atoms"])]
        f.write("".join(atoms + centres if case["first"] else centres + atoms))
    with open(seed + "_hr.dat", "w") as f:
        f.write(" written on a day\n%12d\n%12d\n" % (n, len(case["rs"])))
        for i in range(0, len(case["deg"]), 15):
            f.write("".join("%5d" % d for d in case["deg"][i:i + 15]) + "\n")
        for r, h in zip(case["rs"], case["h"]):
            for idx, v in enumerate(h):
                j, i = divmod(idx, n)
                f.write("%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (*r, i + 1, j + 1, *v))
    if case["shift"] is not None:
        with open(seed + "_wsvec.dat", "w") as f:
            f.write("## written on a day with use_ws_distance=.true.\n")
            for r, sh in zip(case["rs"], case["shift"]):
                for idx, s in enumerate(sh):
                    j, i = divmod(idx, n)
                    f.write("%5d%5d%5d%5d%5d\n%5d\n" % (*r, i + 1, j + 1, len(s)))
                    for t in s:
                        f.write("%5d%5d%5d\n" % tuple(t))


def expected(case, correct):
    """(R, i, j) -> value after degeneracies and shifts."""
    out, n = {}, case["n"]
    for ir, (r, h) in enumerate(zip(case["rs"], case["h"])):
        for idx, v in enumerate(h):
            j, i = divmod(idx, n)
            val = complex(*(round(x, 6) for x in v)) / case["deg"][ir]
            shifts = case["shift"][ir][idx] if correct else [[0, 0, 0]]
            for t in shifts:
                key = (tuple(a + b for a, b in zip(r, t)), i, j)
                out[key] = out.get(key, 0) + val / len(shifts)
    return out


@sub("C14", wan_case, quick=700, shards=6, rule="at least three R-vectors, two orbitals, and shifts or degeneracies above one")
def importer(case, ctx):
    import tbplas as tb
    scratch, cwd = tempfile.mkdtemp(prefix="c14"), os.getcwd()
    try:
        seed = os.path.join(scratch, "model")
        write_files(case, seed)
        if case["shift"] is None and case["n"] % 2:       # the default name in the current directory
            write_files(case, os.path.join(scratch, "wannier90"))
            os.chdir(scratch)
            seed = "wannier90"
        lat = np.array(case["lat"]) * (BOHR if case["unit"] in ("Bohr", "bohr") else 1.0)
        cut = 1e-5 if case["cutoff"] is None else case["cutoff"]
        kw = {} if case["cutoff"] is None else {"hop_eng_cutoff": cut}
        if case["shift"] is None:
            ctx.raises(FileNotFoundError, lambda: tb.wan2pc(seed, correct_hop=True), "correction asked for without the file")
        for correct in ([False, True] if case["shift"] is not None else [False]):
            terms = expected(case, correct)
            if any(abs(abs(v) - cut) < 1e-9 for v in terms.values() if v != 0) and cut > 0:
                ctx.label("edge")
                continue
            cell = tb.wan2pc(seed, correct_hop=correct, **kw)
            what = "with shifts" if correct else "without shifts"
            ctx.equal(cell.num_orb, case["n"], f"{what}: number of orbitals")
            ctx.close(cell.lat_vec, lat * 0.1, 1e-9, f"{what}: lattice vectors")
            ctx.close(cell.orb_pos @ lat, np.array([[round(x, 8) for x in p] for p in case["pos"]]), 1e-7, f"{what}: centres")
            kept = {k: v for k, v in terms.items() if abs(v) >= cut}
            n = case["n"]
            eng = [kept.get(((0, 0, 0), i, i), 0.0) for i in range(n)]
            ctx.close(cell.orb_eng, np.real(eng), 1e-9, f"{what}: on-site energies")
            want = {}
            for (r, i, j), v in kept.items():
                if r == (0, 0, 0) and i == j:
                    continue
                key, conj = g.canon(list(r), i, j)
                want[key] = v.conjugate() if conj else v
            got = ref.cell_terms(cell)
            zero = lambda d: {k: v for k, v in d.items() if abs(v) > 1e-12}
            ctx.equal(sorted(zero(got)), sorted(zero(want)), f"{what}: terms")
            for k, v in zero(want).items():
                ctx.check(abs(got[k] - v) < 1e-9, f"{what}: term {k} is {got[k]}, expected {v}")
            if cut == 0.0 and got:
                k = np.array(case["k"])
                h = np.zeros((n, n), complex)
                for (r, i, j), v in terms.items():
                    h[i, j] += v * ref.phase(float(k @ np.array(r)))
                dense = np.zeros((n, n), complex)
                cell.set_ham_dense(k, dense, convention=2)
                ctx.close(dense, h, 1e-8, f"{what}: Fourier sum of the file")
        ctx.label("shift" if case["shift"] else "noshift", "unit:%s" % case["unit"], "cut:%s" % case["cutoff"])
        ctx.nontrivial(len(case["rs"]) >= 3 and case["n"] >= 2 and (case["shift"] is not None or max(case["deg"]) > 1))
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


@st.composite
def unit_case(draw):
    case = draw(wan_case())
    case["unit"] = draw(st.sampled_from(["nm", "Angstroms", "au", "BOHRS"]))
    return case


@sub("C14", unit_case, quick=60, shards=1, rule="always")
def bad_unit(case, ctx):
    import tbplas as tb
    scratch = tempfile.mkdtemp(prefix="c14")
    try:
        seed = os.path.join(scratch, "model")
        write_files(case, seed)
        ctx.raises(ValueError, lambda: tb.wan2pc(seed), f"lattice unit {case['unit']}")
        ctx.nontrivial()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
