"""C22: distributed runs (every rank a process, collectives through a stand-in for mpi4py) against serial runs."""
import contextlib
import io
import os
import shutil
import time
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt import fakempi

fakempi.install()

from pbt import gens as g          # noqa: E402
from pbt import ref                # noqa: E402
from pbt import tbpm               # noqa: E402
from pbt.harness import HarnessError, sub   # noqa: E402


def ranks(ctx, size, fn):
    """Results of all ranks; anything but a clean end of all of them is a violation."""
    import tbplas as tb

    def body(rank):
        from tbplas.parallel import MPIEnv
        env = MPIEnv(enable_mpi=True)
        if env.size != size or env.rank != rank:
            raise HarnessError("the stand-in for mpi4py is not in use")
        return fn(rank)
    assert tb
    try:
        return fakempi.run(size, body)
    except fakempi.Broken as err:
        if "HarnessError" in str(err):
            raise HarnessError(str(err))
        ctx.fail(f"run on {size} processes: {err}")


# ---------------------------------------------------------------- primitives
arr = st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.sampled_from(["C", "F"]), st.sampled_from(["f8", "c16"]), st.integers(0, 999))


@st.composite
def env_case(draw):
    size = draw(g.weighted((13, st.integers(1, 5)), (2, st.integers(6, 10)), (1, st.integers(11, 40))))
    n = draw(st.integers(0, 200) if size > 10 else g.weighted((9, st.integers(0, 23)), (1, st.integers(24, 200))))
    return {"size": size, "n": n, "arrs": [list(a) for a in draw(st.lists(arr, min_size=1, max_size=3))],
            "ops": draw(st.lists(st.sampled_from(["reduce", "all_reduce", "average", "all_average", "bcast", "barrier"]), min_size=1, max_size=5)),
            "alg": draw(st.sampled_from(["range", "remainder"])),
            "lines": [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(["", "a", "two words", "x: 1.5"]), st.sampled_from([None, "%Y-%m-%d", "%x %X"])),
                                                     max_size=3))]}


def local(spec, rank):
    shape, order, dt, seed = spec
    rng = np.random.default_rng(1000 * seed + rank)
    a = rng.integers(-9, 10, size=shape).astype(dt)
    if dt == "c16":
        a = a + 1j * rng.integers(-9, 10, size=shape)
    return np.array(a, order=order)


@sub("C22", env_case, 260, shards=2, rule="more than one process")
def primitives(case, ctx):
    size, n = case["size"], case["n"]

    def fn(rank):
        from tbplas.parallel import MPIEnv
        env = MPIEnv(enable_mpi=True)
        out = {"range": list(env.dist_range(n)), "master": env.is_master}
        if n >= size:
            out["list"] = env.dist_list([chr(97 + i) for i in range(n)], algorithm=case["alg"])
            out["plain"] = env.dist_list([chr(97 + i) for i in range(n)])
        if n > 0:
            out["bound"] = list(env.dist_bound(n))
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            t0 = time.time()
            for line, fmt in case["lines"]:
                env.print(line) if fmt is None else env.log(line, fmt=fmt)
            env.print()
            MPIEnv(enable_mpi=True, echo_details=True)
            t1 = time.time()
        out["text"], out["time"] = text.getvalue(), (t0, t1)
        out["ops"], out["kept"] = [], []
        for i, op in enumerate(case["ops"]):
            a = local(case["arrs"][i % len(case["arrs"])], rank)
            if op == "barrier":
                if rank == i % size:
                    time.sleep(0.02)
                before = time.monotonic()
                env.barrier()
                out["ops"].append((before, time.monotonic()))
            elif op == "bcast":
                env.bcast(a)
                out["ops"].append(a)
            else:
                out["ops"].append(getattr(env, op)(a))
                out["kept"].append(np.array_equal(a, local(case["arrs"][i % len(case["arrs"])], rank)))
        return out
    res = ranks(ctx, size, fn)
    for rank, r in enumerate(res):
        if rank > 0:
            ctx.equal(r["text"], "", f"text printed by process {rank}")
            continue
        got = r["text"].split("\n")
        want = []
        stamps = [[time.strftime(f, time.localtime(t)) for t in np.arange(np.floor(r["time"][0]), r["time"][1] + 1)] for f in ("%Y-%m-%d", "%x %X")]
        for i, (line, fmt) in enumerate(case["lines"]):
            if fmt is None:
                want.append(line)
            else:
                hits = [f"{line} at {x}" for x in stamps[fmt == "%x %X"] if i < len(got) and got[i] == f"{line} at {x}"]
                ctx.check(hits, f"log line {got[i:i + 1]} for event {line!r}, expected one of {stamps[fmt == '%x %X']}")
                want.append(hits[0])
        want.append("")
        ctx.equal(got[:len(want)], want, "text printed by the master process")
        info = dict(x.split(":", 1) for x in got[len(want):] if " : " in x)
        info = {k.strip(): v.strip() for k, v in info.items()}
        ctx.equal(info.get("MPI processes"), str(size), f"reported number of processes in {got[len(want):]}")
        for name in ("OMP_NUM_THREADS", "MKL_NUM_THREADS"):
            ctx.equal(info.get(name), os.environ.get(name, "n/a"), f"reported {name}")
    ctx.equal(sum((r["range"] for r in res), []), list(range(n)), "indices assigned to the processes, in order")
    ctx.equal([r["master"] for r in res], [i == 0 for i in range(size)], "master process")
    if n > 0:
        for r in res:
            ctx.equal(list(range(r["bound"][0], r["bound"][1] + 1)), r["range"], "bounds against range of a process")
    if n >= size:
        items = [chr(97 + i) for i in range(n)]
        if case["alg"] == "range":
            ctx.equal(sum((r["list"] for r in res), []), items, "items assigned to the processes")
        else:
            ctx.equal([r["list"] for r in res], [items[i::size] for i in range(size)], "items assigned to the processes")
        ctx.equal(sum((r["plain"] for r in res), []), items, "items assigned by default")
    ctx.check(all(all(r["kept"]) for r in res), "the data of a process were modified by a reduction")
    lens = [len(r["range"]) for r in res]
    ctx.check(max(lens) - min(lens) <= 1, f"unbalanced distribution {lens}")
    for i, op in enumerate(case["ops"]):
        spec = case["arrs"][i % len(case["arrs"])]
        parts = [local(spec, r) for r in range(size)]
        total = sum(parts[1:], parts[0].copy())
        if op == "barrier":
            late, early = max(r["ops"][i][0] for r in res), min(r["ops"][i][1] for r in res)
            ctx.check(late <= early, f"a process left the barrier {late - early:.4f} s before the last one reached it")
            continue
        for r in range(size):
            got = res[r]["ops"][i]
            if op in ("reduce", "average") and r > 0:
                continue
            want = parts[0] if op == "bcast" else total / size if "average" in op else total
            ctx.close(got, want, 1e-12, f"{op} on rank {r} of {size}")
    ctx.nontrivial(size > 1)


# ---------------------------------------------------------------- exact diagonalisation
@st.composite
def diag_case(draw):
    what = draw(st.sampled_from(["bands", "proj", "dos", "states", "dp_reg", "dp_reg", "dp_arb", "dp_arb", "ac", "spin", "z2", "sample", "cell"]))
    n = draw(st.integers(1, 3))
    if what in ("spin", "z2"):
        n = 2
    c = draw(g.cell(min_orb=n, max_orb=n, min_hop=1, max_hop=6, max_r=1, planar=True))
    case = {"what": what, "cell": c, "size": draw(g.weighted((9, st.integers(2, 5)), (1, st.integers(6, 9)))), "k": draw(g.sized(g.kpoint(-1, 1), 1, 7)),
            "mesh": [draw(st.integers(1, 3)), draw(st.integers(1, 3)), 1], "fortran": draw(st.booleans()),
            "q": draw(st.lists(st.tuples(st.integers(-2, 2), st.integers(-2, 2), st.just(0)).map(list), min_size=1, max_size=3)),
            "comp": draw(st.sampled_from(["xx", "xy", "yx", "yy"])), "mu": draw(st.sampled_from([0.0, 0.3, -0.5])),
            "T": draw(st.sampled_from([300.0, 5000.0])), "sel": draw(st.sampled_from([None, [0], [n - 1]]))}
    return case


def diag_run(case, mpi):
    """The calculation, identical for serial and distributed runs."""
    import tbplas as tb
    kw = {"enable_mpi": mpi, "echo_details": False}
    cell = ref.build_cell(case["cell"])
    ks = np.array(case["k"], dtype=float)
    what = case["what"]
    if what in ("bands", "proj"):
        r = tb.DiagSolver(cell, **kw).calc_bands(ks, orbital_indices=case["sel"] if what == "proj" else None)
        return [r.k_len, r.bands, r.proj]
    if what == "dos":
        return list(tb.DiagSolver(cell, **kw).calc_dos(ks, e_min=-3.0, e_max=3.0, e_step=0.25, sigma=0.3, orbital_indices=case["sel"]))
    if what == "cell":
        k_len, bands = cell.calc_bands(ks, enable_mpi=mpi, echo_details=False)
        en, dos = cell.calc_dos(ks, enable_mpi=mpi, echo_details=False, e_min=-2.0, e_max=2.0, e_step=0.5, sigma=0.3)
        return [k_len, bands, en, dos]
    if what == "sample":
        s = tb.Sample(tb.SuperCell(cell, dim=(3, 3, 3), pbc=(True, False, False)))
        k_len, bands = s.calc_bands(ks[:, :], enable_mpi=mpi, echo_details=False)
        return [k_len, bands]
    if what == "states":
        b, v = tb.DiagSolver(cell, **kw).calc_states(ks)
        h = np.einsum("kb,kbi,kbj->kij", b, v, v.conj())         # independent of phases and degeneracies
        return [b, h, np.einsum("kbi,kbj->kij", v, v.conj())]
    if what == "spin":
        s = tb.SpinTexture(cell, ks, **kw)
        return [np.array([s.eval(c) for c in "xyz"])]
    if what == "z2":
        z = tb.Z2(cell, num_occ=1, **kw)
        kb, ph = z.calc_phases(np.linspace(-0.5, 0.5, 7), ks[:, 1].copy(), 0.0)
        return [kb, np.sum(np.exp(1j * ph), axis=1)]
    lin = tb.Lindhard(cell, kmesh_size=tuple(case["mesh"]), energy_min=0.0, energy_max=2.0, energy_step=4, mu=case["mu"],
                      temperature=case["T"], dimension=2, delta=0.05, **kw)
    if what == "dp_reg":
        return list(lin.calc_dyn_pol_regular(np.array(case["q"]), use_fortran=case["fortran"]))
    if what == "dp_arb":
        q = np.array(case["q"], dtype=float) * 0.7 + 0.1
        return list(lin.calc_dyn_pol_arbitrary(q, use_fortran=case["fortran"]))
    return list(lin.calc_ac_cond(case["comp"], use_fortran=case["fortran"]))


@sub("C22", diag_case, 420, shards=4, rule="work for at least two processes")
def diagonal(case, ctx):
    serial = [np.asarray(x) for x in diag_run(case, False)]
    degenerate = False
    if case["what"] in ("proj", "dos", "spin", "z2"):
        for k in case["k"]:
            e = np.linalg.eigvalsh(ref.ham_of(case["cell"], k, 1))
            degenerate |= len(e) > 1 and np.min(np.diff(e)) < 1e-4
        if case["what"] == "z2":
            for kb in {k[1] for k in case["k"]}:
                for ka in np.linspace(-0.5, 0.5, 7):
                    e = np.linalg.eigvalsh(ref.ham_of(case["cell"], [ka, kb, 0.0], 1))
                    degenerate |= np.min(np.diff(e)) < 1e-4
    if degenerate:
        ctx.label("degenerate")
        return
    res = ranks(ctx, case["size"], lambda rank: [np.asarray(x) for x in diag_run(case, True)])
    for r, out in enumerate(res):
        ctx.equal(len(out), len(serial), "number of results")
        for i, (a, b) in enumerate(zip(out, serial)):
            tol = 1e-8 * (1 + np.max(np.abs(b), initial=0))
            ctx.close(a, b, tol, f"{case['what']}: result {i} on rank {r} of {case['size']} against the serial run")
    num = int(np.prod(case["mesh"])) if case["what"] in ("dp_reg", "dp_arb", "ac") else len(case["k"])
    ctx.nontrivial(num >= 2)
    ctx.label(case["what"], "more-processes-than-items" if num < case["size"] else "enough-items")


# ---------------------------------------------------------------- propagation
@st.composite
def tbpm_case(draw):
    case = draw(tbpm.small_sample(9))
    case.update({"what": draw(st.sampled_from(["dos", "ldos", "ac", "dyn_pol", "dc", "hall", "qe", "single"])), "size": draw(g.weighted((9, st.integers(2, 4)), (1, st.integers(5, 8)))),
                 "num": draw(g.weighted((9, st.integers(1, 5)), (1, st.integers(6, 40)))), "nt": draw(st.integers(2, 5)), "seed": draw(st.integers(1, 50)),
                 "sites": draw(st.lists(st.integers(0, 8), min_size=1, max_size=3, unique=True))})
    case["resc"] = case["resc"] or 1.5
    return case


@contextlib.contextmanager
def slow_mkdir(slow):
    def late(fn):
        def wrapped(*args, **kwargs):
            time.sleep(0.02)
            return fn(*args, **kwargs)
        return wrapped
    if not slow:
        yield
        return
    with mock.patch("os.mkdir", late(os.mkdir)):
        yield


@sub("C22", tbpm_case, 160, shards=4, rule="a sample of at least 3 orbitals")
def propagation(case, ctx):
    """Averages over distributed random states are the serial average over all of them; spectra agree on every rank."""
    import tbplas as tb
    s = tbpm.System(case)
    what, size = case["what"], case["size"]
    sites = sorted({i % s.n for i in case["sites"]})

    def run(mpi, num, path, prefix):
        cfg = tbpm.config({"nr_time_steps": case["nt"], "seed": case["seed"], "nr_random_samples": num, "nr_Fermi_fft_steps": 512,
                           "beta": 2.0 / s.resc}, LDOS={"site_indices": sites}, dyn_pol={"q_points": [[1.0, 0.5, 0.0], [0.0, 0.0, 0.0]]},
                          DC_conductivity={"energy_limits": (-0.6 * s.resc, 0.6 * s.resc)},
                          quasi_eigenstates={"energies": [0.0, 0.4 * s.resc]},
                          dckb={"n_kernel": 5, "direction": 2, "ne_integral": 6, "energies": [0.0, 0.3]})
        with slow_mkdir(mpi):           # a file system on which directories appear late
            sol = tb.Solver(s.sample, cfg, enable_mpi=mpi, echo_details=False, directory=f"{path}/out", prefix=prefix)
            if not os.path.isdir(f"{path}/out"):
                raise AssertionError("the output directory does not exist once the solver is set up")
        ana = tb.Analyzer(s.sample, cfg, dimension=2, enable_mpi=mpi)
        if what == "dos":
            c = sol.calc_corr_dos()
            return [c, *ana.calc_dos(c)]
        if what == "ldos":
            c = sol.calc_corr_ldos()
            return [c, *ana.calc_ldos(c)]
        if what == "ac":
            c = sol.calc_corr_ac_cond()
            return [c, *ana.calc_ac_cond(c)]
        if what == "dyn_pol":
            c = sol.calc_corr_dyn_pol()
            r = ana.calc_dyn_pol(c)
            return [c, *r, ana.calc_epsilon(r[2])]
        if what == "dc":
            d, c = sol.calc_corr_dc_cond()
            return [d, c, *ana.calc_dc_cond(d, c), *ana.calc_diff_coeff(c)]
        if what == "hall":
            c = sol.calc_hall_mu()
            return [c, *ana.calc_hall_cond(c)]
        if what == "single":          # calculations for one process only say so
            out = []
            for fn in (sol.calc_ldos_haydock, lambda: sol.calc_psi_t(np.ones(s.n), np.arange(2))):
                try:
                    fn()
                    out.append(0)
                except RuntimeError:
                    out.append(1)
            return [np.array(out)]
        return [sol.calc_quasi_eigenstates(), np.array(cfg.generic["nr_random_samples"])]
    total = -(-case["num"] // size) * size          # documented: adjusted to a multiple of the number of processes
    with tbpm.workdir() as path:
        serial = run(False, total, path, "serial") if what != "single" else [np.ones(2)]
        shutil.rmtree(f"{path}/out", ignore_errors=True)
        res = ranks(ctx, size, lambda rank: [np.asarray(x) for x in run(True, case["num"], path, "mpi")])
        if what not in ("qe", "single"):
            name = {"dos": "corr_DOS", "ldos": "corr_LDOS", "ac": "corr_AC", "dyn_pol": "corr_dyn_pol", "dc": "corr_DOS", "hall": "hall_mu"}[what]
            ctx.close(np.load(f"{path}/out/mpi.{name}.npy"), res[0][0], 0, "file written by the distributed run")
    for r, out in enumerate(res):
        for i, (a, b) in enumerate(zip(out, serial)):
            b = np.asarray(b)
            scale = np.max(np.abs(b), initial=0)
            if what == "dc" and scale > 1e4:
                continue                     # division by a vanishing overlap
            ctx.close(a, b, 1e-7 * (1 + scale), f"{what}: result {i} on rank {r} of {size} against the serial run with {total} random states")
    ctx.nontrivial(s.n >= 3)
    ctx.label(what)


# ---------------------------------------------------------------- runs without MPI in a parallel job
@sub("C22", diag_case, 60, shards=2, rule="every rank has its own model")
def independent(case, ctx):
    """Calculations that do not ask for MPI are independent of each other, even in the processes of a parallel job."""
    size = case["size"]
    cases = []
    for r in range(size):
        c = dict(case, k=[[x + 0.03 * r for x in k] for k in case["k"]], cell=dict(case["cell"]))
        c["cell"]["orbs"] = [[o[0], o[1] + 0.1 * r * (i + 1)] + list(o[2:]) for i, o in enumerate(c["cell"]["orbs"])]
        cases.append(c)
    want = [[np.asarray(x) for x in diag_run(c, False)] for c in cases]
    got = ranks(ctx, size, lambda rank: [np.asarray(x) for x in diag_run(cases[rank], False)])
    for r in range(size):
        for i, (a, b) in enumerate(zip(got[r], want[r])):
            ctx.close(a, b, 1e-10 * (1 + np.max(np.abs(b), initial=0)), f"{case['what']}: result {i} of the serial run in process {r} of {size}")
    ctx.nontrivial()
    ctx.label(case["what"])


@sub("C22", tbpm_case, 40, shards=2, rule="every rank has its own seed")
def independent_tbpm(case, ctx):
    import tbplas as tb
    s = tbpm.System(case)
    size = min(case["size"], 3)

    def run(r, path):
        cfg = tbpm.config({"nr_time_steps": case["nt"] + r, "seed": case["seed"] + r, "nr_random_samples": 1})
        c = tb.Solver(s.sample, cfg, enable_mpi=False, echo_details=False, directory=path, prefix=f"p{r}").calc_corr_dos()
        return [c, *tb.Analyzer(s.sample, cfg, dimension=2, enable_mpi=False).calc_dos(c)]
    with tbpm.workdir() as path:
        want = [run(r, path) for r in range(size)]
        got = ranks(ctx, size, lambda rank: [np.asarray(x) for x in run(rank, path)])
        for r in range(size):
            for i, (a, b) in enumerate(zip(got[r], want[r])):
                ctx.close(a, b, 1e-10 * (1 + np.max(np.abs(b))), f"result {i} of the serial run in process {r} of {size}")
            ctx.close(np.load(f"{path}/p{r}.corr_DOS.npy"), want[r][0], 1e-10, f"file written by process {r}")
    ctx.nontrivial(s.n > 1)
