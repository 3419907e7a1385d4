"""C26: configurations and results of the wave-packet solver on disk, along histories of edits, runs and reloads."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import tbpm
from pbt.harness import sub

SECTIONS = ["generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb", "quasi_eigenstates"]
val = st.integers(-20, 20).map(lambda n: n / 10)
EDITS = {
    ("generic", "mu"): val, ("generic", "beta"): st.sampled_from([1.0, 5.0, 38.0]), ("generic", "correct_spin"): st.booleans(),
    ("generic", "seed"): st.integers(1, 999), ("generic", "nr_time_steps"): st.integers(1, 6), ("generic", "nr_random_samples"): st.integers(1, 3),
    ("generic", "wfn_check_steps"): st.integers(1, 200), ("generic", "wfn_check_thr"): st.sampled_from([1e-9, 1e-7]),
    ("generic", "Bessel_max"): st.sampled_from([250, 300]), ("generic", "Bessel_precision"): st.sampled_from([1e-14, 1e-12]),
    ("generic", "nr_Fermi_fft_steps"): st.sampled_from([1024, 2048]), ("generic", "Fermi_cheb_precision"): st.sampled_from([1e-12, 1e-10]),
    ("LDOS", "site_indices"): st.lists(st.integers(0, 2), min_size=1, max_size=1), ("LDOS", "delta"): st.sampled_from([0.01, 0.1]),
    ("LDOS", "recursion_depth"): st.integers(3, 40), ("LDOS", "wf_weights"): st.lists(val, min_size=1, max_size=2),
    ("dyn_pol", "q_points"): st.lists(st.lists(val, min_size=3, max_size=3), min_size=1, max_size=2), ("dyn_pol", "coulomb_constant"): val,
    ("dyn_pol", "background_dielectric_constant"): val, ("DC_conductivity", "energy_limits"): st.just([-50.0, 50.0]),
    ("dckb", "energies"): st.lists(val, min_size=1, max_size=3), ("dckb", "n_kernel"): st.integers(2, 8), ("dckb", "direction"): st.sampled_from([1, 2]),
    ("dckb", "ne_integral"): st.integers(2, 50), ("quasi_eigenstates", "energies"): st.lists(val, min_size=1, max_size=3)}
CALCS = ["dos", "ldos", "ac", "dyn_pol", "dc", "hall", "qe", "haydock", "psi"]
FILES = {"dos": ["corr_DOS"], "ldos": ["corr_LDOS"], "ac": ["corr_AC"], "dyn_pol": ["corr_dyn_pol"], "dc": ["corr_DOS", "corr_DC"],
         "hall": ["hall_mu"], "qe": ["qe"], "haydock": ["ldos_haydock"], "psi": ["psi_t"]}


@st.composite
def edit(draw):
    sec, key = draw(st.sampled_from(sorted(EDITS)))
    return ["edit", sec, key, draw(EDITS[(sec, key)])]


@st.composite
def persist_case(draw):
    case = draw(tbpm.small_sample(6))
    op = g.weighted((5, edit()), (6, st.tuples(st.just("calc"), st.sampled_from(CALCS), st.booleans()).map(list)),
                    (1, st.tuples(st.just("output"), st.sampled_from(["p", "q", "x"]), st.booleans()).map(list)),
                    (1, st.tuples(st.just("save"), st.sampled_from(["config.pkl", "c2"])).map(list)),
                    (2, st.just(["reload"])), (1, st.tuples(st.just("temp"), st.one_of(st.just(300), st.integers(1, 900), st.sampled_from([0.01, 0.37, 4.2, 2500.0, 60000.0]))).map(list)),
                    (1, st.tuples(st.just("bad"), st.sampled_from(SECTIONS), st.sampled_from(["foo", "Mu", "energy", "site_indice"])).map(list)))
    case["ops"] = draw(g.sized(op, 3, 9))
    return case


def snapshot(cfg):
    return {s: copy.deepcopy(getattr(cfg, s)) for s in SECTIONS}


def run(sol, which, n, save):
    """Arrays in the order of the files they go to, and all arrays returned."""
    if which == "dos":
        r = sol.calc_corr_dos()
    elif which == "ldos":
        r = sol.calc_corr_ldos()
    elif which == "ac":
        r = sol.calc_corr_ac_cond()
    elif which == "dyn_pol":
        r = sol.calc_corr_dyn_pol()
    elif which == "dc":
        return list(sol.calc_corr_dc_cond())
    elif which == "hall":
        r = sol.calc_hall_mu()
    elif which == "qe":
        r = sol.calc_quasi_eigenstates(save_data=save)
    elif which == "haydock":
        return [sol.calc_ldos_haydock()[1]]
    else:
        r = sol.calc_psi_t(np.arange(1, n + 1) + 0.5j, np.array([1, 0]), save_data=save)
    return [r]


@sub("C26", persist_case, 420, shards=4, rule="a calculation and a reload or a change of the output follow an edit")
def history(case, ctx):
    import tbplas as tb
    from tbplas.tbpm.config import read_config
    s = tbpm.System(case)
    cfg = tbpm.config({"nr_time_steps": 4, "nr_Fermi_fft_steps": 1024}, dckb={"n_kernel": 4}, DC_conductivity={"energy_limits": (-50.0, 50.0)},
                      LDOS={"recursion_depth": 20})
    model = snapshot(cfg)
    edited = False
    with tbpm.workdir() as path:
        base = path
        prefix = "x"
        sol = tbpm.solver(s.sample, cfg, path, prefix)
        expect = {}              # file -> array
        saved = {f"{path}/x.config.pkl": copy.deepcopy(model)}
        last = f"{path}/x.config.pkl"

        def verify():
            ctx.equal(snapshot(cfg), model, "settings held by the configuration object")
            for f, want in saved.items():
                ctx.equal(snapshot(read_config(f)), want, f"settings read back from {os.path.basename(f)}")
            for f, want in expect.items():
                got = np.load(f)
                ctx.equal(got.shape, want.shape, f"shape in {os.path.basename(f)}")
                ctx.equal(got.dtype, want.dtype, f"type in {os.path.basename(f)}")
                ctx.check(np.array_equal(got, want, equal_nan=True), f"{os.path.basename(f)} differs from what was returned")
        verify()
        for op in case["ops"]:
            if op[0] == "edit":
                v = op[3]
                if op[2] == "site_indices":
                    v = [v[0] % s.n]
                getattr(cfg, op[1])[op[2]] = copy.deepcopy(v)
                model[op[1]][op[2]] = copy.deepcopy(v)
                edited = True
            elif op[0] == "temp":
                cfg.set_temperature(float(op[1])) if op[1] != 300 else cfg.set_temperature()
                model["generic"]["beta"] = cfg.generic["beta"]
                ctx.close(cfg.generic["beta"] * 8.617333262e-5 * op[1], 1.0, 1e-9, "inverse temperature")
            elif op[0] == "calc":
                files = [f"{path}/{prefix}.{k}.npy" for k in FILES[op[1]]]
                existed = [os.path.exists(f) for f in files]
                res = run(sol, op[1], s.n, op[2])
                ctx.equal(len(res), len(files), "arrays of a calculation")
                if op[1] in ("qe", "psi") and not op[2]:
                    if not any(existed):
                        ctx.check(not os.path.exists(files[0]), f"{op[1]} wrote a file that was not asked for")
                else:
                    for f, r in zip(files, res):
                        ctx.check(os.path.isfile(f), f"{op[1]}: no file {os.path.basename(f)}")
                        expect[f] = np.array(r)
                again = run(sol, op[1], s.n, op[2])
                for a, b in zip(res, again):
                    ctx.check(np.array_equal(a, b, equal_nan=True) or np.max(np.abs(a - b)) < 1e-12, f"{op[1]}: a second run differs from the first")
                if not (op[1] in ("qe", "psi") and not op[2]):
                    for f, r in zip(files, again):
                        expect[f] = np.array(r)
                # a configuration read from disk reproduces the run
                sol.save_config("cmp")
                saved[f"{path}/{prefix}.cmp"] = copy.deepcopy(model)
                cfg2 = read_config(f"{path}/{prefix}.cmp")
                sol2 = tb.Solver(s.sample, cfg2, echo_details=False, directory=f"{base}/other", prefix="o")
                third = run(sol2, op[1], s.n, False)
                for a, b in zip(res, third):
                    ctx.check(a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) or np.max(np.abs(a - b)) < 1e-12),
                              f"{op[1]}: run with the reloaded configuration differs")
                ctx.label(op[1])
                if edited:
                    ctx.nontrivial()
            elif op[0] == "output":
                path, prefix = (f"{base}/sub" if op[2] else base), op[1]
                sol.set_output(directory=path, prefix=prefix)
                last = f"{path}/{prefix}.config.pkl"
                saved[last] = copy.deepcopy(model)
            elif op[0] == "save":
                sol.save_config(op[1])
                saved[f"{path}/{prefix}.{op[1]}"] = copy.deepcopy(model)
            elif op[0] == "reload":
                cfg = read_config(last)
                model = copy.deepcopy(saved[last])
                sol = tbpm.solver(s.sample, cfg, path, prefix)
                last = f"{path}/{prefix}.config.pkl"
                saved[last] = copy.deepcopy(model)
            else:
                bad = copy.deepcopy(cfg)
                getattr(bad, op[1])[op[2]] = 1
                ctx.raises(ValueError, lambda: bad.check_params(), f"undefined parameter {op[1]}[{op[2]}]")
                ctx.raises(ValueError, lambda: tb.Solver(s.sample, bad, echo_details=False, directory=f"{base}/never", prefix="n"),
                           f"solver with undefined parameter {op[1]}[{op[2]}]")
                ctx.raises(ValueError, lambda: tb.Analyzer(s.sample, bad), f"analyzer with undefined parameter {op[1]}[{op[2]}]")
                ctx.check(not os.path.exists(f"{base}/never"), "a rejected configuration leaves nothing on disk")
            verify()


DOCUMENTED = {"generic": {"Bessel_precision": 1e-14, "mu": 0.0, "correct_spin": False, "nr_random_samples": 1, "nr_time_steps": 1024, "seed": 1337,
                          "wfn_check_steps": 128, "wfn_check_thr": 1e-9, "Fermi_cheb_precision": 1e-12, "nr_Fermi_fft_steps": 2 ** 15},
              "LDOS": {"site_indices": [0], "wf_weights": [1.0], "delta": 0.01, "recursion_depth": 2000},
              "dyn_pol": {"background_dielectric_constant": 1.0, "coulomb_constant": 1.0, "q_points": [[1.0, 0.0, 0.0]]},
              "DC_conductivity": {"energy_limits": [-0.5, 0.5]},
              "dckb": {"n_kernel": 2048, "direction": 1, "ne_integral": 2048, "energies": [-0.2 + 0.01 * i for i in range(41)]},
              "quasi_eigenstates": {"energies": [-0.1, 0.0, 0.1]}}


@sub("C26", st.tuples(st.integers(1, 3), st.sampled_from([None, "abc", "x.y"]), st.sampled_from([None, "out"])).map(list), quick=40, shards=1, rule="always")
def fresh(case, ctx):
    """New configurations are independent and hold the documented values; the default output goes to sim_data below the current directory."""
    import tbplas as tb
    from tbplas.tbpm.config import read_config
    num, prefix, directory = case
    cfgs = [tb.Config() for _ in range(num + 1)]
    for section in DOCUMENTED:      # edits of one object must not reach another one
        d = getattr(cfgs[0], section)
        for k in list(d):
            if isinstance(d[k], list):
                d[k].append(d[k][0])
            else:
                d[k] = None
    for cfg in cfgs[1:]:
        ctx.close(cfg.generic["beta"] * 8.617333262e-5 * 300, 1.0, 1e-9, "default inverse temperature")
        for section, want in DOCUMENTED.items():
            for k, v in want.items():
                got = getattr(cfg, section)[k]
                ctx.close(np.array(got, dtype=float), np.array(v, dtype=float), 1e-12, f"default of {section}[{k}]")
    cwd = os.getcwd()
    with tbpm.workdir() as path:
        os.chdir(path)
        try:
            cell = tb.make_graphene_diamond()
            sample = tb.Sample(tb.SuperCell(cell, dim=(3, 3, 1), pbc=(True, True, False)))
            cfg = cfgs[1]
            kw = {} if directory is None else {"directory": directory}
            kw.update({} if prefix is None else {"prefix": prefix})
            sol = tb.Solver(sample, cfg, echo_details=False)
            sol.set_output(**kw)
            sol.save_config()
            folder = directory or "sim_data"
            ctx.check(os.path.isdir(folder), f"output directory {folder}")
            files = sorted(f for f in os.listdir(folder) if f.endswith("config.pkl"))
            if prefix is not None:
                ctx.check(f"{prefix}.config.pkl" in files, f"configuration in {files}")
            else:
                ctx.check(len(files) >= 1, "no configuration was saved")
            for f in files:
                ctx.equal(snapshot(read_config(os.path.join(folder, f))), snapshot(cfg), f"settings read back from {f}")
        finally:
            os.chdir(cwd)
    ctx.nontrivial()
