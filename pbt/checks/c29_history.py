"""C29: a calculation answers for the model as it is now: not for what was calculated before, and without changing anything.

A history of edits and calculations on shared objects against every calculation on its own, in a new set of objects that
received only the edits.  Arguments and earlier results are compared with copies, and overwriting a result is without effect.
"""
import contextlib
import copy
import io
import os

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import issparse

from pbt import figure
from pbt import gens as g
from pbt import ref
from pbt import tbpm
from pbt.harness import sub


def arrays(x):
    """The arrays of a result, in order; the very objects where they are arrays."""
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in arrays(x[k])]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in arrays(y)]
    if x is None:
        return []
    if issparse(x):
        return [x.data, x.indices, x.indptr]
    return [x if isinstance(x, np.ndarray) else np.array(x)]


def values(x):
    """Values of a result, independent of the storage of sparse matrices."""
    if issparse(x):
        return [x.toarray()]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in values(y)]
    return [np.array(a) for a in arrays(x)]


def crystal(cell):
    """What a cell is, as plain data."""
    hops = sorted(((tuple(rn) + tuple(p), complex(e)) for rn, h in cell.hoppings.items() for p, e in h.items()), key=lambda x: x[0])
    return {"lat": np.array(cell.lat_vec), "origin": np.array(cell.origin),
            "pos": [tuple(o.position) for o in cell.orbitals], "eng": [o.energy for o in cell.orbitals], "label": [o.label for o in cell.orbitals],
            "ind": [k for k, _ in hops], "hop": [e for _, e in hops], "ext": float(cell.extended)}


def differ(a, b):
    """Largest relative deviation of two lists of arrays; infinite where shapes or finiteness differ."""
    if len(a) != len(b):
        return np.inf
    out = 0.0
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return np.inf
        if x.size == 0:
            continue
        if x.dtype.kind in "biuUS" or y.dtype.kind in "biuUS":
            out = max(out, 0.0 if np.array_equal(x, y) else np.inf)
            continue
        fin = np.isfinite(x)
        if not np.array_equal(fin, np.isfinite(y)):
            return np.inf
        scale = 1.0 + (np.max(np.abs(y[fin])) if fin.any() else 0.0)
        out = max(out, float(np.max(np.abs(x - y)[fin], initial=0.0)) / scale)
    return out


# ---------------------------------------------------------------- exact diagonalisation
class Cells:
    """A cell, its overlap and all solvers on it."""
    def __init__(self, case, noise=0.0):
        import tbplas as tb
        c = copy.deepcopy(case["cell"])
        n = self.n = len(c["orbs"])
        for i, o in enumerate(c["orbs"]):
            o[1] += noise * (i + 1.37) ** 1.5
        self.cell = ref.build_cell(c)
        self.other = ref.build_cell(dict(c, hops=c["hops"][:1], orbs=c["orbs"][:1])) if c["hops"][0][1] == c["hops"][0][2] == 0 \
            else ref.build_cell(dict(c, hops=[[[1, 0, 0], 0, 0, [1.0, 0.0]]], orbs=c["orbs"][:1]))
        self.overlap = tb.Overlap(self.cell)
        for i in range(n):
            self.overlap.set_onsite(i, 1.0 + 0.1 * i)
        for rn, i, j, e in c["hops"][:3]:
            self.overlap.add_offsite(tuple(rn), i, j, 0.03 / n)
        kw = {"echo_details": False}
        self.diag = tb.DiagSolver(self.cell, **kw)
        self.gen = tb.DiagSolver(self.cell, self.overlap, **kw)
        lk = {"energy_max": 6.0, "energy_step": 5, "delta": 0.1, "temperature": 2000.0, "mu": 0.1, **kw}
        self.lind = {d: tb.Lindhard(self.cell, kmesh_size=tuple(case["mesh"]), dimension=d, **lk) for d in (2, 3)}
        self.z2 = tb.Z2(self.cell, num_occ=max(1, n // 2), **kw)
        self.args = {"k": np.array(case["k"], dtype=float), "mesh": tb.gen_kmesh(tuple(case["mesh"])), "ka": np.linspace(-0.5, 0.5, 9),
                     "kb": np.linspace(0.0, 0.5, 4), "grid": np.array([[1, 0, 0], [0, 1, 0]], dtype=np.int64), "q": np.array([[1.0, 0.5, 0.0], [0.3, -2.0, 0.0]]),
                     "dp": np.array([[0.3 - 0.1j] * 6, [0.1 + 0.2j] * 6]), "om": np.linspace(0.1, 3.0, 6), "ac": np.full(6, 0.2 + 0.1j),
                     "phases": np.array([[-0.4, 0.5], [-0.3, 0.6], [0.7, -0.2], [-0.1, 0.8 - 2 * np.pi], [0.0, 0.9], [1.0, 0.1]])[:, :self.z2.num_occ].copy(), "sel": np.array([0, n - 1]),
                     "nk": [3], "nm": [2, 1, 3], "cell": np.array(c["lat"]), "org": np.array([0.5, 0.1, -0.2]), "r": np.array([0.3, -0.4, 1.2]), "p0": np.array([0.4, 0.9]),
                     "w": np.array([1.0, 2.0]), "fk": np.array([[0.0, 0.0, 0.0], [0.2, 0.1, 0.0], [0.5, 0.0, 0.0]]), "dim": [2, 1, 1], "lat": np.array([[2, 0, 0], [0, 1, 0], [0, 0, 1]]), "box": [0.0, 0.0, 0.0]}
        self.sk, self.soc = tb.SK(), [tb.SOC(), tb.SOCTable(), tb.SOCTable2()]

        class Fit(tb.ParamFit):
            def calc_bands_ref(self):
                return np.array([[-1.0, 1.0], [-0.8, 0.9], [-0.5, 0.7]])

            def calc_bands_fit(self, params):
                c = np.cos(np.pi * np.arange(3) / 4)
                return np.stack([-params[0] - params[1] * c, params[0] * c + params[1]], axis=1)
        self.fit = Fit(self.args["fk"], self.args["w"])
        self.spin = tb.SpinTexture(self.cell, self.args["mesh"], **kw) if n % 2 == 0 else None

    def model(self):
        return {"cell": crystal(self.cell), "other": crystal(self.other), "overlap": crystal(self.overlap)}

    def edit(self, op, a):
        if op == "energy":
            self.cell.set_orbital(a % self.n, energy=0.3 * a - 1.0)
        elif op == "move":
            self.cell.set_orbital(a % self.n, position=(0.1 * a, 0.2, 0.05 * a))
        elif op == "hop":
            self.cell.add_hopping((1, a % 2, 0), a % self.n, (a // 2) % self.n, 0.7 - 0.2j * a)
        elif op == "over":
            self.overlap.add_offsite((1, a % 2, 0), a % self.n, (a // 2) % self.n, 0.01)
        elif op == "onsite":
            self.overlap.set_onsite(a % self.n, 1.0 + 0.05 * a)
        elif op == "lattice":
            for c in (self.cell, self.other):
                c.reset_lattice(np.array(c.lat_vec) * (1.0 + 0.1 * a), unit=1.0, fix_orb=a % 2 == 0)
        elif self.spin is not None:
            self.spin.k_grid = np.array([[0.1 * a, 0.3, 0.0], [0.0, 0.05 * a, 0.0]])

    def calc(self, op, a):
        import tbplas as tb
        A, conv, fort = self.args, 1 + a % 2, a % 3 == 0
        dim, pick = 2 + a % 2, a % 4
        if op == "bands":
            r = self.diag.calc_bands(A["k"], convention=conv, orbital_indices=A["sel"] if pick else None)
            return [r.k_len, r.bands, r.proj]
        if op == "states":
            return self.diag.calc_states(A["k"], convention=conv)
        if op == "dos":
            return self.diag.calc_dos(A["mesh"], e_min=-4.0, e_max=4.0, e_step=0.5, sigma=0.3, basis=("Gaussian", "Lorentzian")[a % 2])
        if op == "cellbands":
            return self.cell.calc_bands(A["k"], echo_details=False)
        if op == "celldos":
            return self.cell.calc_dos(A["mesh"], e_min=-4.0, e_max=4.0, e_step=0.5, sigma=0.3, echo_details=False)
        if op == "gen":
            r = self.gen.calc_bands(A["k"], convention=conv)
            return [r.k_len, r.bands]
        if op == "ham":           # asks the caller for current arrays
            self.cell.sync_array()
            self.overlap.sync_array()
            h = np.zeros((self.n, self.n), dtype=complex)
            self.cell.set_ham_dense(A["k"][0], h, conv)
            s = np.zeros((self.n, self.n), dtype=complex)
            self.overlap.set_overlap_dense(A["k"][0], s, conv)
            return [h, s, self.cell.set_ham_csr(A["k"][-1], conv), self.overlap.set_overlap_csr(A["k"][-1], conv)]
        if op == "dpreg":
            return self.lind[dim].calc_dyn_pol_regular(A["grid"], use_fortran=fort)
        if op == "dparb":
            return self.lind[dim].calc_dyn_pol_arbitrary(A["q"], use_fortran=fort)
        if op == "ac":
            return self.lind[dim].calc_ac_cond(("xx", "xy", "yx", "yy", "zz")[a % 5], use_fortran=fort)
        if op == "eps":
            out = [self.lind[dim].calc_epsilon(A["q"], A["dp"]), self.lind[dim].frac2cart(A["q"]), self.lind[dim].cart2frac(A["q"]),
                   self.lind[dim].grid2frac(A["grid"]), self.lind[dim].grid2cart(A["grid"]), self.lind[dim].wrap_frac(A["q"]), self.lind[dim].wrap_grid(A["grid"])]
            return out + [self.lind[3].calc_epsilon_q0(A["om"], A["ac"])]
        if op == "spin":
            return [] if self.spin is None else [self.spin.eval("xyz"[a % 3]), self.spin.k_cart]
        if op == "z2":
            kb, ph = self.z2.calc_phases(A["ka"], A["kb"], kc=0.1 * pick)
            return [kb, np.array([np.poly(np.exp(1j * x)) for x in ph])]
        if op == "reorder":
            ph = self.z2.reorder_phases(A["phases"], threshold=0.5)
            return [ph, self.z2.count_crossing(ph, 0.3)]
        if op == "extend":
            return crystal(tb.extend_prim_cell(self.cell, dim=A["dim"])) if pick else crystal(tb.reshape_prim_cell(self.cell, A["lat"]))
        if op == "merge":
            inter = tb.PCInterHopping(self.cell, self.other)
            inter.add_hopping((0, 0, 0), 0, 0, 0.25)
            return crystal(tb.merge_prim_cell(self.cell, self.other, inter))
        if op == "near":
            return [[t.distance for t in tb.find_neighbors(self.cell, self.other, a_max=1, b_max=1, max_distance=0.6)]]
        if op == "arpack":
            if self.n < 3:
                return []
            r = self.diag.calc_bands(A["k"], convention=conv, solver="arpack", k=1, which="LA")
            return [r.k_len, r.bands]
        if op == "plot":
            with figure.captured():
                self.cell.plot(fig_name="a.png", view=("ab", "bc", "ca")[a % 3], with_conj=a % 2 == 0, hop_as_arrows=a % 4 < 2)
            return []
        if op == "print":
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                self.cell.print()
                self.cell.print_hk(convention=conv)
            return [np.array(text.getvalue())]
        if op == "path":
            path, idx = tb.gen_kpath(A["q"], A["nk"])
            lat, rec = A["cell"], tb.gen_reciprocal_vectors(A["cell"])
            return [path, idx, tb.gen_kdist(A["cell"], path), tb.gen_kmesh(A["nm"]), rec, tb.frac2cart(lat, A["q"], A["org"]), tb.cart2frac(lat, A["q"], A["org"]),
                    tb.rotate_coord(A["q"], 0.3, "xyz"[a % 3], A["org"]), tb.get_lattice_volume(lat), tb.get_lattice_area(lat, "abc"[a % 3])]
        if op == "sk":
            labels = ("s", "px", "dxy", "dz2", "pz", "dx2-y2")
            v = {k: 0.3 * (i + 1) for i, k in enumerate(("v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"))}
            out = [self.sk.eval(A["r"], label_i=labels[a % 6], label_j=y, **v) for y in labels]
            return out + [t.eval(label_i=("px", "py", "dxy")[a % 3], spin_i="up", label_j=y, spin_j=z) for t in self.soc for y in ("py", "pz") for z in ("up", "down")]
        if op == "spiral":
            twin = copy.deepcopy(self.other)
            tb.spiral_prim_cell(twin, angle=0.1 * a, center=A["org"], shift=0.2)
            layer = tb.make_hetero_layer(self.cell, np.array(self.cell.lat_vec) * 2 if a % 2 else np.array(self.cell.lat_vec), delta=0.02)
            return [crystal(twin), crystal(layer)]
        if op == "fit":
            return self.fit.fit(A["p0"])
        return [self.cell.orb_pos_nm, self.cell.dr, self.cell.dr_nm, self.cell.get_reciprocal_vectors(), self.cell.get_lattice_area(), self.cell.get_lattice_volume()]


CELL_EDITS = ["energy", "move", "hop", "over", "onsite", "lattice", "grid"]
CELL_CALCS = ["bands", "states", "dos", "cellbands", "celldos", "gen", "ham", "dpreg", "dparb", "ac", "eps", "spin", "z2", "reorder", "extend", "merge", "near",
              "derived", "arpack", "plot", "print", "path", "sk", "spiral", "fit"]


# ---------------------------------------------------------------- samples
class Samples:
    """A sample, a configuration and everything calculated from them."""
    def __init__(self, case, noise=0.0, path="."):
        import tbplas as tb
        c = copy.deepcopy(case["cell"])
        for i, o in enumerate(c["orbs"]):
            o[1] += noise * (i + 1.37) ** 1.5
        self.path = path
        self.cell = ref.build_cell(c)
        self.sc = tb.SuperCell(self.cell, dim=tuple(case["dim"]), pbc=tuple(case["pbc"]))
        self.sample = tb.Sample(self.sc)
        self.sample.rescale_ham(8.0 * (1 + len(c["hops"])))
        n = self.n = self.sample.num_orb
        self.cfg = tbpm.config({"nr_time_steps": 4, "seed": 7, "nr_random_samples": 2, "nr_Fermi_fft_steps": 512, "beta": 0.2},
                               LDOS={"site_indices": [0], "delta": 0.2, "recursion_depth": 4}, dyn_pol={"q_points": [[1.0, 0.5, 0.0], [0.2, 0.0, 0.0]]},
                               DC_conductivity={"energy_limits": (-6.0, 6.0)}, quasi_eigenstates={"energies": [0.0, 0.7]},
                               dckb={"n_kernel": 5, "direction": 1, "ne_integral": 6, "energies": [0.0, 0.3]})
        self.diag = tb.DiagSolver(self.sample, echo_details=False)
        self.sol = tbpm.solver(self.sample, self.cfg, path)
        self.ana = {d: tb.Analyzer(self.sample, self.cfg, dimension=d) for d in (2, 3)}
        rng = np.random.default_rng(3)
        psi = rng.normal(size=n) + 1j * rng.normal(size=n)

        def noise_(*shape):
            return rng.normal(size=shape) + 1j * rng.normal(size=shape)
        self.args = {"k": np.array(case["k"], dtype=float), "psi": 2.0 * psi, "log": np.array([4, 0, 2]), "dos": noise_(9), "ac": noise_(4, 9),
                     "dp": noise_(2, 9).real.copy(), "dc": noise_(2, 12, 9), "mu": noise_(5, 5), "pol": noise_(2, 8), "om": np.linspace(0.1, 1, 8), "sel": np.array([0, n - 1])}

    def model(self):
        return {"cell": crystal(self.cell), "cfg": copy.deepcopy({s: getattr(self.cfg, s) for s in ("generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb",
                                                                                                      "quasi_eigenstates")}),
                "arrays": [np.array(x) for x in (self.sample.orb_eng, self.sample.orb_pos, self.sample.hop_i, self.sample.hop_j, self.sample.hop_v, self.sample.dr)],
                "rescale": float(self.sample.rescale)}

    def edit(self, op, a):
        s, cfg = self.sample, self.cfg
        if op == "field":
            s.set_magnetic_field(40.0 * a, gauge=a % 3)
        elif op == "kpoint":
            s.set_k_point(np.array([0.1 * a, 0.2, 0.0]))
        elif op == "rescale":
            s.rescale_ham(float(s.rescale) * (1.0 + 0.2 * a))
        elif op == "reset":
            s.reset_array()
            s.init_orb_eng()
            s.init_orb_pos()
            s.init_hop()
        elif op == "seed":
            cfg.generic["seed"] = 1 + a
        elif op == "steps":
            cfg.generic["nr_time_steps"] = 2 + a % 6
        elif op == "beta":
            cfg.generic["beta"] = 0.05 * (1 + a)
        elif op == "mu":
            cfg.generic["mu"] = 0.2 * a
        elif op == "spin":
            cfg.generic["correct_spin"] = a % 2 == 0
        elif op == "site":
            cfg.LDOS["site_indices"] = [a % self.n]
        elif op == "q":
            cfg.dyn_pol["q_points"] = [[0.3 * a, 0.0, 0.1], [0.0, 1.0, 0.0]]
        elif op == "window":
            cfg.DC_conductivity["energy_limits"] = (-6.0 + 0.3 * a, 6.0)
            cfg.dckb["direction"] = 1 + a % 2
        else:
            cfg.generic["nr_random_samples"] = 1 + a % 3

    def calc(self, op, a):
        A, s, sol = self.args, self.sample, self.sol
        ana, nt = self.ana[2 + a % 2], self.cfg.generic["nr_time_steps"]
        if op == "bands":
            r = self.diag.calc_bands(A["k"], orbital_indices=A["sel"])
            return [r.k_len, r.bands, r.proj]
        if op == "states":
            return self.diag.calc_states(A["k"])
        if op == "sbands":
            return [s.calc_bands(A["k"], echo_details=False), s.calc_dos(A["k"], e_min=-4.0, e_max=4.0, e_step=0.5, sigma=0.3, echo_details=False)]
        if op == "ham":
            h = np.zeros((self.n, self.n), dtype=complex)
            s.set_ham_dense(A["k"][0], h)
            return [h, s.set_ham_csr(A["k"][-1]), s.build_ham_csr(), s.build_dxy_csr()]
        if op == "dxy":
            return list(s.build_ham_dxy(algo=("fast", "safe")[a % 2], sort_col=True))
        if op == "dos":
            return sol.calc_corr_dos()
        if op == "ldos":
            return sol.calc_corr_ldos()
        if op == "ac":
            return sol.calc_corr_ac_cond()
        if op == "dp":
            return sol.calc_corr_dyn_pol()
        if op == "dc":
            return sol.calc_corr_dc_cond()[0]
        if op == "hall":
            return sol.calc_hall_mu()
        if op == "qe":
            return sol.calc_quasi_eigenstates()
        if op == "haydock":
            return sol.calc_ldos_haydock()
        if op == "psi":
            return sol.calc_psi_t(A["psi"], A["log"][A["log"] <= nt], dt_scale=1.0 + 0.5 * (a % 2))
        if op == "ana":
            return [self.ana[2].calc_dos(A["dos"][:nt + 1]), ana.calc_ldos(A["dos"][:nt + 1])]
        if op == "anaac":
            om, ac = ana.calc_ac_cond(A["ac"][:, :nt])
            return [om, ac, self.ana[3].calc_epsilon_q0(A["om"], A["pol"][0])]
        if op == "anadp":
            return [ana.calc_dyn_pol(A["dp"][:, :nt]), ana.calc_epsilon(A["pol"][:, :nt])]
        if op == "anadc":
            num = len([x for x in ana.calc_dos(A["dos"][:nt + 1])[0] if self.cfg.DC_conductivity["energy_limits"][0] <= x <= self.cfg.DC_conductivity["energy_limits"][1]])
            return [ana.calc_diff_coeff(A["dc"][:, :num, :nt])] if num <= 12 else []
        if op == "plot":
            with figure.captured():
                s.plot(fig_name="a.png", view=("ab", "bc", "ca")[a % 3], with_conj=a % 2 == 0, hop_as_arrows=a % 4 < 2)
            return []
        if op == "wfc":
            import tbplas as tb
            with figure.captured():
                tb.Visualizer().plot_wfc(s, A["psi"] if a % 2 else np.abs(A["psi"]), fig_name="a.png", scatter=True)
            return []
        if op == "files":
            s.save_array(f"{self.path}/arrays")
            self.sol.save_config()
            return [np.load(f"{self.path}/arrays/{f}") for f in sorted(os.listdir(f"{self.path}/arrays")) if f.endswith(".npy")]
        if op == "super":
            sc = self.sc
            out = [sc.get_hop(), sc.get_orb_pos(), sc.get_orb_eng(), sc.get_reciprocal_vectors(), sc.orb_id_sc2pc(a % self.n),
                   sc.orb_id_sc2pc_array(A["sel"])]
            return out + [sc.orb_id_pc2sc_array(sc.orb_id_sc2pc_array(A["sel"])), sc.orb_id_pc2sc(sc.orb_id_sc2pc(a % self.n))]
        return ana.calc_hall_cond(A["mu"], unit=("h", "h_bar")[a % 2])


SAMPLE_EDITS = ["field", "kpoint", "rescale", "reset", "seed", "steps", "beta", "mu", "spin", "site", "q", "window", "num"]
SAMPLE_CALCS = ["bands", "states", "sbands", "ham", "dxy", "dos", "ldos", "ac", "dp", "dc", "hall", "qe", "haydock", "psi", "ana", "anaac", "anadp", "anadc", "anahall", "plot", "wfc",
                "files", "super"]


def walk(case, ctx, make, calcs):
    """Run the history; every calculation against a new set of objects with the same edits."""
    env = make(0.0)
    given = copy.deepcopy(env.args)
    edits, held, seen, checked = [], [], {}, 0

    def alone(op, a, noise=0.0):
        fresh = make(noise)
        for e in edits:
            fresh.edit(*e)
        return values(fresh.calc(op, a))

    def compare(op, a, got, when):
        nonlocal checked
        key = (op, a, len(edits))
        if key not in seen:
            seen[key] = alone(op, a)
        want = seen[key]
        if differ(got, want) > 1e-8:
            shaky = alone(op, a, 1e-11)
            if differ(shaky, want) > 1e-9:
                ctx.label("ill-conditioned")
                return
            ctx.fail(f"{op}({a}) {when}: relative deviation {differ(got, want):.3e} from the same calculation on its own; edits {edits}")
        checked += 1

    def untouched(when):
        for k, v in env.args.items():
            ctx.check(type(v) is type(given[k]) and np.array_equal(v, given[k]), f"argument {k} was changed by {when}")

    for op, a in case["ops"]:
        if op not in calcs:
            env.edit(op, a)
            edits.append((op, a))
            continue
        before = env.model()
        res = env.calc(op, a)
        ctx.check(same(before, env.model()), f"{op}({a}) changed the model")
        untouched(f"{op}({a})")
        arrs = arrays(res)
        held.append((op, a, arrs, copy.deepcopy(arrs)))
        compare(op, a, values(res), "after " + ", ".join(x[0] for x in case["ops"][:6]))
        ctx.label(op)
    for op, a, arrs, copies in held:
        for x, y in zip(arrs, copies):
            ctx.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"), f"the result of {op}({a}) changed later on")
    # results belong to the caller
    before = env.model()
    for op, a, arrs, _ in held:
        for x in arrs:
            if x.flags.writeable and x.ndim and not any(isinstance(v, np.ndarray) and np.shares_memory(x, v) for v in env.args.values()):
                x[...] = 77
    ctx.check(same(before, env.model()), "overwriting results changes the model")
    untouched("overwriting results")
    for op, a in sorted({x[:2] for x in held}):
        compare(op, a, values(env.calc(op, a)), "after results were overwritten")
    ctx.nontrivial(checked >= 2)


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def history(edits, calcs):
    """Few kinds of calculations and edits per history, so that they meet."""
    def steps(kinds):
        op = g.weighted((2, st.sampled_from(kinds[0])), (1, st.sampled_from(kinds[1])))
        return st.lists(st.tuples(op, st.integers(0, 9)).map(list), min_size=2, max_size=9)
    return st.tuples(st.lists(st.sampled_from(calcs), min_size=1, max_size=3, unique=True),
                     st.lists(st.sampled_from(edits), min_size=1, max_size=3, unique=True)).flatmap(steps)


@st.composite
def cells_case(draw):
    n = draw(st.integers(1, 4))
    c = draw(g.cell(min_orb=n, max_orb=n, min_hop=1, max_hop=6, max_r=1, planar=True))
    return {"cell": c, "mesh": [draw(st.integers(2, 3)), draw(st.integers(2, 3)), 1], "k": draw(g.sized(g.kpoint(-1, 1), 1, 3)),
            "ops": draw(history(CELL_EDITS, CELL_CALCS))}


@st.composite
def samples_case(draw):
    case = draw(tbpm.small_sample(9))
    case.update({"k": draw(g.sized(g.kpoint(-1, 1), 1, 3)), "ops": draw(history(SAMPLE_EDITS, SAMPLE_CALCS))})
    return case


@sub("C29", cells_case, quick=900, thorough=12000, shards=4, rule="at least two calculations were compared")
def cells(case, ctx):
    walk(case, ctx, lambda noise: Cells(case, noise), CELL_CALCS)


@sub("C29", samples_case, quick=900, thorough=12000, shards=4, rule="at least two calculations were compared")
def samples(case, ctx):
    with tbpm.workdir() as path:
        walk(case, ctx, lambda noise: Samples(case, noise, path), SAMPLE_CALCS)
