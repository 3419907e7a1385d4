"""Documented default values of the public interface.

A check that passes an argument explicitly cannot see a wrong default. install() wraps the public functions so that a
keyword argument whose value is the documented default is left out of the call, which must make no difference.
"""
import functools
import inspect

import numpy as np

EYE, ZERO = np.eye(3), np.zeros(3)
PLOT = {"fig_name": None, "fig_size": None, "fig_dpi": 300}
SKD = {"label_i": "s", "label_j": "s", **{v: 0.0 for v in ("v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd")}}
SOCD = {"label_i": "s", "spin_i": "up", "label_j": "s", "spin_j": "down"}
SOLVER = {"enable_mpi": False, "echo_details": True}
BANDS = {"convention": 1, "solver": "lapack", "orbital_indices": None}
DOS = {"e_min": None, "e_max": None, "e_step": 0.05, "sigma": 0.05, "basis": "Gaussian", "g_s": 1}
DRAW = {"with_orbitals": True, "with_cells": True, "orb_color": None, "hop_as_arrows": True, "hop_eng_cutoff": 1e-5, "hop_color": "r", "view": "ab"}

TABLE = {
    "Analyzer.__init__": {"dimension": 3, "enable_mpi": False, "echo_details": False},
    "Analyzer.calc_dos": {"window": "window_hanning"}, "Analyzer.calc_ldos": {"window": "window_hanning"},
    "Analyzer.calc_ac_cond": {"window": "window_exp"}, "Analyzer.calc_dyn_pol": {"window": "window_exp_ten"},
    "Analyzer.calc_dc_cond": {"window_dos": "window_hanning", "window_dc": "window_exp"}, "Analyzer.calc_diff_coeff": {"window_dc": "window_exp"},
    "Analyzer.calc_hall_cond": {"unit": "h_bar"}, "Config.set_temperature": {"temperature": 300.0},
    "DiagSolver.__init__": {"overlap": None, **SOLVER}, "DiagSolver.calc_bands": BANDS, "DiagSolver.calc_dos": DOS,
    "DiagSolver.calc_states": {"convention": 1, "solver": "lapack", "all_reduce": True},
    "FakePC.__init__": {"lat_vec": EYE, "unit": 0.1},
    "Lindhard.__init__": {"energy_min": 0.0, "energy_max": 10.0, "energy_step": 1000, "mu": 0.0, "temperature": 300.0, "g_s": 1, "back_epsilon": 1.0,
                          "dimension": 3, "delta": 0.005},
    "Lindhard.frac2cart": {"unit": 1.0}, "Lindhard.cart2frac": {"unit": 1.0}, "Lindhard.grid2cart": {"unit": 1.0},
    "Lindhard.calc_dyn_pol_regular": {"use_fortran": True}, "Lindhard.calc_dyn_pol_arbitrary": {"use_fortran": True},
    "Lindhard.calc_ac_cond": {"component": "xx", "use_fortran": True},
    "MPIEnv.__init__": {"enable_mpi": False, "echo_details": False}, "MPIEnv.dist_list": {"algorithm": "range"},
    "MPIEnv.print": {"text": ""}, "MPIEnv.log": {"event": "", "fmt": "%x %X"}, "get_datetime": {"fmt": "%x %X"},
    "Overlap.set_onsite": {"overlap": 1.0}, "Overlap.set_overlap_dense": {"convention": 1}, "Overlap.set_overlap_csr": {"convention": 1},
    "ParamFit.__init__": {"weights": None}, "PrimitiveCell.__init__": {"lat_vec": EYE, "origin": ZERO, "unit": 0.1},
    "PrimitiveCell.add_orbital": {"energy": 0.0, "label": "X"}, "PrimitiveCell.add_orbital_cart": {"unit": 0.1, "energy": 0.0, "label": "X"},
    "PrimitiveCell.set_orbital": {"position": None, "energy": None, "label": None},
    "PrimitiveCell.set_orbital_cart": {"position": None, "unit": 0.1, "energy": None, "label": None},
    "PrimitiveCell.apply_pbc": {"pbc": (True, True, True)}, "PrimitiveCell.reset_lattice": {"lat_vec": None, "origin": None, "unit": 0.1, "fix_orb": True},
    "PrimitiveCell.sync_array": {"force_sync": False}, "PrimitiveCell.plot": {**PLOT, **DRAW, "with_conj": True},
    "PrimitiveCell.print_hk": {"convention": 1}, "PrimitiveCell.set_ham_dense": {"convention": 1}, "PrimitiveCell.set_ham_csr": {"convention": 1},
    "PrimitiveCell.calc_bands": {**SOLVER, **BANDS}, "PrimitiveCell.calc_dos": {**SOLVER, **DOS}, "PrimitiveCell.get_lattice_area": {"direction": "c"},
    "SuperCell.__init__": {"pbc": (False, False, False), "vacancies": None, "orb_pos_modifier": None},
    "SuperCell.set_orb_pos_modifier": {"orb_pos_modifier": None}, "SuperCell.plot": {**DRAW, "with_conj": False},
    "SuperCell.get_lattice_area": {"direction": "c"}, "SuperCell.sync_array": {"force_sync": False},
    "SCInterHopping.get_hop": {"check_dup": False},
    "SCInterHopping.plot": {"with_conj": False, "hop_as_arrows": True, "hop_eng_cutoff": 1e-5, "hop_color": "r", "view": "ab"},
    "SK.ss": {"v_sss": 0.0}, "SK.sp": {"label_p": "px", "v_sps": 0.0}, "SK.sd": {"label_d": "dxy", "v_sds": 0.0}, "SK.ps": {"label_p": "px", "v_sps": 0.0},
    "SK.ds": {"label_d": "dxy", "v_sds": 0.0}, "SK.pp": {"label_i": "px", "label_j": "px", "v_pps": 0.0, "v_ppp": 0.0},
    "SK.pd": {"label_p": "px", "label_d": "dxy", "v_pds": 0.0, "v_pdp": 0.0}, "SK.dp": {"label_p": "px", "label_d": "dxy", "v_pds": 0.0, "v_pdp": 0.0},
    "SK.dd": {"label_i": "dxy", "label_j": "dxy", "v_dds": 0.0, "v_ddp": 0.0, "v_ddd": 0.0},
    "SK.eval": SKD, "SOC.eval": SOCD, "SOCTable.eval": SOCD, "SOCTable2.eval": SOCD, "SOC.print_soc_table": {"spin_i": "up", "spin_j": "up"},
    "Sample.init_orb_eng": {"force_init": False}, "Sample.init_orb_pos": {"force_init": False}, "Sample.init_hop": {"force_init": False},
    "Sample.init_dr": {"force_init": False},
    "Sample.save_array": {"data_dir": "sample"}, "Sample.load_array": {"data_dir": "sample"}, "Sample.rescale_ham": {"factor": None},
    "Sample.set_magnetic_field": {"gauge": 0}, "Sample.build_ham_dxy": {"orb_eng_cutoff": 1e-5, "algo": "fast", "sort_col": False},
    "Sample.plot": {**PLOT, "sc_orb_colors": None, "sc_hop_colors": None, "inter_hop_colors": None, **DRAW, "with_conj": False},
    "Sample.set_ham_dense": {"convention": 1}, "Sample.set_ham_csr": {"convention": 1}, "Sample.calc_bands": {**SOLVER, **BANDS},
    "Sample.calc_dos": {**SOLVER, **DOS}, "Solver.__init__": SOLVER, "Solver.set_output": {"directory": "sim_data", "prefix": None},
    "Solver.save_config": {"filename": "config.pkl"}, "Solver.calc_quasi_eigenstates": {"save_data": False},
    "Solver.calc_psi_t": {"dt_scale": 1.0, "save_data": False},
    "SpinTexture.__init__": {"spin_major": True, "overlap": None, **SOLVER}, "SpinTexture.eval": {"component": "z"},
    "Visualizer.__init__": {"enable_mpi": False, "echo_details": False},
    "Visualizer.plot_xy": {**PLOT, "x_label": None, "y_label": None, "x_lim": None, "y_lim": None, "beautifier": None, "color": "r", "linewidth": 1.2},
    "Visualizer.plot_bands": {**PLOT, "x_label": "k (1/nm)", "y_label": "Energy (eV)", "beautifier": None, "color": "r", "linewidth": 1.2},
    "Visualizer.plot_dos": {**PLOT, "x_label": "Energy (eV)", "y_label": "DOS (1/eV)", "beautifier": None, "color": "r", "linewidth": 1.2},
    "Visualizer.plot_phases": {**PLOT, "scatter": True, "polar": False, "beautifier": None, "color": "r", "linewidth": 1.2},
    "Visualizer.plot_scalar": {**PLOT, "model": None, "model_style": None, "scatter": False, "site_size": 5, "site_color": "cmap", "num_grid": (200, 200),
                               "cmap": "viridis", "with_colorbar": False, "beautifier": None},
    "Visualizer.plot_vector": {**PLOT, "model": None, "model_style": None, "arrow_color": "cmap", "cmap": "viridis", "with_colorbar": False,
                               "beautifier": None},
    "Visualizer.plot_wfc": {"with_model": True},
    "Visualizer.plot_wfc3d": {"convention": 1, "k_point": None, "rn_max": None, "cube_name": "wfc.cube", "cube_origin": None, "cube_size": None,
                              "resolution": 0.005, "kind": "real"},
    "Z2.calc_phases": {"kc": 0.0, "ka_array": None, "kb_array": None}, "Z2.count_crossing": {"phase_ref": 0.5}, "Z2.reorder_phases": {"threshold": 0.1, "smooth": True},
    "cart2frac": {"origin": ZERO}, "frac2cart": {"origin": ZERO}, "extend_prim_cell": {"dim": (1, 1, 1)},
    "find_neighbors": {"cell_ket": None, "a_max": 0, "b_max": 0, "c_max": 0, "max_distance": 1.0},
    "gen_lattice_vectors": {"a": 1.0, "b": 1.0, "c": 1.0, "alpha": 90.0, "beta": 90.0, "gamma": 90.0}, "get_lattice_area": {"direction": "c"},
    "make_antimonene": {"with_soc": True, "soc_lambda": 0.34, "c": 1.0}, "make_black_phosphorus": {"c": 1.0},
    "make_graphene_diamond": {"c": 1.0, "t": -2.7}, "make_graphene_rect": {"from_scratch": True, "c": 1.0, "t": -2.7},
    "make_graphene_soc": {"is_qsh": True}, "make_graphene_sp": {"c": 1.0}, "make_tmdc": {"material": "MoS2"},
    "rotate_coord": {"angle": 0.0, "axis": "z", "center": ZERO}, "spiral_prim_cell": {"angle": 0.0, "center": ZERO, "shift": 0.0},
    "reshape_prim_cell": {"delta": 1e-2, "pos_tol": 1e-5}, "make_hetero_layer": {"delta": 1e-2, "pos_tol": 1e-5},
    "print_banner_line": {"width": 80, "mark": "-", "end": "#"}, "print_banner_block": {"width": 80, "mark": "-", "end": "#"},
    "ProgressBar.__init__": {"num_scales": 10},
    "split_list": {"algorithm": "remainder"}, "split_range": {"num_group": 1},
    "wan2pc": {"seed_name": "wannier90", "correct_hop": False, "hop_eng_cutoff": 1e-5},
}
OMITTED = set()       # (function, argument) pairs that were left to their default


def same(value, default):
    if isinstance(default, str) and callable(value):
        return getattr(value, "__name__", "") == default
    if default is None or isinstance(default, (bool, str)):
        return type(value) is type(default) and value == default
    if isinstance(value, (bool, str)) or value is None or callable(value):
        return False
    try:
        a, b = np.asarray(value, dtype=float), np.asarray(default, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool((a == b).all())


def wrap(fn, name, table):
    params = list(inspect.signature(fn).parameters)

    @functools.wraps(fn)
    def call(*args, **kwargs):
        for k in [k for k, v in kwargs.items() if k in table and same(v, table[k])]:
            del kwargs[k]
        while args and len(args) <= len(params) and params[len(args) - 1] in table and same(args[-1], table[params[len(args) - 1]]):
            args = args[:-1]
        for k in table:
            if k not in kwargs and k not in params[:len(args)]:
                OMITTED.add((name, k))
        return fn(*args, **kwargs)
    return call


def install(tb):
    for name, table in TABLE.items():
        owner, _, method = name.rpartition(".")
        holder = getattr(tb, owner, None) if owner else tb
        fn = holder.__dict__.get(method) if holder is not None else None
        if inspect.isfunction(fn):
            setattr(holder, method, wrap(fn, name, table))
        elif isinstance(fn, staticmethod):
            setattr(holder, method, staticmethod(wrap(fn.__func__, name, table)))
