#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; the checks only read the file)."""
import json
import subprocess
from pathlib import Path

FINDINGS = [
    {"property": "C15", "key": "dyn_pol-extended",
     "what": "Lindhard.calc_dyn_pol_*: for a cell made with extend_prim_cell the polarisation per area/volume comes out divided by the "
             "number of cells it was extended by (division by PrimitiveCell.extended on top of the larger cell area)"},
    {"property": "C16", "key": "ac_cond-extended",
     "what": "Lindhard.calc_ac_cond: for a cell made with extend_prim_cell the conductivity comes out divided by the number of cells it "
             "was extended by (division by PrimitiveCell.extended on top of the larger cell area)"},
    {"property": "C21", "key": "analyzer-extended",
     "what": "Analyzer.calc_ac_cond, calc_dyn_pol: for a sample whose primitive cell was made with extend_prim_cell the response comes out "
             "divided by the number of cells it was extended by (division by Sample.extended on top of the larger cell area); "
             "calc_dc_cond and calc_hall_cond are not affected"},
]
PROP = {
    "arrays of PrimitiveCell miss edits": "C01", "remove_orbitals corrupts": "C01", "a HopDict with intra-cell": "C05",
    "a rejected HopDict": "C01", "DiagSolver keeps matrices": "C03", "reshape_prim_cell misses": "C04",
    "merge_prim_cell resets": "C05", "merge_prim_cell modifies": "C05", "set_vacancies fails": "C06",
    "orb_id_sc2pc accepts": "C06", "get_hop returns float": "C07", "symmetric gauge": "C10",
    "automatic rescaling factor ignores": "C09", "automatic rescaling of an already": "C09", "frac2cart fails": "C11",
    "rotate_coord truncates": "C11", "wan2pc ignores": "C14", "wan2pc loses": "C14", "calc_epsilon of Lindhard": "C15",
    "SpinTexture keeps": "C17", "count_crossing misses": "C18", "calc_phases of Z2": "C18",
    "AC correlation function at time zero": "C20", "Haydock recursion returns NaN": "C19", "time steps needing less": "C19",
    "spin degeneracy is counted twice": "C21", "dist_bound fails": "C22", "dynamic polarisation of several": "C22",
    "make_graphene_rect ignores c": "C23", "ParamFit.fit fails": "C24", "plot_wfc3d fails": "C25", "plot_scalar scrambles": "C25", "s orbitals vanish": "C25", "check_params accepts": "C26",
    "plot of PrimitiveCell without": "C27", "gen_seeds returns fewer": "C28", "vacancies at orbitals": "C06", "projections on orbitals given as an iterator": "C03", "Lindhard hands out": "C29", "orb_id_sc2pc hands out": "C06",
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True)
    fixed = []
    for line in log.stdout.splitlines():
        commit, _, msg = line.partition(" ")
        if not msg.startswith("fix: "):
            continue
        what = msg[5:]
        pid = [p for k, p in PROP.items() if what.startswith(k)]
        assert len(pid) == 1, what
        fixed.append(f"fixed: property={pid[0]} {commit} {what}")
    path = Path(__file__).resolve().parent.parent / "known_findings.json"
    path.write_text(json.dumps({"findings": FINDINGS, "fixed": fixed}, indent=1) + "\n")


if __name__ == "__main__":
    main()
