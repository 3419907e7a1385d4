#!/opt/venv/bin/python
"""
check.py PID [--tier quick|thorough] [--sub NAME] [--scale X]    run the check of a property
check.py --replay FILE                                          run one saved case again
check.py --setup                                                build what the checks need

Exit 0: the property held on everything explored.  Exit 1: a line "VIOLATION property=.. replay=..".
Exit 2: the machinery could not decide (build failure, harness error).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
from pbt import build                                          # noqa: E402

NPROC = min(8, os.cpu_count() or 1)
SOFT = {"quick": 150.0, "thorough": 3000.0}
CASE_LIMIT = 240.0      # a single case (normally far below a second) that runs longer does not terminate


class Runner:
    def __init__(self, stage, hyp):
        self.scratch = Path(tempfile.mkdtemp(prefix="tbplas-pbt-"))
        self.env = build.base_env()
        self.env["PBT_STAGE"] = str(stage)
        self.env["PYTHONPATH"] = os.pathsep.join([str(stage), str(VERIF), str(hyp)])
        self.env["MPLCONFIGDIR"] = str(self.scratch / "mpl")
        self.env["TMPDIR"] = str(self.scratch)
        self.count = 0

    def start(self, job, omp=1):
        self.count += 1
        base = self.scratch / f"job{self.count}"
        base.mkdir()
        job = dict(job, scratch=str(base), out=str(base) + ".out", log=str(base) + ".log", trace=str(base) + ".trace")
        env = dict(self.env, OMP_NUM_THREADS=str(omp))
        err = open(str(base) + ".err", "wb")
        proc = subprocess.Popen([build.PY, "-m", "pbt.worker", json.dumps(job)], env=env, cwd=str(base), stdout=err,
                                stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        err.close()
        return proc, job

    def collect(self, proc, job):
        if os.path.exists(job["out"]):
            with open(job["out"]) as f:
                return json.load(f)
        tail = Path(job["out"][:-4] + ".err").read_text(errors="replace")[-2000:]
        log = ""
        if os.path.exists(job["log"]):
            log = Path(job["log"]).read_text(errors="replace")[-1500:]
        rc = proc.returncode
        if job["mode"] == "run" and os.path.exists(job["trace"]) and rc != -signal.SIGKILL:
            # tbplas took the interpreter down (signal, STOP) in the middle of a valid case
            case = json.loads(Path(job["trace"]).read_text())
            return {"sub": job["sub"], "shard": job["shard"], "status": "violation", "case": case, "evaluations": 0,
                    "nontrivial": [], "labels": {}, "samples": [], "known": {}, "skipped": 0,
                    "message": f"tbplas ended the process (return code {rc}) while evaluating a valid case\n{log}{tail}"}
        if job["mode"] == "replay" and rc != -signal.SIGKILL:
            return {"status": "violation", "message": f"process ended with {rc}\n{log}{tail}"}
        return {"status": "error", "message": f"worker ended with {rc}\n{tail}", "sub": job.get("sub"),
                "shard": job.get("shard")}

    def stuck(self, job):
        """The case a worker has been evaluating for far too long, or None."""
        try:
            if time.time() - os.path.getmtime(job["trace"]) > CASE_LIMIT and not os.path.exists(job["out"]):
                return {"sub": job["sub"], "shard": job["shard"], "status": "violation", "evaluations": 0, "nontrivial": [],
                        "labels": {}, "samples": [], "known": {}, "skipped": 0,
                        "case": json.loads(Path(job["trace"]).read_text()),
                        "message": f"tbplas did not finish a valid case within {CASE_LIMIT} s"}
        except OSError:
            pass
        return None

    def run_one(self, job, omp=1):
        proc, job = self.start(job, omp)
        proc.wait()
        return self.collect(proc, job)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    proc.wait()


def run_check(pid, tier, seed, only=None, scale=1.0):
    t0 = time.monotonic()
    stage = build.ensure_stage()
    hyp = build.ensure_hypothesis()
    runner = Runner(stage, hyp)
    try:
        return _run_check(runner, pid, tier, seed, only, scale, t0)
    finally:
        runner.close()


def _run_check(runner, pid, tier, seed, only, scale, t0):
    subs = runner.run_one({"mode": "list", "pid": pid})
    if isinstance(subs, dict):
        print(subs["message"], file=sys.stderr)
        return 2
    if only:
        subs = [s for s in subs if s["name"] in only.split(",")]
    if not subs:
        print(f"no sub-check for {pid}", file=sys.stderr)
        return 2
    jobs = []
    for s in subs:
        total = max(1, int((s["quick"] if tier == "quick" else s["thorough"]) * scale))
        shards = s["shards"] if tier == "quick" else NPROC
        shards = max(1, min(shards, total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            jobs.append(({"mode": "run", "pid": pid, "sub": s["name"], "tier": tier, "seed": seed, "shard": i, "n": n,
                          "soft_limit": SOFT[tier]}, s["omp"]))
    # longest first would need timings; interleave the sub-checks instead
    jobs.sort(key=lambda j: j[0]["shard"])
    running, results, failed = [], [], None
    while (jobs or running) and failed is None:
        load = sum(w for _, _, w in running)
        while jobs and (not running or load + jobs[0][1] <= max(NPROC, jobs[0][1])):
            job, omp = jobs.pop(0)
            proc, job = runner.start(job, omp)
            running.append((proc, job, omp))
            load += omp
        time.sleep(0.05)
        for item in list(running):
            if item[0].poll() is not None:
                running.remove(item)
                res = runner.collect(item[0], item[1])
                results.append(res)
                if res["status"] == "violation" and failed is None:
                    failed = res
            elif failed is None:
                failed = runner.stuck(item[1])
    for proc, _, _ in running:
        kill(proc)
    errors = [r for r in results if r["status"] == "error"]
    nontrivial, labels, samples, per_sub, known, skipped = set(), {}, [], {}, {}, 0
    for r in results:
        if r["status"] == "error":
            continue
        nontrivial.update(f"{r['sub']}:{h}" for h in r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if len(samples) < 6:
            samples.extend({"sub": r["sub"], "case": c} for c in r["samples"][:1])
        p = per_sub.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "max_shard_wall_s": 0.0})
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["nontrivial"])
        p["max_shard_wall_s"] = max(p["max_shard_wall_s"], round(r.get("wall", 0.0), 2))
        skipped += r["skipped"]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    if failed is not None and not samples:
        samples = [{"sub": failed["sub"], "case": failed["case"]}]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_sub.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(f"{s['name']}: {s['rule']}" for s in subs),
            "samples": samples, "per_subcheck": per_sub, "labels": dict(sorted(labels.items())),
            "cases_not_run_because_of_the_time_budget": skipped, "known_finding_hits": known,
            "complete": failed is None and not errors,
        },
        "wall_s": round(time.monotonic() - t0, 2), "violations": 0 if failed is None else 1,
        "assumptions": ["floating-point agreement within the tolerance stated in each sub-check",
                        "gfortran/OpenBLAS/SciPy of this sandbox"],
    }
    if not only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        tmp = VERIF / "evidence" / f".{pid}.json.tmp"
        tmp.write_text(json.dumps(evidence, indent=1))
        os.replace(tmp, VERIF / "evidence" / f"{pid}.json")
    with open(VERIF / "known_findings.json") as f:
        for item in json.load(f).get("findings", []):
            if item["property"] == pid:
                print(f"KNOWN-FINDING: property={pid} {item['what']}")
    for name, p in sorted(per_sub.items()):
        print(f"  {pid}.{name}: {p['evaluations']} cases, {p['nontrivial']} non-trivial, "
              f"slowest shard {p['max_shard_wall_s']} s")
    if failed is not None:
        (VERIF / "replays").mkdir(exist_ok=True)
        path = VERIF / "replays" / f"{pid}-{failed['sub']}.json"
        path.write_text(json.dumps({"property": pid, "sub": failed["sub"], "case": failed["case"],
                                    "message": failed["message"]}, indent=1))
        print(f"{pid}.{failed['sub']}: {failed['message'][-2500:]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print(f"HARNESS ERROR in {pid}.{e.get('sub')}: {e['message'][-3000:]}", file=sys.stderr)
        return 2
    print(f"{pid}: held on {evidence['coverage']['evaluations']} cases "
          f"({len(nontrivial)} distinct non-trivial) in {evidence['wall_s']} s")
    return 0


def run_replay(path):
    data = json.loads(Path(path).read_text())
    stage, hyp = build.ensure_stage(), build.ensure_hypothesis()
    runner = Runner(stage, hyp)
    try:
        res = runner.run_one({"mode": "replay", "pid": data["property"], "sub": data["sub"], "case": data["case"]})
    finally:
        runner.close()
    print(res.get("message", "the case passes"))
    if res["status"] == "violation":
        print(f"VIOLATION property={data['property']} replay={path}")
    return {"ok": 0, "violation": 1}.get(res["status"], 2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    args = ap.parse_args()
    try:
        if args.setup:
            build.ensure_stage()
            build.ensure_hypothesis()
            print("setup: OK")
            return 0
        if args.replay:
            return run_replay(args.replay)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run_check(args.pid, args.tier, seed, args.sub, args.scale)
    except build.BuildError as err:
        print(f"BUILD ERROR: {err}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
