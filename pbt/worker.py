"""Worker process: runs one job (sub-check shard) or one replay and writes the result file."""
import importlib
import json
import os
import sys
import traceback


def load(pid):
    from pbt import harness
    pkg = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for name in sorted(os.listdir(pkg)):
        if name.lower().startswith(pid.lower() + "_") and name.endswith(".py"):
            importlib.import_module(f"pbt.checks.{name[:-3]}")
    return harness.REGISTRY.get(pid, [])


def main():
    job = json.loads(sys.argv[1])
    # everything tbplas prints goes to a log
    sys.stdout.flush()
    log = os.open(job["log"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(log, 1)
    os.chdir(job["scratch"])
    try:
        stage = os.environ["PBT_STAGE"]
        subs = load(job["pid"])          # first: C22 puts a stand-in for mpi4py in place
        import tbplas
        if not os.path.abspath(tbplas.__file__).startswith(stage + os.sep):
            raise RuntimeError(f"tbplas imported from {tbplas.__file__}, not from the staged build")
        from pbt import defaults, harness
        defaults.install(tbplas)
        if job["mode"] == "list":
            res = [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards, "omp": s.omp,
                    "rule": s.rule} for s in subs]
        else:
            s = [x for x in subs if x.name == job["sub"]][0]
            if job["mode"] == "run":
                res = harness.run_job(s, job["tier"], job["seed"], job["shard"], job["n"], job["soft_limit"],
                                      trace_file=job["trace"])
            else:
                ctx = harness.Ctx()
                try:
                    s.fn(job["case"], ctx)
                    res = {"status": "ok"}
                except harness.ENV_ERRORS as err:
                    res = {"status": "error", "message": "".join(traceback.format_exception(err))}
                except BaseException as err:
                    res = {"status": "violation", "message": "".join(traceback.format_exception(err))}
    except BaseException as err:
        res = {"status": "error", "message": "".join(traceback.format_exception(err))}
    if os.environ.get("PBT_DROPPED") and "defaults" in locals():
        with open(os.environ["PBT_DROPPED"], "a") as f:
            f.writelines(f"{n} {k}\n" for n, k in defaults.OMITTED)
    tmp = job["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, job["out"])
    os._exit(0)


if __name__ == "__main__":
    main()
