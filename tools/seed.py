#!/usr/bin/env python3
"""Try planted bugs: tools/seed.py [--no-tests] [-jN] ID...

For each ID: copy /repo to scratch, run the demo (must pass), apply seeded/ID/patch.diff, build, run the demo (must
fail), run the repository's tests against the copy, run the property's check against the copy, remove the copy.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
V = "/verif"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])


def sh(cmd, cwd, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def one(sid, tests, extra):
    root = f"/tmp/seed-{sid}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    out = [f"== {sid}"]
    try:
        wt = f"{root}/repo"
        sh(f"cp -a /repo {wt}", "/")
        for n in ("build.sh", "test.sh"):
            s = open(f"/opt/vp/{n}").read()
            s = s.replace("/opt/vp/results.py", "@R@").replace("/opt/vp/build.sh", f"{root}/build.sh")
            s = s.replace("/repo", wt).replace("/opt/vp/work", f"{root}/work")
            s = s.replace("@R@", "/opt/vp/results.py")
            s = re.sub(r"(?m)^(unset PYTHONPATH.*|(export )?PYTHONPATH=.*)$", f"export PYTHONPATH={wt}", s)
            open(f"{root}/{n}", "w").write(s)
        d = f"{root}/demo"
        shutil.copytree(f"{V}/seeded/{sid}", d)
        meta = json.load(open(f"{d}/meta.json"))
        rc, o = sh(f"git apply {d}/patch.diff", wt)
        if rc:
            return "\n".join(out + ["APPLY FAILED", o])
        sh("git apply -R " + f"{d}/patch.diff", wt)
        rc, o = sh(f"bash {d}/demo.sh", wt, timeout=300)
        out.append(f"demo clean rc={rc}" + ("" if rc == 0 else "  <-- BAD\n" + o[-1500:]))
        sh(f"git apply {d}/patch.diff", wt)
        rc, o = sh(f"bash {root}/build.sh", wt)
        if rc:
            return "\n".join(out + ["BUILD FAILED", o[-300:]])
        rc, o = sh(f"bash {d}/demo.sh", wt, timeout=300)
        out.append(f"demo patched rc={rc}" + ("  <-- BAD" if rc == 0 else "") + "\n    " + o.strip()[-300:].replace("\n", "\n    "))
        if tests:
            rc, o = sh(f"bash {root}/test.sh {root}/t.json", wt)
            r = json.load(open(f"{root}/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("stable") or base.get("passed") or base.get("tests")
            miss = [t for t in stable if t not in set(r["passed"])]
            out.append(f"tests: {len(stable) - len(miss)}/{len(stable)}" + (f"  <-- BAD {miss[:6]}" if miss else ""))
        t0 = time.time()
        rc, o = sh(f"python3 check.py {meta['property']} {extra}", V, {"MPLBACKEND": "Agg", "VERIF_REPO": wt, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": root})
        out.append(f"check {meta['property']}: rc={rc} {'CAUGHT' if rc == 1 else 'MISSED <--'} {time.time() - t0:.0f}s\n    " +
                   "\n    ".join(l[:300] for l in o.strip().splitlines()[-6:]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    jobs = int(next((x[2:] for x in a if x.startswith("-j")), "2"))
    ids = [x for x in a if not x.startswith("-")]
    with ThreadPoolExecutor(jobs) as ex:
        for f in as_completed([ex.submit(one, s, tests, "") for s in ids]):
            r = f.result()
            print(r, flush=True)
            sid = r.split()[1]
            st = f"{V}/tools/seeds_status.json"
            d = json.load(open(st)) if os.path.exists(st) else {}
            chk = re.search(r"check (C\d+): rc=(\d+)", r)
            if "BAD" in r or not chk:
                d[sid] = "not valid"
            elif not tests and sid not in d:
                d[sid] = ("caught by " if chk[2] == "1" else "missed by ") + chk[1] + " (tests not run)"
            else:
                d[sid] = ("caught by " if chk[2] == "1" else "missed by ") + chk[1]
            json.dump(d, open(st, "w"), indent=1, sort_keys=True)
