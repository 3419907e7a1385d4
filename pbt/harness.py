"""
Registry of sub-checks and the search engine that runs one of them.

A sub-check is a pure function ``fn(case, ctx)`` over a JSON-able *case* plus a Hypothesis strategy that generates
cases.  A failure is shrunk by Hypothesis; the shrunk case is plain data and is what the replay file stores.
"""
import hashlib
import json
import os
import time
import traceback
from collections import Counter

REGISTRY = {}          # property id -> list of Sub


class Violation(AssertionError):
    """The property does not hold for the case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The machinery (not tbplas) is at fault."""


class Sub:
    def __init__(self, pid, name, fn, strategy, quick, thorough, shards, omp, rule):
        self.pid, self.name, self.fn, self.strategy = pid, name, fn, strategy
        self.quick, self.thorough, self.shards, self.omp, self.rule = quick, thorough, shards, omp, rule


def sub(pid, strategy, quick, thorough=None, shards=2, omp=1, rule="", name=None):
    """Register a sub-check.  quick/thorough: number of cases over all shards."""
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, name or fn.__name__, fn, strategy, quick, thorough or quick * 20, shards, omp, rule))
        return fn
    return deco


def _msg(msg):
    return msg() if callable(msg) else msg


class Ctx:
    """What a sub-check uses to report."""
    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, *labels):
        self.labels.extend(labels)

    def fail(self, msg, key=None):
        raise Violation(_msg(msg), key=key)

    def check(self, cond, msg, key=None):
        if not bool(cond):
            self.fail(msg, key=key)

    def equal(self, a, b, msg, key=None):
        if not a == b:
            self.fail(f"{_msg(msg)}: {a!r} != {b!r}", key=key)

    def close(self, a, b, tol, msg, key=None):
        """max |a-b| <= tol (absolute); shapes must agree; non-finite values never agree."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fail(f"{_msg(msg)}: shape {a.shape} != {b.shape}", key=key)
        if a.size == 0:
            return
        diff = np.abs(a - b)
        worst = float(np.max(diff)) if np.all(np.isfinite(diff)) else float("inf")
        if not worst <= tol:
            idx = np.unravel_index(int(np.argmax(np.where(np.isfinite(diff), diff, np.inf))), a.shape)
            self.fail(f"{_msg(msg)}: max deviation {worst:.3e} > {tol:.1e} at {tuple(map(int, idx))}: "
                      f"got {a[idx]!r}, expected {b[idx]!r}", key=key)

    def raises(self, exc, fn, msg):
        """fn must raise one of exc; returns the exception."""
        try:
            fn()
        except exc as err:
            return err
        self.fail(f"{_msg(msg)}: no exception raised")


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(obj):
    if isinstance(obj, complex):
        return [obj.real, obj.imag]
    if hasattr(obj, "tolist"):
        return obj.tolist()
    raise TypeError(type(obj))


def load_known():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    with open(path) as f:
        return json.load(f)


def job_seed(base, pid, name, shard):
    h = hashlib.sha256(f"{base}/{pid}/{name}/{shard}".encode()).digest()
    return int.from_bytes(h[:7], "big")


ENV_ERRORS = (ImportError, MemoryError, HarnessError)


def run_job(s, tier, base_seed, shard, n_cases, soft_limit, shrink_limit=40.0, trace_file=None):
    """Run one shard of a sub-check; returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import errors as herr

    known = {k["key"]: k for k in load_known().get("findings", []) if k["property"] == s.pid}
    out = {"sub": s.name, "shard": shard, "evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {},
           "samples": [], "status": "ok", "known": {}}
    seen, labels = set(), Counter()
    t0 = time.monotonic()
    state = {"fail": None, "fail_t": None, "best": None, "err": None}

    def body(case):
        text = dumps(case)
        now = time.monotonic()
        if state["fail_t"] is None:
            if now - t0 > soft_limit:
                out["skipped"] += 1
                return
        elif now - state["fail_t"] > shrink_limit and text != state["best"]:
            return                      # shrinking budget used up: accept the smallest failure so far
        if trace_file is not None:
            with open(trace_file, "w") as f:
                f.write(text)
        ctx = Ctx()
        try:
            s.fn(json.loads(text), ctx)
        except herr.HypothesisException:
            raise
        except ENV_ERRORS as err:
            state["err"] = "".join(traceback.format_exception(err))[-4000:]
            raise
        except BaseException as err:
            if isinstance(err, (KeyboardInterrupt, SystemExit)) and not isinstance(err, SystemExit):
                raise
            key = getattr(err, "key", None)
            if key is not None and key in known:
                out["known"][key] = out["known"].get(key, 0) + 1
                out["evaluations"] += 1
                if ctx.is_nontrivial:
                    seen.add(hashlib.sha256(text.encode()).hexdigest()[:16])
                return
            msg = str(err) if isinstance(err, Violation) else "unexpected exception on a valid input: " + \
                "".join(traceback.format_exception(err))[-3000:]
            if state["fail_t"] is None:
                state["fail_t"] = time.monotonic()
            state["fail"], state["best"] = (text, msg), text
            raise Violation(msg) from None
        if state["fail_t"] is None:
            out["evaluations"] += 1
            labels.update(ctx.labels)
            if ctx.is_nontrivial:
                h = hashlib.sha256(text.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(seen) in (3, 40, 200) and len(text) < 4000:
                        out["samples"].append(json.loads(text))

    test = given(s.strategy() if callable(s.strategy) else s.strategy)(body)
    test = settings(max_examples=n_cases, deadline=None, database=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False, derandomize=False,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(job_seed(base_seed, s.pid, s.name, shard))(test)
    try:
        test()
    except BaseException as err:
        if state["fail"] is not None:
            out["status"] = "violation"
            out["case"], out["message"] = json.loads(state["fail"][0]), state["fail"][1]
            if isinstance(err, herr.Flaky):
                out["message"] += "\n(the failure did not reproduce on every repetition of the case)"
        else:
            out["status"] = "error"
            out["message"] = state["err"] or "".join(traceback.format_exception(err))[-4000:]
    out["nontrivial"] = sorted(seen)
    out["labels"] = dict(labels)
    out["wall"] = time.monotonic() - t0
    return out
