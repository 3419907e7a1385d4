"""C28: timers, progress reports, banners, seeds, assertions for tests."""
import contextlib
import importlib.util
import io
import os
import random
import re
import sys
import unittest
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt.harness import sub


def load_utils():
    """A private copy of the module, so that clocks and generators patched by the caller are the ones it sees."""
    import tbplas.utils as base
    spec = importlib.util.spec_from_file_location("tbplas._utils_copy", base.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            fn()
            err = None
        except Exception as e:
            err = e
    return out.getvalue(), err


names = st.sampled_from(["a", "bb", "slot c", "long name of a slot", "x:y"])
wait = st.integers(1, 10 ** 6).map(lambda n: n / 4096)
event = st.one_of(st.tuples(st.sampled_from(["tic", "tic", "toc", "toc"]), names), st.tuples(names, wait), st.tuples(names, wait),
                  st.tuples(st.sampled_from(["report", "total", "end", "end", "end"]), st.just("")),
                  st.tuples(st.sampled_from(["reset"] + ["end"] * 5), st.just("")), st.tuples(st.just("wait"), wait))


def flat(case):
    """Plain operations: a name with a time is a complete measurement, "end" stops what is running and reports."""
    running, out = set(), []
    for op, arg in case:
        if op == "end":
            out += [["toc", k] for k in sorted(running)] + [["report", ""], ["total", ""]]
            running.clear()
        elif op in ("tic", "toc", "report", "total", "reset", "wait"):
            out.append([op, arg])
            running = running | {arg} if op == "tic" else running - {arg} if op == "toc" else set() if op == "reset" else running
        else:
            out += [["tic", op], ["wait", arg], ["toc", op]]
            running.discard(op)
    return out


timer_case = st.lists(event.map(list), min_size=4, max_size=40)


@sub("C28", timer_case, quick=1500, shards=2, rule="a slot stopped twice or more and a report with at least two slots")
def timer(case, ctx):
    now = [1.7e9]
    clock = lambda: now[0]
    with mock.patch("time.time", clock), mock.patch("time.perf_counter", clock), mock.patch("time.monotonic", clock):
        tm = load_utils().Timer()
        start, running, last, total, stops, rep = {}, {}, {}, {}, 0, 0
        for op, arg in flat(case):
            if op == "wait":
                now[0] += arg
            elif op == "tic":
                tm.tic(arg)
                start[arg], running[arg] = now[0], True
            elif op == "toc":
                if running.get(arg):
                    tm.toc(arg)
                    last[arg] = now[0] - start[arg]
                    total[arg] = total.get(arg, 0.0) + last[arg]
                    running[arg] = False
                    stops += 1
                else:
                    ctx.raises(RuntimeError, lambda: tm.toc(arg), f"stop of slot {arg!r} that is not running")
            elif op == "reset":
                tm.reset()
                start, running, last, total = {}, {}, {}, {}
            else:
                text, err = printed(tm.report_time if op == "report" else tm.report_total_time)
                if any(running.values()):
                    ctx.check(isinstance(err, RuntimeError), f"report while a slot is running: {err!r}")
                    continue
                ctx.check(err is None, f"report fails: {err!r}")
                got = {}
                for line in text.splitlines():
                    name, value = line.rsplit(":", 1)
                    ctx.check(name.strip() not in got, f"slot {name.strip()!r} is reported twice")
                    got[name.strip()] = float(value)
                want = last if op == "report" else total
                ctx.equal(sorted(got), sorted(want), "reported slots")
                for k in want:
                    ctx.close(got[k], want[k], 1.1e-5 + 1e-9 * want[k], f"{op} of slot {k!r}")
                rep = max(rep, len(want))
    ctx.nontrivial(stops >= 2 and rep >= 2)


@st.composite
def progress_case(draw):
    return {"tasks": draw(st.integers(1, 300)), "scales": draw(st.integers(1, 40)), "default": draw(st.booleans())}


@sub("C28", progress_case, quick=800, shards=1, rule="number of tasks not divisible by the number of scales")
def progress(case, ctx):
    import tbplas as tb
    from tbplas.utils import ProgressBar
    n, scales = case["tasks"], 10 if case["default"] else case["scales"]
    bar = ProgressBar(n) if case["default"] else ProgressBar(n, num_scales=scales)
    unit = n // scales
    for i in range(1, n + 1):
        text, err = printed(bar.count)
        ctx.check(err is None, f"count fails: {err!r}")
        due = unit == 0 or i % unit == 0
        if due:
            m = re.fullmatch(r"\s*finished\s+(\d+) of\s+(\d+)\s+\(\s*([\d.]+)%\)\s*", text)
            ctx.check(m, f"report after {i} of {n} tasks, {scales} scales: {text!r}")
            ctx.equal((int(m[1]), int(m[2])), (i, n), "reported counts")
            ctx.close(float(m[3]), 100.0 * i / n, 0.0051, "reported percentage")
        else:
            ctx.equal(text, "", f"output after {i} of {n} tasks, {scales} scales")
    ctx.nontrivial(n % scales != 0 and n > scales)


@st.composite
def banner_case(draw):
    text = draw(st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=30))
    return {"text": text, "width": draw(st.one_of(st.just(80), st.integers(len(text) + 4, 120))), "mark": draw(st.sampled_from("-=*~")),
            "end": draw(st.sampled_from("#|+")), "default": draw(st.booleans())}


@sub("C28", banner_case, quick=800, shards=1, rule="odd number of characters left for the border")
def banner(case, ctx):
    from tbplas.utils import print_banner_block, print_banner_line
    t, w, m, e = case["text"], case["width"], case["mark"], case["end"]
    kw = dict(width=w, mark=m, end=e)
    if case["default"]:
        w, m, e, kw = 80, "-", "#", {}
    text, err = printed(lambda: print_banner_line(t, **kw))
    ctx.check(err is None, f"banner fails: {err!r}")
    line = text.rstrip("\n")
    ctx.equal(len(line), w, "width of the line")
    left, right = line.find(" "), line.rfind(" ")
    ctx.equal(line[left + 1:right], t, "text of the line")
    for part, what in ((line[:left], "left"), (line[right + 1:][::-1], "right")):
        ctx.equal(part, e + m * (len(part) - 1), f"{what} border of the line")
    ctx.check(abs(left - (w - 1 - right)) <= 1, "text of the line is not centred")
    text, err = printed(lambda: print_banner_block(t, **kw))
    ctx.check(err is None, f"banner fails: {err!r}")
    rows = text.rstrip("\n").split("\n")
    ctx.equal(len(rows), 3, "lines of the block")
    for r in (rows[0], rows[2]):
        ctx.equal(r, e + m * (w - 2) + e, "border of the block")
    mid = rows[1]
    ctx.equal((len(mid), mid[0], mid[-1], mid[1:-1].strip()), (w, e, e, t), "middle of the block")
    inner = mid[1:-1]
    ctx.check(abs((len(inner) - len(inner.lstrip())) - (len(inner) - len(inner.rstrip()))) <= 1, "text of the block is not centred")
    ctx.nontrivial((w - len(t)) % 2 == 1)


seeds_case = st.fixed_dictionaries({"num": st.integers(0, 120), "src": st.integers(0, 10 ** 6), "py": st.integers(0, 10 ** 6)})


@sub("C28", seeds_case, quick=500, shards=1, rule="at least 20 seeds")
def seeds(case, ctx):
    from tbplas.utils import gen_seeds
    state = random.getstate()
    source = random.Random(case["src"])
    random.seed(case["py"])
    try:
        with mock.patch("os.urandom", lambda n: bytes(source.randrange(256) for _ in range(n))):
            got = gen_seeds(case["num"])
    finally:
        random.setstate(state)
    ctx.equal(len(got), case["num"], "number of seeds")
    ctx.equal(len(set(got)), len(got), "number of different seeds")
    for s in got:
        ctx.check(isinstance(s, int) and -2 ** 31 <= s < 2 ** 31, f"seed {s!r} is not a 32-bit integer")
        random.Random(s)
    ctx.nontrivial(case["num"] >= 20)


val = st.one_of(st.integers(-3, 3).map(float), st.integers(-1000, 1000).map(lambda n: n / 7), st.sampled_from([0.0, 1e-9, -1e-9, 1e-3]))


@st.composite
def helper_case(draw):
    n = draw(st.integers(1, 6))
    a = draw(st.lists(val, min_size=n, max_size=n))
    kind = draw(st.sampled_from(["same", "change", "cancel", "tiny"]))
    return {"a": a, "kind": kind, "at": draw(st.integers(0, n - 1)), "by": draw(st.sampled_from([1.0, -0.5, 1e-3, 1e-5, -1e-9])),
            "delta": draw(st.sampled_from([None, 1e-7, 1e-4, 0.1])), "almost": draw(st.booleans()), "matrix": draw(st.booleans()),
            "exc": draw(st.sampled_from(["ValueError", "KeyError", "RuntimeError", None])), "want": draw(st.sampled_from(["ValueError", "KeyError", "RuntimeError"])),
            "msg": draw(st.sampled_from(["alpha", "beta"])), "lines": draw(st.lists(st.sampled_from(["one", "two", "three"]), min_size=1, max_size=4)),
            "wrong": draw(st.booleans())}


@sub("C28", helper_case, quick=1500, shards=1, rule="arrays that differ, or an exception that is not the expected one")
def assertions(case, ctx):
    import builtins
    from tbplas.utils import TestHelper
    th = TestHelper(unittest.TestCase())
    a = np.array(case["a"])
    b = a.copy()
    if case["kind"] == "change":
        b[case["at"]] += case["by"]
    elif case["kind"] == "cancel" and len(b) > 1:
        b[case["at"]] += case["by"]
        b[case["at"] - 1] -= case["by"]
    elif case["kind"] == "tiny":
        b = b + 1e-12
    diff = float(np.abs(a - b).sum())
    if case["matrix"]:
        a, b = a.reshape(1, -1), b.reshape(1, -1)

    def passes(fn):
        try:
            fn()
            return True
        except AssertionError:
            return False
    kw = {"almost": case["almost"]}
    limit = 0.0
    if case["almost"]:
        limit = 1e-7 if case["delta"] is None else case["delta"]
        if case["delta"] is not None:
            kw["delta"] = case["delta"]
    if abs(diff - limit) > 1e-3 * limit:
        ctx.equal(passes(lambda: th.test_equal_array(a, b, **kw)), diff <= limit, f"test_equal_array: distance {diff}, limit {limit}")
        ctx.equal(passes(lambda: th.test_no_equal_array(a, b, **kw)), diff > limit, f"test_no_equal_array: distance {diff}, limit {limit}")
    want = getattr(builtins, case["want"])

    def func():
        if case["exc"]:
            raise getattr(builtins, case["exc"])("alpha message")
    if case["exc"] is None or case["exc"] == case["want"]:
        ok = case["exc"] is not None
        ctx.equal(passes(lambda: th.test_raise(func, want, case["msg"])), ok and case["msg"] == "alpha", "test_raise")
        ctx.equal(passes(lambda: th.test_no_raise(func, want)), not ok, "test_no_raise")

    def talk():
        for i, line in enumerate(case["lines"]):
            print(line)
            if i % 2:
                print()
    expect = list(case["lines"])
    if case["wrong"]:
        expect[case["at"] % len(expect)] = "four"
    text, err = printed(lambda: ctx.equal(passes(lambda: th.test_stdout(talk, expect)), not case["wrong"], "test_stdout"))
    if err is not None:
        raise err
    ctx.equal(text, "", "output of the function under test_stdout")
    ctx.nontrivial(diff > 0 or case["exc"] not in (None, case["want"]))
