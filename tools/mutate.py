#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py [-jN] [-nPER_FILE] [-sSEED] [-oLOG] [FILE_PREFIX...]

Draws small changes of the sources (operators, constants, indices, dropped statements, ...), each in its own scratch copy,
and runs the checks of the properties anchored in that file until one reports a violation. Survivors are appended to the
log for review: they are equivalent, caught by the repository's tests, outside the properties, or a gap in the checks.
"""
import difflib, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor, as_completed
REPO = os.environ.get("VERIF_REPO", "/repo")
MAP = [("tbplas/builder/base.py", "C01 C05 C07 C06 C09"), ("tbplas/builder/primitive.py", "C01 C02 C04 C05 C27 C03"),
       ("tbplas/builder/overlap.py", "C02 C03"), ("tbplas/builder/advanced.py:SK", "C12"), ("tbplas/builder/advanced.py:SOC", "C13"),
       ("tbplas/builder/advanced.py:Atomic", "C13"), ("tbplas/builder/advanced.py:ParamFit", "C24"),
       ("tbplas/builder/advanced.py", "C04 C05 C02 C12"), ("tbplas/builder/super.py", "C06 C07 C27 C08"),
       ("tbplas/builder/sample.py", "C08 C09 C10 C27 C11 C03"), ("tbplas/builder/visual.py", "C27"),
       ("tbplas/cython/primitive.pyx", "C02 C01 C04"), ("tbplas/cython/super.pyx", "C06 C07 C08"),
       ("tbplas/cython/sample.pyx", "C08 C09 C10"), ("tbplas/cython/lindhard.pyx", "C15 C16"), ("tbplas/cython/atom.pyx", "C25"),
       ("tbplas/fortran/lindhard.f90", "C15 C16"), ("tbplas/fortran/analysis.f90", "C21"), ("tbplas/fortran/", "C19 C20 C22 C21"),
       ("tbplas/diagonal/base.py", "C03 C22"), ("tbplas/diagonal/lindhard.py", "C15 C16 C22"), ("tbplas/diagonal/magnetic.py", "C17"),
       ("tbplas/diagonal/z2.py", "C18"), ("tbplas/tbpm/analysis.py", "C21"), ("tbplas/tbpm/config.py", "C26 C21"),
       ("tbplas/tbpm/solver.py", "C19 C20 C26 C22"), ("tbplas/materials/", "C23"), ("tbplas/adapter/", "C14"),
       ("tbplas/base/", "C11"), ("tbplas/parallel.py", "C22"), ("tbplas/utils.py", "C28 C22"), ("tbplas/visual.py", "C25")]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" == ", " != "), (r" < ", " <= "), (r" <= ", " < "),
       (r" > ", " >= "), (r" >= ", " > "), (r" != ", " == "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bcos\(", "sin("),
       (r"\bsin\(", "cos("), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\.conjugate\(\)", ""), (r"\bconjg\(", "("),
       (r"\babs\(", "("), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"),
       (r", 0\]", ", 1]"), (r", 1\]", ", 0]"), (r", 2\]", ", 1]"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b1\b", "0"),
       (r"\b0\.5\b", "1.0"), (r"\b2\.0\b", "1.0"), (r" // ", " / "), (r" % ", " // "), (r"= -", "= "), (r"\(-", "("), (r" \+= ", " = "),
       (r" -= ", " += "), (r" \*= ", " /= "), (r"\.copy\(\)", ""), (r"\bii\b", "jj"), (r"\bjj\b", "ii"), (r"_bra\b", "_ket"), (r"_ket\b", "_bra"),
       (r"\.real\b", ".imag"), (r"\+1\b", ""), (r"-1\b", ""), (r"\bx\b", "y"), (r"\by\b", "z"), (r"break", "pass"), (r"continue", "pass")]


def code_lines(path, text):
    """Indices of lines that are code (no comment, docstring, import, message)."""
    out, doc, cls = [], False, ""
    f90 = path.endswith(".f90")
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        m = re.match(r"(class|def|cdef \w+|cpdef \w+) (\w+)", line)
        if m:
            cls = m.group(2)
        if not f90 and s.count('"""') == 1:
            doc = not doc
            continue
        if doc or not s or s.startswith(("#", "!", '"""', "import ", "from ", "raise ", "print", "def ", "class ", "USE ", "use ", "@", ":",
                                         "cdef ", "INTEGER", "integer", "REAL", "real(", "COMPLEX", "complex(", "PRINT", "WRITE", "write",
                                         "CALL print", "self.print", "if rank", "if (rank", "self.log", "f\"", "f'", "\"", "end ", "END ")):
            continue
        out.append((n, cls))
    return out


def mutants(path, rng, count):
    text = open(f"{REPO}/{path}").read()
    lines = text.split("\n")
    cands = []
    for n, cls in code_lines(path, text):
        code = lines[n].split("  #")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                cands.append((n, cls, lines[n][:m.start()] + rep + lines[n][m.end():]))
        s = code.strip()
        if re.match(r"[\w\.\[\], ]+ (=|\+=|-=|\*=) ", s) and s.count("(") == s.count(")") and s.count("[") == s.count("]") and not s.endswith("\\") \
                and not s.endswith("&") and not path.endswith(".f90") and not s.endswith(",") and not path.endswith(".pyx"):
            cands.append((n, cls, code[:len(code) - len(code.lstrip())] + "pass"))
        if re.match(r"(self\.)?\w+(\.\w+)*\(.*\)$", s) and path.endswith(".py"):
            cands.append((n, cls, code[:len(code) - len(code.lstrip())] + "pass"))
    # spread over the lines: pick the line first
    by = {}
    for c in cands:
        by.setdefault(c[0], []).append(c)
    keys = sorted(by)
    rng.shuffle(keys)
    return [rng.choice(by[k]) for k in keys[:count]], lines


def props(path, cls):
    for k, v in MAP:
        f, _, c = k.partition(":")
        if path.startswith(f) and (not c or cls.startswith(c)):
            return v.split()
    return []


def one(i, path, mut, lines):
    n, cls, new = mut
    root = f"/tmp/mut-{os.getpid()}-{i}"
    diff = f"{path}:{n + 1} [{cls}]\n  - {lines[n].strip()}\n  + {new.strip()}"
    try:
        shutil.copytree(f"{REPO}/tbplas", f"{root}/tbplas", ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c"))
        shutil.copy(f"{REPO}/CMakeLists.txt", root)
        body = list(lines)
        body[n] = new
        open(f"{root}/{path}", "w").write("\n".join(body))
        if path.endswith(".py"):
            try:
                compile("\n".join(body), path, "exec")
            except SyntaxError:
                return "INVALID", diff, ""
        for p in props(path, cls):
            e = dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=root, MPLBACKEND="Agg")
            try:
                r = subprocess.run(["timeout", "-k", "5", "600", "python3", "check.py", p], cwd="/verif", env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
            except Exception as ex:
                return "ERROR", diff, repr(ex)
            if r.returncode == 1:
                return "CAUGHT", diff, p
            if r.returncode != 0:
                return ("INVALID" if "BuildError" in r.stdout or "command failed" in r.stdout else "NOANSWER"), diff, f"{p} rc={r.returncode} " + r.stdout[-300:]
        return "SURVIVED", diff, " ".join(props(path, cls))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    a = sys.argv[1:]
    get = lambda c, d: next((x[2:] for x in a if x.startswith("-" + c)), d)
    jobs, per, seed, log = int(get("j", "3")), float(get("n", "0")), int(get("s", "1")), get("o", "/tmp/mutants.log")
    pre = [x for x in a if not x.startswith("-")]
    todo = []
    again = get("r", "")
    if again:        # mutants which survived a previous campaign
        for m in re.finditer(r"^(?:SURVIVED|NOANSWER) (\S+):(\d+) \[(\w*)\]\n  - (.*)\n  \+ (.*)\n", open(again).read(), re.M):
            path, n, cls, old, new = m.group(1), int(m.group(2)) - 1, m.group(3), m.group(4), m.group(5)
            lines = open(f"{REPO}/{path}").read().split("\n")
            near = [i for i in range(len(lines)) if lines[i].strip() == old]
            if near:
                n = min(near, key=lambda i: abs(i - n))
                todo.append((path, (n, cls, lines[n].replace(old, new)), lines))
    for r, _, fs in os.walk(f"{REPO}/tbplas"):
        for f in sorted(fs):
            path = os.path.relpath(f"{r}/{f}", REPO)
            if again or not f.endswith((".py", ".pyx", ".f90")) or f in ("__init__.py", "exceptions.py") or (pre and not any(path.startswith(p) for p in pre)):
                continue
            if not props(path, ""):
                continue
            rng = random.Random(f"{seed}-{path}")
            size = len(code_lines(path, open(f"{REPO}/{path}").read()))
            ms, lines = mutants(path, rng, int(per) if per >= 1 else max(4, int(size * (per or 0.05))))
            todo += [(path, m, lines) for m in ms]
    random.Random(seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    tally = {}
    with ThreadPoolExecutor(jobs) as ex, open(log, "a") as out:
        for f in as_completed([ex.submit(one, i, *t) for i, t in enumerate(todo)]):
            st, diff, info = f.result()
            tally[st] = tally.get(st, 0) + 1
            out.write(f"{st} {diff}\n    {info}\n")
            out.flush()
    print(tally)


if __name__ == "__main__":
    main()
