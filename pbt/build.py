"""
Staging build: compile /repo's *current working tree* into a private directory.

The tree is copied (tbplas/ and CMakeLists.txt), compiled from scratch with the project's own CMakeLists.txt, and
the result is used through PYTHONPATH.  Nothing is written to /repo or /opt/vp.  The directory is keyed by the content
of every source file and of the tool versions, so an unchanged tree is built once per sandbox.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = VERIF / ".build"
PY = "/opt/venv/bin/python"
WHEELS = Path("/opt/veriftools/wheels")
SKIP_SUFFIX = {".so", ".pyc", ".c", ".o", ".mod"}


class BuildError(RuntimeError):
    pass


def _sources():
    root = REPO / "tbplas"
    files = [REPO / "CMakeLists.txt"]
    for path in sorted(root.rglob("*")):
        if path.is_file() and path.suffix not in SKIP_SUFFIX and "__pycache__" not in path.parts:
            files.append(path)
    return files


def tree_hash():
    h = hashlib.sha256(b"v3")
    for path in _sources():
        h.update(str(path.relative_to(REPO)).encode() + b"\0")
        h.update(hashlib.sha256(path.read_bytes()).digest())
    return h.hexdigest()[:20]


def native_hash():
    """Key of the compiled modules: everything the compilers see."""
    h = hashlib.sha256(b"n1")
    for path in _sources():
        rel = path.relative_to(REPO)
        if path.name == "CMakeLists.txt" or rel.parts[1] in ("cython", "fortran"):
            h.update(str(rel).encode() + b"\0")
            h.update(hashlib.sha256(path.read_bytes()).digest())
    return h.hexdigest()[:20]


def base_env():
    env = dict(os.environ)
    for key in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(key, None)
    env.update({
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
        "OPENBLAS_NUM_THREADS": "1", "OMP_STACKSIZE": "64M", "OMPI_ALLOW_RUN_AS_ROOT": "1",
        "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self", "OMPI_MCA_pml": "ob1",
    })
    env.setdefault("HOME", "/root")
    return env


def _run(cmd, cwd, log):
    with open(log, "ab") as out:
        out.write(("\n$ " + " ".join(map(str, cmd)) + "\n").encode())
        out.flush()
        rc = subprocess.call(list(map(str, cmd)), cwd=cwd, env=base_env(), stdout=out, stderr=subprocess.STDOUT)
    if rc != 0:
        tail = Path(log).read_text(errors="replace")[-3000:]
        raise BuildError(f"command failed ({rc}): {cmd[0]} ...\n{tail}")


def _compile(stage, tmp):
    """Compile the native modules, unless the very same sources were compiled before; the Python files are copied."""
    native = CACHE / f"native-{native_hash()}"
    src, bld, inst, log = tmp / "src", tmp / "bld", tmp / "inst", tmp / "build.log"
    src.mkdir()
    for path in _sources():
        dst = src / path.relative_to(REPO)
        dst.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(path, dst)
    if not native.exists():
        _run(["cmake", "-S", src, "-B", bld, "-G", "Ninja", "--log-level=NOTICE", "-DSKBUILD_PROJECT_NAME=tbplas",
              "-DCMAKE_BUILD_TYPE=Release", f"-DPython_EXECUTABLE={PY}", f"-DPYTHON_EXECUTABLE={PY}",
              "-DCYTHON=/opt/venv/bin/cython", "-DUSE_INDEX64=OFF", "-DUSE_MKL=OFF", "-DCMAKE_C_COMPILER=gcc",
              "-DCMAKE_Fortran_COMPILER=gfortran", "-DCMAKE_C_FLAGS=",
              "-DCMAKE_Fortran_FLAGS=-cpp -fopenmp -fno-second-underscore"], tmp, log)
        _run(["cmake", "--build", bld], tmp, log)
        _run(["cmake", "--install", bld, "--prefix", inst], tmp, log)
        found = tmp / "native"
        for sub in ("fortran", "cython"):
            (found / sub).mkdir(parents=True)
            for so in (inst / "tbplas" / sub).glob("*.so"):
                shutil.copyfile(so, found / sub / so.name)
        os.replace(found, native)
    os.utime(native)
    out = tmp / "stage"
    shutil.copytree(src / "tbplas", out / "tbplas")
    for sub in ("fortran", "cython"):
        for so in (native / sub).glob("*.so"):
            shutil.copyfile(so, out / "tbplas" / sub / so.name)
    os.replace(out, stage)


def ensure_stage(verbose=True):
    """Return the directory that holds the compiled copy of the current tree."""
    CACHE.mkdir(exist_ok=True)
    key = tree_hash()
    stage = CACHE / f"stage-{key}"
    with open(CACHE / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not stage.exists():
            if verbose:
                print(f"building {REPO} -> {stage}", file=sys.stderr, flush=True)
            for kind in ("stage", "native"):
                for old in sorted(CACHE.glob(f"{kind}-*"), key=lambda p: p.stat().st_mtime)[:-24]:
                    shutil.rmtree(old, ignore_errors=True)
            tmp = Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))
            try:
                _compile(stage, tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        os.utime(stage)         # the least recently used ones are removed first
    return stage


def ensure_hypothesis():
    """Unpack Hypothesis from the offline wheelhouse into a private directory."""
    CACHE.mkdir(exist_ok=True)
    dest = CACHE / "hypothesis-lib"
    with open(CACHE / "lock-hyp", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not dest.exists():
            wheels = sorted(WHEELS.glob("hypothesis-*-cp312-*.whl")) + sorted(WHEELS.glob("sortedcontainers-*.whl"))
            if len(wheels) < 2:
                raise BuildError("hypothesis wheel not found in the offline wheelhouse")
            tmp = Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))
            for wheel in wheels:
                with zipfile.ZipFile(wheel) as zf:
                    zf.extractall(tmp)
            os.replace(tmp, dest)
    return dest
