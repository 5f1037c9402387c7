"""Compile the C extensions of /repo's *current working tree* out of tree.

/opt/vp/build.sh is not re-run before a check, so every check compiles the three
nanobind modules itself (about 6 s), from CMakeLists.txt of /repo, into
/verif/build/<variant>-<hash of the C sources>.  Nothing is written in /repo.
"""

import hashlib
import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD_ROOT = pathlib.Path(os.environ.get("VERIF_BUILD", VERIF / "build"))
PY = "/opt/venv/bin/python"

VARIANTS = {
    # name: (build type, C flags, CXX flags, linker flags, compilers)
    "opt": ("Release", "", "", "", ("gcc", "g++")),
    "asan": (
        "Debug",
        "-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer",
        "-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer",
        "",
        ("gcc", "g++"),
    ),
    # Uninitialised reads / heap contents: poison through valgrind-like padding
    # is done at run time with MALLOC_PERTURB_, no special build is required.
    "tsan": (
        "Debug",
        "-O1 -g -fsanitize=thread -fno-omit-frame-pointer",
        "-O1 -g -fsanitize=thread -fno-omit-frame-pointer",
        "",
        ("gcc", "g++"),
    ),
    # with LAPACKE linked in (diagonalisation of dynamical and collision matrices in C)
    "lapacke": ("Release", "", "", "", ("gcc", "g++")),
    "asanlap": (
        "Debug",
        "-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer",
        "-O1 -g -fsanitize=address,undefined -fno-omit-frame-pointer",
        "",
        ("gcc", "g++"),
    ),
    "tsanlap": (
        "Debug",
        "-O1 -g -fsanitize=thread -fno-omit-frame-pointer",
        "-O1 -g -fsanitize=thread -fno-omit-frame-pointer",
        "",
        ("gcc", "g++"),
    ),
    # valgrind: no sanitizer, debug symbols, no OpenMP
    "vg": ("Debug", "-O1 -g", "-O1 -g", "", ("gcc", "g++")),
}


LAPACKE = ("lapacke", "asanlap", "tsanlap")

# other conditions of execution of the same build: heap contents, thread scheduling
ALIAS = {"poison": "opt", "poisonlap": "lapacke", "shim": "opt", "shimlap": "lapacke",
         "gomp": "opt"}


def _lib(name):
    r = subprocess.run(["gcc", f"-print-file-name={name}"], stdout=subprocess.PIPE, text=True,
                       env=_env())
    return r.stdout.strip()


def helper(name):
    """Compile harness/<name>.c into a shared library."""
    src = VERIF / "harness" / f"{name}.c"
    tag = hashlib.sha256(src.read_bytes()).hexdigest()[:16]
    out = BUILD_ROOT / f"{name}-{tag}.so"
    if not out.exists():
        BUILD_ROOT.mkdir(parents=True, exist_ok=True)
        tmp = BUILD_ROOT / f"{name}-{tag}.{os.getpid()}.tmp"
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-g", "-o", str(tmp), str(src),
                            "-lpthread"], env=_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        tmp.rename(out)
    return out


def run_env(variant):
    """Environment variables that processes of this variant need."""
    if variant in ("asan", "asanlap"):
        return {
            "LD_PRELOAD": f"{_lib('libasan.so')} {_lib('libubsan.so')}",
            "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=1:strict_string_checks=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
            "PYTHONMALLOC": "malloc",
        }
    if variant in ("poison", "poisonlap"):
        return {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    if variant == "gomp":
        return {"OMP_WAIT_POLICY": "passive", "OMP_NUM_THREADS": "8", "OMP_DYNAMIC": "false"}
    if variant in ("shim", "shimlap"):
        return {"LD_PRELOAD": str(helper("gompshim")), "OMP_NUM_THREADS": "8"}
    if variant in ("tsan", "tsanlap"):
        return {
            "LD_PRELOAD": f"{_lib('libtsan.so')} {helper('gompshim')}",
            "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0:history_size=4:"
                            "report_signal_unsafe=0:report_thread_leaks=0",
            "OMP_NUM_THREADS": "4",
            "VF_SEED": "12345",
        }
    return {}


def source_files():
    out = [REPO / "CMakeLists.txt"]
    for d in ("c", "ctest", "fortran"):
        if (REPO / d).is_dir():
            out += sorted(p for p in (REPO / d).rglob("*") if p.is_file())
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in source_files():
        h.update(str(p.relative_to(REPO)).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:16]


class BuildError(RuntimeError):
    pass


def _env():
    env = dict(os.environ)
    for k in (
        "LD_PRELOAD",
        "ASAN_OPTIONS",
        "TSAN_OPTIONS",
        "OMP_NUM_THREADS",
        "CFLAGS",
        "CXXFLAGS",
        "LDFLAGS",
    ):
        env.pop(k, None)
    env["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
    return env


def build(variant="opt", omp=True):
    """Build the extension modules; return the directory that holds the .so."""
    variant = ALIAS.get(variant, variant)
    btype, cfl, cxxfl, lfl, (cc, cxx) = VARIANTS[variant]
    tag = f"{variant}-{'omp' if omp else 'noomp'}-" + tree_hash(
        repr(VARIANTS[variant]) + str(omp)
    )
    out = BUILD_ROOT / tag
    names = ("_phono3py", "_phononcalc", "_recgrid")

    def complete(d):
        return (d / "DONE").exists() and all(list(d.glob(f"{n}.*so")) for n in names)

    if complete(out):
        return out
    BUILD_ROOT.mkdir(parents=True, exist_ok=True)
    tmp = BUILD_ROOT / f"{tag}.tmp{os.getpid()}"
    if tmp.exists():
        shutil.rmtree(tmp)
    cmd = [
        "cmake",
        "-S",
        str(REPO),
        "-B",
        str(tmp),
        "-G",
        "Ninja",
        "-DSKBUILD_PROJECT_NAME=phono3py",
        f"-DPython_EXECUTABLE={PY}",
        f"-DCMAKE_BUILD_TYPE={btype}",
        f"-DCMAKE_C_COMPILER={cc}",
        f"-DCMAKE_CXX_COMPILER={cxx}",
        f"-DCMAKE_C_FLAGS={cfl}",
        f"-DCMAKE_CXX_FLAGS={cxxfl}",
        f"-DPHONO3PY_USE_OMP={'ON' if omp else 'OFF'}",
    ]
    if variant in LAPACKE:
        cmd += ["-DBUILD_WITHOUT_LAPACKE=OFF", "-DCMAKE_CXX_STANDARD_LIBRARIES=-llapacke"]
    else:
        cmd.append("-DBUILD_WITHOUT_LAPACKE=ON")
    if lfl:
        cmd.append(f"-DCMAKE_MODULE_LINKER_FLAGS={lfl}")
    for c in (cmd, ["ninja", "-C", str(tmp), "-j8"]):
        r = subprocess.run(
            c, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
        )
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(" ".join(c) + "\n" + r.stdout[-4000:])
    (tmp / "DONE").write_text("ok\n")
    # keep the cache small: drop builds of other source states of this variant
    for old in BUILD_ROOT.glob(f"{variant}-{'omp' if omp else 'noomp'}-*"):
        if old != tmp and not old.name.startswith(tag) and ".tmp" not in old.name:
            shutil.rmtree(old, ignore_errors=True)
    try:
        tmp.rename(out)
    except OSError:  # someone else was faster
        if not complete(out):
            shutil.rmtree(out, ignore_errors=True)
            tmp.rename(out)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["opt"]:
        print(build(v))
