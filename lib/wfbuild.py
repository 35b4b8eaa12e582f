"""Build wrenfold from /repo's working tree into /verif/build (never into /repo).

Build directories are keyed by a hash of the source tree's *contents* (not of mtimes), so a
check always sees the code it is run against.  ccache (if present) keeps local rebuilds cheap; in a
fresh sandbox everything is compiled from scratch.
"""
import fcntl, hashlib, os, pathlib, shutil, subprocess, sys, time

REPO = pathlib.Path(os.environ.get("WF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD = VERIF / "build"
VENV_PY = "/opt/vp/venv/bin/python"
WARN = ("-Wno-error=array-bounds -Wno-error=stringop-overflow -Wno-error=stringop-overread "
        "-Wno-error=maybe-uninitialized -Wno-error=restrict -Wno-error=dangling-pointer "
        "-Wno-error=free-nonheap-object")

SKIP_DIRS = {".git", "_build", "__pycache__", "target", "node_modules", ".pytest_cache"}


class BuildFailed(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "cmake", "dependencies", "components"):
        root = REPO / top
        files = []
        if root.is_file():
            files = [root]
        else:
            for d, dirs, names in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
                files += [pathlib.Path(d) / n for n in names
                          if not n.endswith((".pyc", ".pyo"))]
        for f in sorted(files):
            h.update(str(f.relative_to(REPO)).encode())
            try:
                h.update(hashlib.sha256(f.read_bytes()).digest())
            except OSError:
                h.update(b"?")
    h.update(b"v1")
    return h.hexdigest()[:16]


def _env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VIRTUAL_ENV"))}
    env.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", CC="gcc", CXX="g++",
               PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu",
               CCACHE_DIR=str(BUILD / "ccache"), CCACHE_MAXSIZE="2G",
               CCACHE_BASEDIR=str(BUILD), CCACHE_NOHASHDIR="1")
    return env


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(map(str, cmd)) + "\n").encode())
        f.flush()
        return subprocess.call([str(c) for c in cmd], stdout=f, stderr=subprocess.STDOUT,
                               env=_env(), **kw)


def ensure(targets=("pywrenfold",)):
    """Build `targets` (ninja target names) from the current tree; return the build directory."""
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        bdir = BUILD / ("t-" + th)
        # keep only the most recently used trees
        old = sorted((p for p in BUILD.glob("t-*") if p != bdir), key=lambda p: p.stat().st_mtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        bdir.mkdir(exist_ok=True)
        log = bdir / "verif_build.log"
        if not (bdir / "build.ninja").exists():
            cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                   f"-DCMAKE_CXX_FLAGS=-O1 {WARN}",
                   "-DCMAKE_PROJECT_wrenfold_INCLUDE=/opt/vp/cmake/offline_deps.cmake",
                   "-DWF_NANOBIND_CMAKE_DIR=/opt/vp/nanobind-2.12.0/nanobind/cmake",
                   "-DPython_ROOT_DIR=/opt/vp/venv", f"-DPython_EXECUTABLE={VENV_PY}",
                   "-DPython_FIND_VIRTUALENV=ONLY", "-DWF_BUILD_TESTS=OFF",
                   "-DWF_BUILD_EXAMPLES=OFF", "-DWF_BUILD_BENCHMARKS=OFF",
                   "-DWF_BUILD_STUBS=OFF", "-DWF_BUILD_DOCS=OFF", "-Wno-deprecated"]
            if shutil.which("ccache"):
                cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
            if _run(cmd, log):
                raise BuildFailed(f"cmake failed, see {log}")
        for t in targets:
            stamp = bdir / f"stamp-{t}"
            if stamp.exists():
                continue
            if _run(["ninja", "-C", bdir, t], log):
                raise BuildFailed(f"ninja {t} failed, see {log}")
            stamp.touch()
        os.utime(bdir)
        return bdir


def compile_lib(bdir, src, flags=(), libs=(), out=None, cxx="g++"):
    """Compile harness/SRC against the tree's headers into a shared library inside bdir."""
    src = VERIF / "harness" / src
    out = bdir / (out or (src.stem + ".so"))
    h = hashlib.sha256(src.read_bytes() + repr((flags, libs, cxx)).encode()).hexdigest()
    stamp = bdir / (out.name + ".stamp")
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (stamp.exists() and stamp.read_text() == h and out.exists()):
            cmd = [cxx, "-std=c++17", "-fPIC", "-shared", "-DFMT_HEADER_ONLY=1",
                   f"-I{REPO}/components/core", f"-I{REPO}/components/runtime",
                   "-I/usr/include/eigen3", *flags, src, "-o", out, *libs]
            if _run(cmd, bdir / "verif_build.log"):
                raise BuildFailed(f"harness {src.name} failed to compile, see {bdir}/verif_build.log")
            stamp.write_text(h)
    return out


def python_paths(bdir):
    return [str(bdir / "components" / "wrapper"), str(REPO / "components" / "python")]


if __name__ == "__main__":
    t = time.time()
    print(ensure(tuple(sys.argv[1:]) or ("pywrenfold",)), f"{time.time()-t:.1f}s")
