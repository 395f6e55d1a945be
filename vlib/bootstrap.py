"""Offline bootstrap: unpack hypothesis, build /repo's native code outside /repo.

Nothing here writes in /repo or /opt/vp.  The build directory is keyed by the
content of every native source file, so it always belongs to the current tree.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "py_gnome")
DEPS = os.path.join(VERIF, ".deps")
BUILD = os.path.join(VERIF, ".build")
WHEELS = "/opt/veriftools/wheels"
PY = "/opt/venv/bin/python"


class BootstrapError(Exception):
    pass


def ensure_deps():
    marker = os.path.join(DEPS, ".done")
    if os.path.exists(marker):
        return
    os.makedirs(DEPS, exist_ok=True)
    for stem in ("hypothesis-", "sortedcontainers-"):
        cands = sorted(f for f in os.listdir(WHEELS)
                       if f.startswith(stem) and f.endswith(".whl")
                       and ("cp312" in f or "none-any" in f))
        if not cands:
            raise BootstrapError("no wheel for " + stem)
        with zipfile.ZipFile(os.path.join(WHEELS, cands[0])) as z:
            z.extractall(DEPS)
    open(marker, "w").close()


def native_sources():
    out = []
    for base, _dirs, files in os.walk(SRC):
        rel = os.path.relpath(base, SRC)
        top = rel.split(os.sep)[0]
        if top not in (".", "lib_gnome", "gnome", "cmake"):
            continue
        for f in files:
            if (top in ("lib_gnome", "cmake") or f == "CMakeLists.txt"
                    or f.endswith((".pyx", ".pxd", ".pxi", ".h", ".c", ".cpp", ".hpp"))):
                if rel == "." and f != "CMakeLists.txt":
                    continue
                out.append(os.path.join(base, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in native_sources():
        h.update(os.path.relpath(p, SRC).encode() + b"\0")
        with open(p, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    h.update(SRC.encode())
    return h.hexdigest()[:20]


def ensure_build():
    """returns (install prefix, seconds spent, was cached)"""
    import time
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    d = os.path.join(BUILD, key)
    inst = os.path.join(d, "inst")
    done = os.path.join(d, ".done")
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            os.utime(done)
            return inst, time.time() - t0, True
        # keep only the few most recent builds
        old = sorted((os.path.getmtime(os.path.join(BUILD, x)), x)
                     for x in os.listdir(BUILD) if len(x) == 20)
        for _t, x in old[:-6]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        bld = os.path.join(d, "bld")
        os.makedirs(bld)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "PYTHONPATH"):
            env.pop(k, None)
        conf = ["cmake", "-S", SRC, "-B", bld, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=Release", "-DSKBUILD_PROJECT_NAME=gnome",
                "-DPython_EXECUTABLE=" + PY, "-DCMAKE_INSTALL_PREFIX=" + inst]
        if shutil.which("ccache", path=env["PATH"]):
            env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
            env["CCACHE_MAXSIZE"] = "400M"
            env["CCACHE_BASEDIR"] = d
            env["CCACHE_NOHASHDIR"] = "1"
            conf += ["-DCMAKE_C_COMPILER_LAUNCHER=ccache",
                     "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
        for cmd in (conf, ["cmake", "--build", bld], ["cmake", "--install", bld]):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BootstrapError("native build failed:\n" + r.stdout[-4000:])
        shutil.rmtree(bld, ignore_errors=True)
        open(done, "w").close()
    return inst, time.time() - t0, False


def child_env(inst, scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               TMPDIR=scratch, HOME=scratch,
               MPLCONFIGDIR=os.path.join(BUILD, "mpl"),
               VERIF_INST=inst, VERIF_SCRATCH=scratch,
               PYTHONPATH=os.pathsep.join([VERIF, os.path.join(VERIF, "standin"), DEPS, SRC]))
    return env


if __name__ == "__main__":
    try:
        ensure_deps()
        print("build:", ensure_build())
    except BootstrapError as e:
        print(e)
        sys.exit(2)
