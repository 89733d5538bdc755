"""Build the MiniZinc driver (and helper harnesses) from /repo's current working tree.

The tree is mirrored by *content* into /verif/.build/src (so unchanged files keep their
timestamps) and built there with ninja; /repo itself is never written to."""
import os, sys, subprocess, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MZV_REPO", "/repo")
BUILD = os.environ.get("MZV_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(BUILD, "src")
REL = os.path.join(BUILD, "rel")
ASAN = os.path.join(BUILD, "asan")
STDLIB = os.path.join(SRC, "share", "minizinc")
DRIVER = os.path.join(REL, "minizinc")


def _env():
    e = dict(os.environ)
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = "time_macros,include_file_mtime,include_file_ctime"
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env(), **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit("build step failed: " + " ".join(cmd[:6]))
    return p.stdout


def sync():
    os.makedirs(SRC, exist_ok=True)
    _run(["rsync", "-rlc", "--delete", "--exclude=/.git", "--exclude=/_build", "--exclude=/tests",
          "--exclude=/docs", "--exclude=/build", REPO + "/", SRC + "/"])


def _launcher():
    cc = shutil.which("ccache")
    return ["-DCMAKE_CXX_COMPILER_LAUNCHER=" + cc, "-DCMAKE_C_COMPILER_LAUNCHER=" + cc] if cc else []


def _cmake(d, flags, extra=()):
    if not os.path.exists(os.path.join(d, "build.ninja")):
        os.makedirs(d, exist_ok=True)
        _run(["cmake", "-S", SRC, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
              "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags] + _launcher() + list(extra))


def build_driver(targets=("minizinc",)):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()
        _cmake(REL, "-O1 -DNDEBUG")
        _run(["ninja", "-C", REL] + list(targets))
    return DRIVER


if __name__ == "__main__":
    build_driver()
