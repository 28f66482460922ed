"""Compile an analysis translation unit against /repo's current headers to LLVM bitcode."""
import os
import subprocess
import tempfile
import shutil
import atexit

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
if not os.path.exists(CLANG):
    CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(OPT):
    OPT = "/usr/lib/llvm-18/bin/opt"

_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vp_sa_")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


BASE = ["-std=c++17", "-DCPP", "-fopenmp", "-include", "cstdint", "-w", "-ferror-limit=5"]


def flags(extra=()):
    return BASE + ["-I", os.path.join(HERE, "tu", "include"), "-I", REPO,
                   "-I", os.path.join(REPO, "GTgraph/sprng2.0-lite/include"),
                   "-I", os.path.join(REPO, "GraphBLAS/Include"), "-I", "/usr/include/suitesparse"] + list(extra)


def compile_ir(src, name=None, extra=(), passes="sroa,early-cse<memssa>,simplifycfg,early-cse<memssa>", exceptions=False):
    t = tmpdir()
    name = name or os.path.basename(src).rsplit(".", 1)[0]
    raw = os.path.join(t, name + ".raw.bc")
    out = os.path.join(t, name + ".bc")
    cmd = [CLANG] + flags(extra) + ["-g", "-O1", "-Xclang", "-disable-llvm-passes"]
    if not exceptions:
        cmd += ["-fno-exceptions"]
    cmd += ["-emit-llvm", "-c", src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    if passes:
        r = subprocess.run([OPT, "-passes=" + passes, raw, "-o", out], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        return out
    return raw
