"""Runs the extractor (tool/mmx.cpp) over translation units of /repo.

Every run parses /repo's current sources.  A per-TU result is reused only if
the content hash of every file of /repo and /verif that the TU included, of the
tool and of the flags is unchanged.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM_REPO", "/repo")
TOOL_SRC = os.path.join(VERIF, "tool", "mmx.cpp")
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(VERIF, ".cache")
TOOL = os.path.join(BUILD, "mmx")

FLAGS = [
    "-std=c++20", "-O1", "-w",
    "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-DBOOST_CHRONO_NO_LIB",
    "-DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL", "-DBOOST_PROGRAM_OPTIONS_NO_LIB",
    "-DBOOST_SERIALIZATION_NO_LIB", "-DBOOST_THREAD_NO_LIB", "-DBOOST_THREAD_VERSION=5",
    "-DEXPLICIT_TEMPLATES", "-DHAS_STRING_VIEW=1", "-DMM2_ENABLE_RPMALLOC", "-DONLY_C_LOCALE=1",
    "-D_USE_MATH_DEFINES",
    "-I" + os.path.join(VERIF, "stubs"),
    "-I" + REPO + "/src/app/include",
    "-I" + REPO + "/src/library/include",
    "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
    "-include", os.path.join(VERIF, "stubs", "prelude.h"),
]


class AnalysisError(Exception):
    """the analysis itself is broken (never a verdict)"""


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    want = sha(TOOL_SRC)
    stamp = TOOL + ".sha"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return TOOL
    cfg = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True)
    inc = [x for x in cfg.stdout.split() if x.startswith(("-I", "-D"))] or ["-I/usr/lib/llvm-18/include"]
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", *inc, TOOL_SRC, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr[-4000:])
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(want)
    return TOOL


_sha_cache = {}
_lock = threading.Lock()


def fsha(path):
    with _lock:
        if path in _sha_cache:
            return _sha_cache[path]
    try:
        v = sha(path)
    except OSError:
        v = "missing"
    with _lock:
        _sha_cache[path] = v
    return v


def base_key(tu):
    h = hashlib.sha256()
    h.update(fsha(TOOL_SRC).encode())
    h.update("\0".join(FLAGS).encode())
    for s in ("csv.hpp", "rpmalloc.h", "prelude.h", "gpx/Parser.h"):
        h.update(fsha(os.path.join(VERIF, "stubs", s)).encode())
    h.update(tu.encode())
    return h.hexdigest()[:24]


def tu_path(tu):
    if tu.startswith("verif:"):
        return os.path.join(VERIF, "tus", tu[6:])
    return os.path.join(REPO, "src", tu)


def extract_one(tu):
    """returns the path of the extraction result of one TU"""
    path = tu_path(tu)
    if not os.path.exists(path):
        raise AnalysisError("translation unit %s does not exist" % path)
    os.makedirs(CACHE, exist_ok=True)
    key = base_key(tu)
    out = os.path.join(CACHE, key + ".mmx")
    dep = os.path.join(CACHE, key + ".dep")
    if os.path.exists(out) and os.path.exists(dep):
        try:
            deps = json.load(open(dep))
            if all(fsha(p) == h for p, h in deps.items()):
                return out
        except (ValueError, OSError):
            pass
    tmp = out + ".%d.tmp" % os.getpid()
    roots = REPO + "/src/," + VERIF + "/tus/"
    r = subprocess.run([TOOL, tmp, path, roots, "--", *FLAGS], capture_output=True, text=True)
    if r.returncode:
        try:
            os.unlink(tmp)
        except OSError:
            pass
        raise AnalysisError("cannot analyse %s:\n%s" % (path, r.stderr[-3000:]))
    with open(tmp, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        # the last line is the table line
        f.seek(0)
        last = None
        for last in f:
            pass
    z = json.loads(last.split(b"\t", 7)[7])
    deps = {path: fsha(path)}
    for n in z["files"]:
        p = REPO + "/src/" + n if not n.startswith("/") else n
        deps[p] = fsha(p)
    os.replace(tmp, out)
    with open(dep + ".tmp", "w") as f:
        json.dump(deps, f)
    os.replace(dep + ".tmp", dep)
    return out


def extract(tus, jobs=None):
    build_tool()
    jobs = jobs or min(8, os.cpu_count() or 4)
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(extract_one, t): t for t in tus}
        for f in cf.as_completed(futs):
            res[futs[f]] = f.result()
    return [res[t] for t in tus]


def all_tus():
    out = []
    for base in ("library/src", "app/src"):
        for d, _, fs in os.walk(os.path.join(REPO, "src", base)):
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    out.append("main.cpp")
    return sorted(out)


if __name__ == "__main__":
    try:
        if "--tool" in sys.argv:
            build_tool()
            sys.exit(0)
        extract(sys.argv[1:] or all_tus())
    except AnalysisError as e:
        print(e)
        sys.exit(2)
