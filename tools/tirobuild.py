#!/usr/bin/env python3
"""Builds the verification host (harness/*.cpp) together with /repo's current working tree.

Own build: globs /repo/src/**/*.cpp (minus src/run), compiles them as small unity groups (a group that does not
compile as a unit is compiled file by file), with the TIRO_VERIF_HOOKS guard on and assertions enabled. Objects are
cached by content (flags + all headers + the group's sources), so nothing stale is ever used.
Output: /verif/.build/host-<hash>  (also returned by build()).
"""
import hashlib, os, subprocess, sys, shutil, fcntl, glob, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
CXX = "g++-12" if shutil.which("g++-12") else "g++"
GUARD = "TIRO_VERIF_HOOKS"
PRE = """#include <optional>
#include <type_traits>
#include <vector>
#include <string_view>
#include <string>
#include <utility>
#include <algorithm>
#include <new>
#include <memory>
#include <limits>
#include <cmath>
#include <variant>
#include <functional>
#include <exception>
#include <stdexcept>
#include <tuple>
#include <queue>
#include <bitset>
#include <cstring>
#include "absl/container/inlined_vector.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "fmt/format.h"
"""
ABSL = ("hash city bad_variant_access low_level_hash raw_hash_set bad_optional_access hashtablez_sampler "
        "exponential_biased synchronization stacktrace graphcycles_internal symbolize debugging_internal "
        "malloc_internal demangle_internal time strings int128 throw_delegate strings_internal base spinlock_wait "
        "raw_logging_internal log_severity civil_time time_zone cord").split()
class BuildError(Exception):
    pass
def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def read(p):
    with open(p, "rb") as f: return f.read()
def walk(root, exts):
    res = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts): res.append(os.path.join(d, f))
    return sorted(res)
def libs():
    r = ["-lfmt"]
    d = "/usr/lib/x86_64-linux-gnu"
    if not os.path.exists(d + "/libfmt.so"): r = [p for p in glob.glob(d + "/libfmt.so.*")][:1]
    for a in ABSL:
        c = sorted(glob.glob(f"{d}/libabsl_{a}.so*"))
        if c: r.append(c[0])
    r += sorted(set(p for p in glob.glob(f"{d}/libabsl_cordz_*.so*") if p.endswith(".so")))
    return r + ["-lpthread"]
def build(verbose=False, extra=(), name="host", sources=("host.cpp",)):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose, list(extra), name, sources)
def _build(verbose, extra, name, sources):
    t0 = time.time()
    gen = os.path.join(OUT, "gen"); os.makedirs(gen + "/tiro", exist_ok=True)
    obj = os.path.join(OUT, "obj"); os.makedirs(obj, exist_ok=True)
    ver = read(REPO + "/include/tiro/version.h.in").decode()
    for k, v in dict(PROJECT_VERSION="0.0.0", PROJECT_VERSION_MAJOR="0", PROJECT_VERSION_MINOR="0",
                     PROJECT_VERSION_PATCH="0", SOURCE_ID="verif").items():
        ver = ver.replace("@%s@" % k, v)
    vp = gen + "/tiro/version.h"
    if not os.path.exists(vp) or read(vp).decode() != ver:
        open(vp, "w").write(ver)
    inc = [f"-I{REPO}/src", f"-I{REPO}/include", f"-I{gen}", "-isystem", "/usr/include/utf8cpp"]
    base = ["-O1", "-DFMT_SHARED", "-DTIRO_BUILDING_LIBRARY", "-D" + GUARD, "-std=gnu++17", "-fno-rtti", "-fpermissive",
            "-w", "-fno-strict-aliasing"] + extra
    if "-O0" in extra: base.remove("-O1")
    headers = [p for r in ("src", "include") for p in walk(f"{REPO}/{r}", (".hpp", ".h", ".ipp", ".inc", ".def", ".in"))]
    hh = sha(CXX, " ".join(base), ver, PRE, *[p.encode() + b"\0" + read(p) for p in headers])
    # precompiled header of system headers
    ph = sha(CXX, " ".join(base), PRE)
    pre = os.path.join(OUT, f"pre-{ph}.hpp")
    if not os.path.exists(pre + ".gch"):
        open(pre, "w").write(PRE)
        r = sh([CXX, *base, "-isystem", "/usr/include/utf8cpp", "-x", "c++-header", pre, "-o", pre + ".gch.tmp"])
        if r.returncode: raise BuildError(r.stdout)
        os.rename(pre + ".gch.tmp", pre + ".gch")
    srcs = [p for p in walk(f"{REPO}/src", (".cpp",)) if not p.startswith(f"{REPO}/src/run/")]
    bydir = {}
    for p in srcs: bydir.setdefault(os.path.dirname(p), []).append(p)
    # no unity for files with file local name clashes is decided dynamically by the fallback below
    groups = []
    for d in sorted(bydir):
        fs = bydir[d]; n = len(fs) if d.endswith("/compiler/ir") else max(1, (len(fs) + 4) // 5); step = -(-len(fs) // n)
        for i in range(0, len(fs), step): groups.append(fs[i:i + step])
    def compile_one(files, tag):
        key = sha(hh, *[p.encode() + b"\0" + read(p) for p in files])
        o = os.path.join(obj, key + ".o")
        if os.path.exists(o): return [o]
        if len(files) == 1: src = files[0]
        else:
            src = os.path.join(obj, key + ".unity.cpp")
            open(src, "w").write("".join(f'#include "{p}"\n' for p in files))
        r = sh([CXX, *base, *inc, "-include", pre, "-c", src, "-o", o + ".tmp"])
        if r.returncode == 0:
            os.rename(o + ".tmp", o); return [o]
        if len(files) > 1:
            if verbose: print("unity fallback:", files[0], r.stdout[:600], file=sys.stderr)
            return [("split", f) for f in files]
        raise BuildError(f"{files[0]}:\n{r.stdout[:4000]}")
    hs = [os.path.join(HERE, "harness", s) for s in sources]
    hhead = sha(*[read(p) for p in walk(os.path.join(HERE, "harness"), (".hpp", ".h"))])
    base_h = [b for b in base if b != "-DTIRO_BUILDING_LIBRARY"]
    def compile_h(p):
        key = sha(hh, hhead, p.encode() + read(p), "harness")
        o = os.path.join(obj, key + ".o")
        if not os.path.exists(o):
            r = sh([CXX, *base, *inc, f"-I{HERE}/harness", "-include", pre, "-c", p, "-o", o + ".tmp"])
            if r.returncode: raise BuildError(f"{p}:\n{r.stdout[:4000]}")
            os.rename(o + ".tmp", o)
        return [o]
    # biggest groups first
    groups.sort(key=lambda g: -sum(os.path.getsize(p) for p in g))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [ex.submit(compile_one, g, i) for i, g in enumerate(groups)] + [ex.submit(compile_h, p) for p in hs]
        objs = [o for f in futs for o in f.result()]
        futs = [ex.submit(compile_one, [o[1]], 0) if isinstance(o, tuple) else o for o in objs]
        objs = [f if isinstance(f, str) else f.result()[0] for f in futs]
    key = sha(*objs)
    exe = os.path.join(OUT, f"{name}-{key}")
    if not os.path.exists(exe):
        r = sh([CXX, *base, *objs, "-o", exe + ".tmp", *libs()])
        if r.returncode: raise BuildError(r.stdout[:4000])
        os.rename(exe + ".tmp", exe)
    # keep the cache small: drop objects not used for a while
    now = time.time()
    for p in objs: os.utime(p)
    os.utime(exe)
    for p in glob.glob(obj + "/*") + glob.glob(OUT + "/host-*"):
        try:
            if now - os.path.getmtime(p) > 3 * 3600: os.unlink(p)
        except OSError: pass
    if verbose: print(f"built {exe} in {time.time() - t0:.1f}s", file=sys.stderr)
    return exe
if __name__ == "__main__":
    try: print(build(verbose=True, extra=sys.argv[1:]))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
