#!/usr/bin/env python3
"""Content-hash driven build of /repo's sources and of the harnesses, into /verif/build.

Nothing is written to /repo. Objects are rebuilt when the content of any file they were
compiled from changed (never by timestamp)."""
import hashlib, json, os, subprocess, sys, concurrent.futures, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

DEFS = ["-D_GNU_SOURCE", "-DCONFIG_C3P_CBOR", "-DCONFIG_C3P_M2M_SUPPORT", "-DCONFIG_C3P_IMG_SUPPORT",
        "-DCONFIG_C3P_TRACE_ENABLED", "-DCONFIG_C3P_IDENTITY_SUPPORT"]
SAN = ["-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,vla-bound,bool,pointer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-g1", "-O1", "-pipe", "-w", "-fno-rtti", "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing", "-fno-lifetime-dse"]
CONFIGS = {
    # The configuration of the project's own build (32-bit, single precision constants), plus sanitizers.
    "m32": ["-m32", "-msse2", "-mfpmath=sse"],
    "m64": ["-m64"],
}
LIBFLAGS = ["-std=c++17", "-fno-exceptions", "-fsingle-precision-constant", "-fsanitize-coverage=trace-pc"]
HARFLAGS = ["-std=gnu++17", "-fsanitize-coverage=trace-pc", "-fsingle-precision-constant", "-fno-access-control", "-I", os.path.join(VERIF, "engine"), "-I", os.path.join(VERIF, "harness")]
ENGFLAGS = ["-std=gnu++17", "-O2", "-g1", "-w", "-I", os.path.join(VERIF, "engine")]

SKIP = {"M2MLink/LinkUtils/DataSharing.cpp", "Pipes/BufferAccepter/MapFileParser/MapFileParser.cpp"}

_hash_cache = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _hash_cache:
        with open(p, "rb") as f:
            _hash_cache[k] = hashlib.sha1(f.read()).hexdigest()
    return _hash_cache[k]

def parse_d(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    deps = []
    for w in t.split():
        w = os.path.realpath(w)
        # System headers do not change between runs.
        if w.startswith(REPO) or w.startswith(VERIF) or w.startswith(os.path.realpath(REPO)):
            deps.append(w)
    return sorted(set(deps))

def compile_one(src, obj, flags):
    """Returns (ok, changed, message)"""
    meta = obj + ".json"
    cmd = ["g++"] + flags + ["-MMD", "-MF", obj + ".d", "-c", "-o", obj, src]
    key = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(fhash(p) == h for p, h in m["deps"].items()):
                return True, False, ""
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        try:
            os.unlink(meta)
        except OSError:
            pass
        return False, True, "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    deps = {p: fhash(p) for p in parse_d(obj + ".d")}
    with open(meta + ".tmp", "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    return True, True, ""

def lib_sources():
    res = []
    for d, dirs, files in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        if rel == "Meta" or rel.startswith("Meta/"):
            dirs[:] = []
            continue
        for f in files:
            if f.endswith(".cpp"):
                r = os.path.normpath(os.path.join(rel, f))
                if r not in SKIP:
                    res.append(r)
    return sorted(res)

def build(harnesses, config="m32", quiet=True):
    """Builds the given harness binaries. Returns {harness: path}. Raises RuntimeError on failure."""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock-" + config), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        base = os.path.join(OUT, config)
        arch = CONFIGS[config]
        jobs = []   # (src, obj, flags, fatal)
        inc = ["-I", SRC]
        for r in lib_sources():
            jobs.append((os.path.join(SRC, r), os.path.join(base, "lib", r[:-4] + ".o"), arch + DEFS + SAN + COMMON + LIBFLAGS + inc, "lib"))
        jobs.append((os.path.join(VERIF, "engine/pbt.cpp"), os.path.join(base, "eng/pbt.o"), arch + ENGFLAGS, "eng"))
        jobs.append((os.path.join(VERIF, "engine/platform.cpp"), os.path.join(base, "eng/platform.o"), arch + DEFS + ENGFLAGS + ["-fno-rtti"] + inc, "eng"))
        for h in harnesses:
            jobs.append((os.path.join(VERIF, "harness", h + ".cpp"), os.path.join(base, "har", h + ".o"), arch + DEFS + SAN + COMMON + HARFLAGS + inc, "har"))
        bad = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {ex.submit(compile_one, s, o, f): (s, o, k) for s, o, f, k in jobs}
            for fu in concurrent.futures.as_completed(futs):
                ok, ch, msg = fu.result()
                s, o, k = futs[fu]
                if not ok:
                    bad.append((k, msg))
        if bad:
            raise RuntimeError("build failed:\n" + "\n".join(m for _, m in bad)[:12000])
        libobjs = [o for _, o, _, k in jobs if k == "lib"]
        lib = os.path.join(base, "libc3p.a")
        stamp = lib + ".list"
        libkey = hashlib.sha1("".join(fhash(o) for o in libobjs).encode()).hexdigest()
        want = libkey + "\n" + "\n".join(libobjs)
        if not os.path.exists(lib) or not os.path.exists(stamp) or open(stamp).read() != want:
            for p in (lib, stamp):
                if os.path.exists(p):
                    os.unlink(p)
            subprocess.run(["ar", "rcs", lib] + libobjs, check=True)
            open(stamp, "w").write(want)
        res = {}
        eng = [os.path.join(base, "eng/pbt.o"), os.path.join(base, "eng/platform.o")]
        for h in harnesses:
            o = os.path.join(base, "har", h + ".o")
            exe = os.path.join(base, h)
            key = fhash(lib) + libkey + "".join(fhash(x) for x in eng + [o])
            st = exe + ".key"
            if os.path.exists(exe) and os.path.exists(st) and open(st).read() == key:
                res[h] = exe
                continue
            cmd = ["g++"] + arch + SAN + ["-no-pie", "-o", exe + ".tmp", o] + eng + [lib, "-lm"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise RuntimeError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            os.replace(exe + ".tmp", exe)
            open(st, "w").write(key)
            res[h] = exe
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def all_harnesses():
    return sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))

if __name__ == "__main__":
    import time
    t0 = time.time()
    hs = sys.argv[1:] or all_harnesses()
    try:
        build(hs)
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    print("built %s in %.1f s" % (" ".join(hs), time.time() - t0))
