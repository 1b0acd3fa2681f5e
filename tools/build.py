#!/usr/bin/env python3
"""Content-addressed incremental build of one harness from /repo's current working tree."""
import hashlib, os, subprocess, sys, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEXYSIM_REPO", "/repo")
OUT = os.environ.get("LEXYSIM_BUILD", os.path.join(ROOT, "build"))
CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
        "-fno-optimize-sibling-calls", "-DLEXY_HAS_UNICODE_DATABASE=1", "-Wno-everything",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "sim")]
COV = ["-fsanitize-coverage=trace-pc-guard"]
# Grammars instantiate a lot of templates: no optimisation, address sanitizer only.
GRAM = ["-O0", "-fno-sanitize=undefined"]
WRAPS = ["open", "open64", "openat", "lseek", "lseek64", "read", "pread", "pread64", "readv", "mmap", "mmap64",
         "munmap", "close", "fstat", "fstat64", "stat", "stat64", "fopen", "fopen64", "fclose", "fdopen"]

def fhash(p, cache={}):
    try:
        st = os.stat(p); key = (p, st.st_mtime_ns, st.st_size)
        if key not in cache:
            cache[key] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return cache[key]
    except OSError:
        return "missing"

def sig(cmd, deps):
    h = hashlib.sha256(" ".join(cmd).encode())
    for d in sorted(deps):
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()

def parse_d(path):
    try:
        t = open(path).read().replace("\\\n", " ")
    except OSError:
        return None
    return t.split(":", 1)[1].split()

def compile_one(src, obj, flags):
    cmd = [CXX] + flags + ["-c", src, "-o", obj]
    dep, sigf = obj + ".d", obj + ".sig"
    deps = parse_d(dep)
    if deps is not None and os.path.exists(obj) and os.path.exists(sigf) and open(sigf).read() == sig(cmd, deps):
        return 0, "", False
    for f in (obj, sigf):
        if os.path.exists(f): os.unlink(f)
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        open(sigf, "w").write(sig(cmd, parse_d(dep)))
    return r.returncode, r.stdout, True

def build(name, sources, extra=(), cov=COV, variant="", repo_sources=("src/input/file.cpp",), link=()):
    """Returns (binary path or None, log)."""
    d = os.path.join(OUT, name + variant)
    os.makedirs(d, exist_ok=True)
    jobs = [(os.path.join(ROOT, "sim", "sim.cpp"), BASE + list(extra)), (os.path.join(ROOT, "sim", "simio.cpp"), BASE + list(extra))]
    for s in sources:
        jobs.append((os.path.join(ROOT, "sim", s), BASE + list(cov) + (GRAM if s.startswith("g") else []) + list(extra)))
    for s in repo_sources:
        jobs.append((os.path.join(REPO, s), BASE + list(cov) + list(extra)))
    objs, log, changed = [], "", False
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("LEXYSIM_JOBS", os.cpu_count() or 8))) as ex:
        fs = []
        for src, fl in jobs:
            obj = os.path.join(d, ("g_" if "/g/" in src or "/g11/" in src else "") + os.path.basename(src).replace(".cpp", ".o"))
            objs.append(obj)
            fs.append(ex.submit(compile_one, src, obj, fl))
        for f in fs:
            rc, out, ch = f.result()
            changed |= ch
            if rc != 0:
                return None, out
    binp = os.path.join(d, name)
    cmd = [CXX] + BASE + list(extra) + objs + ["-o", binp, "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAPS] + list(link)
    sigf = binp + ".sig"
    s = sig(cmd, objs)
    if os.path.exists(binp) and os.path.exists(sigf) and open(sigf).read() == s:
        return binp, log
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    open(sigf, "w").write(s)
    return binp, log
