"""Shared build and run machinery: compiles the engine, /repo's current sources (to bitcode, and natively for replays) and harnesses."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.path.join(VERIF, ".cache")
CLANG = "/usr/bin/clang++-18"
LLVMBIN = "/usr/lib/llvm-18/bin/"
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def read(p):
    with open(p, "rb") as f:
        return f.read()

def hsh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dn, fn in os.walk(root):
        dn.sort()
        for f in sorted(fn):
            if os.path.splitext(f)[1] in exts or exts is None:
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(read(p))
    return h.hexdigest()[:24]

class BuildError(Exception):
    pass

_lockf = None
def lock():
    global _lockf
    os.makedirs(CACHE, exist_ok=True)
    _lockf = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(_lockf, fcntl.LOCK_EX)
def unlock():
    global _lockf
    if _lockf:
        _lockf.close(); _lockf = None

def engine():
    """path of the symbolic executor, building it when needed"""
    key = hsh(*[read(p) for p in sorted(glob.glob(os.path.join(VERIF, "symx", "*")))])
    d = os.path.join(CACHE, "eng-" + key)
    exe = os.path.join(d, "symx")
    if not os.path.exists(exe):
        r = sh(["bash", os.path.join(VERIF, "symx", "build.sh"), d])
        if r.returncode != 0 or not os.path.exists(exe):
            raise BuildError("engine build failed: " + r.stderr[-3000:])
    return exe

INC = ["-I" + SRC, "-I" + os.path.join(REPO, "third_party"), "-I" + os.path.join(VERIF, "rt")]
COMMON = ["-std=c++17", "-fno-exceptions", "-DNDEBUG", "-w", "-ffp-contract=off", "-include", os.path.join(VERIF, "rt", "preamble.h")]
BCFLAGS = COMMON + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing", "-fno-pic", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                    "-isystem", os.path.join(VERIF, "rt", "fake"), "-emit-llvm", "-Xclang", "-no-opaque-pointers" ][:-2]
NATFLAGS = COMMON + ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC"]

# replays map files into exact-size heap blocks, so that an access past the end of a mapping is seen
NATSRC = NATFLAGS + ["-Dmmap=replay_mmap", "-Dmunmap=replay_munmap"]

def use_cuda():
    """from here on build the library with its CUDA back end: kernels become functions, and launches calls that run them thread by thread (rt/cuda)"""
    global SRC, INC
    key = hsh(tree_hash(SRC, {".h", ".inc", ".hpp", ".cuh", ".cpp", ".cu"}), read(__file__))
    root = os.path.join(CACHE, "cuda-" + key)
    if not os.path.exists(root):
        tmp = root + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for d, dn, fn in os.walk(SRC):
            o = os.path.join(tmp, os.path.relpath(d, SRC)); os.makedirs(o, exist_ok=True)
            for f in fn:
                t = open(os.path.join(d, f), errors="replace").read()
                if "<<<" in t: t = rewrite_launches(t)
                if f.endswith((".cu", ".cuh")): t = t.replace("->dataPtr<", "->template dataPtr<")
                open(os.path.join(o, f + ".cpp" if f.endswith(".cu") else f), "w").write(t)
        os.rename(tmp, root)
    SRC = root
    INC = ["-I" + SRC, "-I" + os.path.join(VERIF, "rt", "cuda"), "-I" + os.path.join(REPO, "third_party"), "-I" + os.path.join(VERIF, "rt")]
    for fl in (BCFLAGS, NATFLAGS, NATSRC):
        fl += ["-DUSE_CUDA", "-Dthread_local="]

def rewrite_launches(t):
    """NAME<T...> <<<grid, block, ...>>>(args)  ->  ::cuemu::launch(::cuemu::Cfg(grid, block, ...), [](auto... a_) { NAME<T...>(a_...); }, args)"""
    out = ""
    while True:
        i = t.find("<<<")
        if i < 0: return out + t
        j = t.index(">>>", i)
        cfg = t[i + 3:j]
        k = i
        while t[k - 1] in " \n\t\\": k -= 1
        e = k
        if t[k - 1] == ">":
            depth = 0
            while True:
                k -= 1
                if t[k] == ">": depth += 1
                elif t[k] == "<":
                    depth -= 1
                    if depth == 0: break
        while t[k - 1].isalnum() or t[k - 1] in "_:": k -= 1
        name = t[k:e]
        m = re.compile(r"[\s\\]*\(").match(t, j + 3)
        out += t[:k] + "::cuemu::launch(::cuemu::Cfg(" + cfg + "), [](auto... a_) { " + name + "(a_...); }, "
        t = t[m.end():]

def repo_sources(extra=()):
    r = []
    for d, dn, fn in os.walk(SRC):
        for f in fn:
            if f.endswith(".cpp"):
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if rel.startswith("Distributed") and rel not in extra:
                    continue
                r.append(rel)
    return sorted(r)

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        _hdr = hsh(tree_hash(SRC, {".h", ".inc", ".hpp", ".cuh"}), tree_hash(os.path.join(REPO, "third_party"), {".h", ".hpp"}), tree_hash(os.path.join(VERIF, "rt"), {".h", ""}),
                   tree_hash(os.path.join(VERIF, "harness"), {".h"}))
    return _hdr

def compile_many(jobs):
    """jobs: list of (src, out, flags); returns errors"""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    def one(j):
        src, out, flags = j
        tmp = out + ".tmp%d" % os.getpid()
        r = sh([CLANG] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            return "%s: %s" % (src, r.stderr[-2000:])
        os.replace(tmp, out)
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, sorted(todo, key=lambda j: -os.path.getsize(j[0]))) if e]
    return errs

def obj_path(src, flags, ext):
    text = read(src)
    # harnesses may include sources of the repository
    inc = [read(p) for i in sorted(set(re.findall(rb'#\s*include "([^"]+\.cpp)"', text))) for p in [os.path.join(SRC, i.decode())] if os.path.exists(p)]
    return os.path.join(CACHE, "obj", os.path.basename(src).replace(".cpp", "") + "-" + hsh(header_hash(), src, text, " ".join(flags), *inc) + ext)

def bitcode(harness_files, defines=(), extra_src=(), more_jobs=None):
    """link /repo's sources, the runtime model and the harnesses into one module"""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    jobs = []
    for s in repo_sources(extra_src):
        p = os.path.join(SRC, s)
        jobs.append((p, obj_path(p, BCFLAGS, ".bc"), BCFLAGS + INC))
    p = os.path.join(VERIF, "rt", "cxxrt.cpp")
    jobs.append((p, obj_path(p, BCFLAGS, ".bc"), BCFLAGS + INC + ["-fno-builtin"]))
    if "-DUSE_CUDA" in BCFLAGS:
        p = os.path.join(VERIF, "rt", "cuda", "emu.cpp")
        jobs.append((p, obj_path(p, BCFLAGS, ".bc"), BCFLAGS + INC))
    fl = BCFLAGS + ["-D" + d for d in defines] + ["-fno-access-control"]
    for h in harness_files:
        p = os.path.join(VERIF, "harness", h)
        jobs.append((p, obj_path(p, fl, ".bc"), fl + INC + ["-I" + os.path.join(VERIF, "harness")]))
    errs = compile_many(jobs)
    if errs:
        raise BuildError("\n".join(errs))
    outs = [j[1] for j in jobs]
    o = os.path.join(CACHE, "all-" + hsh(*outs) + ".bc")
    if not os.path.exists(o):
        r = sh([LLVMBIN + "llvm-link"] + outs + ["-o", o + ".tmp"])
        if r.returncode != 0:
            raise BuildError("llvm-link: " + r.stderr[-2000:])
        os.replace(o + ".tmp", o)
    return o

def native(harness_files, defines=(), extra_src=()):
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    jobs = []
    for s in repo_sources(extra_src):
        p = os.path.join(SRC, s)
        jobs.append((p, obj_path(p, NATSRC, ".o"), NATSRC + INC))
    p = os.path.join(VERIF, "rt", "replay.cpp")
    fl0 = [f for f in NATFLAGS if f not in ("-fno-exceptions", "-Dthread_local=", "-DUSE_CUDA")]
    jobs.append((p, obj_path(p, fl0, ".o"), fl0 + INC))
    if "-DUSE_CUDA" in NATFLAGS:
        p = os.path.join(VERIF, "rt", "cuda", "emu.cpp")
        jobs.append((p, obj_path(p, NATFLAGS, ".o"), NATFLAGS + INC))
    fl = NATFLAGS + ["-D" + d for d in defines] + ["-fno-access-control"]
    for h in harness_files:
        p = os.path.join(VERIF, "harness", h)
        jobs.append((p, obj_path(p, fl, ".o"), fl + INC + ["-I" + os.path.join(VERIF, "harness")]))
    errs = compile_many(jobs)
    if errs:
        raise BuildError("\n".join(errs))
    outs = [j[1] for j in jobs]
    o = os.path.join(CACHE, "replay-" + hsh(*outs))
    if not os.path.exists(o):
        r = sh([CLANG, "-fsanitize=address", "-rdynamic"] + outs + ["-o", o + ".tmp", "-lpthread", "-ldl"])
        if r.returncode != 0:
            raise BuildError("link: " + r.stderr[-2000:])
        os.replace(o + ".tmp", o)
    return o

def replay(exe, harness, inputs, scratch):
    """run the harness natively on recorded inputs; returns (verdict, text): violation / ok / diverged"""
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch, exist_ok=True)
    f = os.path.join(scratch, "inputs.txt")
    with open(f, "w") as o:
        for i in inputs:
            o.write("%s %d %d %s\n" % (i["name"].replace(" ", "_"), i["w"], i["real"], i["hex"]))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_stack_use_after_return=0:exitcode=11:allocator_may_return_null=1")
    try:
        r = sh([exe, harness, f, scratch], env=env, timeout=90)
    except subprocess.TimeoutExpired:
        return "diverged", "replay timed out"
    t = (r.stdout[-1500:] + r.stderr[-3000:])
    if r.returncode in (10, 11):
        return "violation", t
    if r.returncode == 0:
        return "ok", t
    return "diverged", "rc=%d %s" % (r.returncode, t)
