"""Builds liblm and the conformance harness from /repo's current working tree.

Objects are cached under /verif/build by a hash of everything that can influence
them (the source text, every header, the flags), never by timestamps, so a check
always judges the code as it is now.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
GUARD = "LM_VERIF_HOOKS"

DEFS = ["-DFMT_HEADER_ONLY=1", "-DGLM_FORCE_INTRINSICS", "-DLM_USE_CONFIG_RELEASE",
        "-DNDEBUG", "-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS"]
BASE = ["-std=gnu++17", "-O1", "-fPIC", "-fopenmp", "-w"] + DEFS
CXX = "/usr/bin/g++"
PYTHON = "/opt/vp/venv/bin/python"


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:32]


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def repo_headers():
    out = []
    for root in ("include", "pch", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if root == "src" and f.endswith(".cpp"):
                    continue
                out.append(os.path.join(d, f))
    return sorted(out)


def headers_hash():
    return _sha(*[x for p in repo_headers() for x in (os.path.relpath(p, REPO), _read(p))])


def lib_sources():
    """The translation units liblm is made of, as src/CMakeLists.txt lists them."""
    txt = _read(os.path.join(REPO, "src", "CMakeLists.txt")).decode(errors="replace")
    m = re.search(r"set\(_SOURCE_FILES(.*?)\)", txt, re.S)
    srcs = []
    if m:
        for s in re.findall(r'"\$\{_SOURCE_DIR\}/([^"]+\.cpp)"', m.group(1)):
            p = os.path.join(REPO, "src", s)
            if os.path.exists(p):
                srcs.append(p)
    if not srcs:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            srcs += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and f != "pylm.cpp"]
    return sorted(set(srcs))


def _version_header(dst):
    t = _read(os.path.join(REPO, "src", "versiondef.h.in")).decode()
    cm = _read(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r"project\(\s*\w+\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    v = m.groups() if m else ("3", "0", "0")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v):
        t = t.replace("@PROJECT_VERSION_%s@" % k, x)
    t = t.replace("@LM_VERSION_REVISION@", "verif").replace("@LM_BUILD_TIMESTAMP@", "verif")
    os.makedirs(dst, exist_ok=True)
    p = os.path.join(dst, "versiondef.h")
    if not os.path.exists(p) or _read(p).decode() != t:
        with open(p, "w") as f:
            f.write(t)
    return _sha(t)


def _pch(tag, flags, header, incs):
    """Precompiled header in a directory of its own; returns the include dir."""
    d = os.path.join(BUILD, "pch", tag)
    ok = os.path.join(d, "ok")
    if not os.path.exists(ok):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(header, os.path.join(d, "pch.h"))
        _run([CXX] + flags + incs + ["-x", "c++-header", os.path.join(d, "pch.h"),
              "-o", os.path.join(d, "pch.h.gch")], "precompiled header")
        open(ok, "w").close()
    return d


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


STATS = {"compiled": 0, "cached": 0}


def _compile_all(jobs):
    """jobs: (src, obj, cmd); compiles the missing ones in parallel."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    STATS["cached"] += len(jobs) - len(todo)
    STATS["compiled"] += len(todo)
    # longest first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        src, obj, cmd = j
        tmp = obj + ".tmp%d.o" % os.getpid()
        _run(cmd + ["-c", src, "-o", tmp], "compiling " + src)
        os.replace(tmp, obj)

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for _ in ex.map(one, todo):
            pass


def build(harness_units, extra_repo_sources=(), libs=(), plugins=()):
    """Builds liblm.so and the harness made of `harness_units` (file names in
    /verif/harness).  Returns (path of the harness, path of liblm.so, dict of plugins)."""
    t0 = time.time()
    with Lock():
        objdir = os.path.join(BUILD, "obj")
        os.makedirs(objdir, exist_ok=True)
        vh = _version_header(os.path.join(BUILD, "gen"))
        hh = headers_hash()
        incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "pch"),
                "-I" + os.path.join(BUILD, "gen")]
        flags = BASE + ["-DLM_EXPORTS", "-D" + GUARD]
        hflags = BASE + ["-D" + GUARD]
        pch_src = os.path.join(REPO, "pch", "pch.h")
        hpch_src = os.path.join(VERIF, "harness", "vt_pch.h")
        lib_pch = [None]
        lib_jobs, lib_objs = [], []
        for s in lib_sources():
            key = _sha("lib", " ".join(flags), hh, vh, os.path.relpath(s, REPO), _read(s))
            o = os.path.join(objdir, key + ".o")
            lib_objs.append(o)
            lib_jobs.append([s, o, None])
        hdr = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
        hhh = _sha(*[_read(p) for p in hdr])
        har_jobs, har_objs = [], []
        for u in harness_units:
            s = os.path.join(VERIF, "harness", u)
            key = _sha("har", " ".join(hflags), hh, hhh, u, _read(s))
            o = os.path.join(objdir, key + ".o")
            har_objs.append(o)
            har_jobs.append([s, o, None])
        plug_jobs, plug_objs = [], {}
        for name, src, pincs in plugins:
            key = _sha("plug", " ".join(hflags), hh, hhh, name, _read(src))
            o = os.path.join(objdir, key + ".o")
            plug_objs[name] = o
            plug_jobs.append([src, o, pincs])
        need_lib = any(not os.path.exists(j[1]) for j in lib_jobs)
        need_har = any(not os.path.exists(j[1]) for j in har_jobs + plug_jobs)
        with ThreadPoolExecutor(max_workers=2) as ex:
            f1 = ex.submit(_pch, "lib_" + _sha(" ".join(flags), _read(pch_src)), flags, pch_src, incs) if need_lib else None
            # the harness pch contains /repo's headers, so it depends on them
            f2 = ex.submit(_pch, "har_" + _sha(" ".join(hflags), hh, hhh), hflags, hpch_src, incs) if need_har else None
            lp = f1.result() if f1 else ""
            hp = f2.result() if f2 else ""
        for j in lib_jobs:
            j[2] = [CXX] + flags + ["-I" + lp] + incs
        for j in har_jobs:
            j[2] = [CXX] + hflags + ["-I" + hp] + incs + ["-I" + os.path.join(VERIF, "harness")]
        for j in plug_jobs:
            j[2] = [CXX] + hflags + ["-I" + hp] + incs + ["-I" + os.path.join(VERIF, "harness")] + ["-I" + i for i in j[2]]
        _compile_all(lib_jobs + har_jobs + plug_jobs)

        lk = _sha(*sorted(lib_objs))
        bdir = os.path.join(BUILD, "bin", lk)
        os.makedirs(bdir, exist_ok=True)
        lib = os.path.join(bdir, "liblm.so")
        if not os.path.exists(lib):
            _run([CXX, "-shared", "-o", lib + ".tmp", "-Wl,-soname,liblm.so"] + lib_objs +
                 ["-fopenmp", "-lstdc++fs", "-latomic", "-ldl", "-lpthread"], "linking liblm")
            os.replace(lib + ".tmp", lib)
        exe = os.path.join(bdir, "drive_" + _sha(*har_objs)[:12])
        if not os.path.exists(exe):
            _run([CXX, "-rdynamic", "-o", exe + ".tmp"] + har_objs +
                 ["-L" + bdir, "-Wl,-rpath,$ORIGIN", "-l:liblm.so", "-fopenmp", "-lstdc++fs",
                  "-latomic", "-ldl", "-lpthread"], "linking the harness")
            os.replace(exe + ".tmp", exe)
        plug = {}
        for name, o in plug_objs.items():
            p = os.path.join(bdir, name + "_" + os.path.basename(o)[:8] + ".so")
            if not os.path.exists(p):
                _run([CXX, "-shared", "-o", p + ".tmp", o, "-L" + bdir, "-Wl,-rpath,$ORIGIN",
                      "-l:liblm.so", "-fopenmp", "-lstdc++fs"], "linking plugin " + name)
                os.replace(p + ".tmp", p)
            plug[name] = p
        _trim(bdir)
    print("build: %d compiled, %d from cache, %.1f s" % (STATS["compiled"], STATS["cached"], time.time() - t0), flush=True)
    return exe, lib, plug


def build_py(bdir):
    """The Python module, next to the library it is linked with; returns the directories to import from."""
    t0 = time.time()
    inc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE).stdout.decode().split()
    with Lock():
        objdir = os.path.join(BUILD, "obj")
        src = os.path.join(REPO, "src", "pylm.cpp")
        incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "pch"), "-I" + os.path.join(BUILD, "gen"), "-I" + inc[0]]
        o = os.path.join(objdir, _sha("py", " ".join(BASE), headers_hash(), _read(src)) + ".o")
        _compile_all([(src, o, [CXX] + BASE + incs)])
        pdir = os.path.join(bdir, "py_" + os.path.basename(o)[:8])
        os.makedirs(pdir, exist_ok=True)
        p = os.path.join(pdir, "pylm" + inc[1])
        if not os.path.exists(p):
            _run([CXX, "-shared", "-o", p + ".tmp", o, "-L" + bdir, "-Wl,-rpath,$ORIGIN/..", "-l:liblm.so", "-fopenmp", "-lstdc++fs"], "linking pylm")
            os.replace(p + ".tmp", p)
    print("build: pylm, %.1f s" % (time.time() - t0), flush=True)
    return [pdir, REPO]


def _trim(keep):
    """Bounds the cache: drops the oldest link directories, objects and pchs."""
    dirs = sorted(glob.glob(os.path.join(BUILD, "bin", "*")), key=os.path.getmtime)
    for d in dirs[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)
    objs = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    total = sum(os.path.getsize(o) for o in objs)
    for o in objs:
        if total < 1500e6:
            break
        total -= os.path.getsize(o)
        os.remove(o)
    ps = sorted(glob.glob(os.path.join(BUILD, "pch", "*")), key=os.path.getmtime)
    for d in ps[:-4]:
        shutil.rmtree(d, ignore_errors=True)
