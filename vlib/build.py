"""Builds of /repo's working tree used by the checks.

Two cmake build trees live under /verif/build (git-ignored):
  rel   the whole renderer, compiler and tools (partio replaced by /verif/stubs/partio)
  asan  the libraries only, with AddressSanitizer, for the in-process harnesses
Nothing is ever written below /repo.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = str(os.cpu_count() or 8)

CONFIG = {
    "rel":  {"flags": "-O2 -w"},
    "asan": {"flags": "-O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer"},
}

class BuildError(Exception):
    pass

def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_COMPILERCHECK"] = "content"
    e.pop("MAKEFLAGS", None)
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    return e

def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)

def _snapshot():
    """path -> (sha1, mtime) of every file of the working tree that a build could read."""
    snap = {}
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "node_modules")]
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.lstat(p)
                if os.path.islink(p):
                    h = "link:" + os.readlink(p)
                else:
                    with open(p, "rb") as fh:
                        h = hashlib.sha1(fh.read()).hexdigest()
            except OSError:
                continue
            snap[os.path.relpath(p, REPO)] = (h, st.st_mtime)
    return snap

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=_env(), errors="replace", **kw)
    return r.returncode, r.stdout

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()

def ensure(name, targets):
    """Bring `targets` of build tree `name` up to date with /repo; returns its directory."""
    bdir = os.path.join(BUILD, name)
    with Lock(name):
        t0 = time.time()
        stamp = os.path.join(bdir, ".verif_stamp.json")
        snap = _snapshot()
        if os.path.exists(os.path.join(bdir, "build.ninja")):
            # ninja goes by modification times.  A file whose content changed without its
            # mtime moving past the last build would be missed, so clean in that case.
            try:
                old = json.load(open(stamp))
            except Exception:
                old = None
            stale = old is None
            if old is not None:
                built_at, files = old["time"], old["files"]
                for p in set(files) | set(snap):
                    a, b = files.get(p), snap.get(p)
                    if a is None or b is None:
                        if a is not None or b[1] <= built_at:
                            stale = True; break
                    elif a[0] != b[0] and b[1] <= built_at:
                        stale = True; break
            if stale:
                log(name, "sources changed behind ninja's back: cleaning")
                _run(["ninja", "-C", bdir, "-t", "clean"])
                _run(["cmake", bdir])
        else:
            os.makedirs(bdir, exist_ok=True)
            fl = CONFIG[name]["flags"]
            cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-Wno-dev",
                   "-DCMAKE_BUILD_TYPE=None", "-DAQSIS_ENABLE_DOCS=OFF",
                   "-DAQSIS_ENABLE_TESTING=OFF",
                   "-DCMAKE_CXX_FLAGS=" + fl, "-DCMAKE_C_FLAGS=" + fl,
                   "-DCMAKE_PROJECT_aqsis_all_INCLUDE=" + os.path.join(VERIF, "cmake", "overrides.cmake")]
            if shutil.which("ccache"):
                cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache", "-DCMAKE_C_COMPILER_LAUNCHER=ccache"]
            rc, out = _run(cmd)
            if rc:
                shutil.rmtree(bdir, ignore_errors=True)
                raise BuildError("cmake failed\n" + out[-4000:])
        t1 = time.time()
        rc, out = _run(["ninja", "-C", bdir, "-j", JOBS] + list(targets))
        if rc:
            # a stale or damaged tree must never decide anything: retry once from clean
            log(name, "build failed, retrying from clean")
            _run(["ninja", "-C", bdir, "-t", "clean"])
            rc, out = _run(["ninja", "-C", bdir, "-j", JOBS] + list(targets))
        if rc:
            try: os.unlink(stamp)
            except OSError: pass
            raise BuildError("ninja failed\n" + out[-4000:])
        json.dump({"time": t1, "files": snap}, open(stamp + ".tmp", "w"))
        os.replace(stamp + ".tmp", stamp)
        log(name, "up to date in %.1f s" % (time.time() - t0))
    return bdir

REL_TOOLS = ["aqsis", "aqsl", "miqser", "teqser", "aqsltell", "hairgen", "file_dspy"]

def harness(src, libs, build="asan", extra_src=(), defs=(), incs=(), ldflags=(), pre=()):
    """Compile /verif/harness/<src> against the libraries of a build tree."""
    bdir = os.path.join(BUILD, build)
    odir = os.path.join(BUILD, "harness-" + build)
    with Lock("harness-" + src.replace("/", "_")):
        os.makedirs(odir, exist_ok=True)
        out = os.path.join(odir, os.path.splitext(os.path.basename(src))[0])
        fl = CONFIG[build]["flags"].replace("-O1", "-O1").split() + ["-std=gnu++17"]
        inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(bdir, "include"), "-I/usr/include/Imath", "-I/usr/include/OpenEXR"]
        inc += ["-I" + i.format(build=bdir, repo=REPO) for i in incs]
        objs, procs = [], []
        srcs = [os.path.join(VERIF, "harness", src)] + [s.format(build=bdir, repo=REPO) for s in extra_src]
        for s in srcs:
            o = os.path.join(odir, hashlib.sha1((s + out).encode()).hexdigest()[:12] + ".o")
            cmd = (["ccache"] if shutil.which("ccache") else []) + ["g++", "-c", s, "-o", o] + fl + inc + ["-D" + d for d in defs]
            for h in pre: cmd += ["-include", os.path.join(VERIF, "harness", h)]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env()), s))
            objs.append(o)
        for p, s in procs:
            o_, _ = p.communicate()
            if p.returncode:
                raise BuildError("harness compile failed: %s\n%s" % (s, o_[-6000:]))
        cmd = ["g++"] + fl + objs + ["-o", out + ".new"]
        dirs = set()
        for l in libs:
            so = find_lib(bdir, l)
            cmd.append(so); dirs.add(os.path.dirname(so))
        cmd += ["-Wl,-rpath," + d for d in sorted(dirs)] + ["-Wl,-rpath-link," + os.path.join(bdir, "libs")]
        cmd += list(ldflags) + ["-lboost_thread", "-lboost_iostreams", "-lboost_filesystem", "-lboost_system", "-lpthread", "-lz"]
        rc, o_ = _run(cmd)
        if rc:
            raise BuildError("harness link failed: %s\n%s" % (src, o_[-6000:]))
        os.replace(out + ".new", out)
    return out

def find_lib(bdir, name):
    for ext in (".so", ".a"):
        for root, dirs, files in os.walk(bdir):
            if "lib" + name + ext in files:
                return os.path.join(root, "lib" + name + ext)
    raise BuildError("no library " + name)

def plugin(src, build="asan"):
    """Compile a shared object of ours (a display driver), without sanitizers."""
    bdir = os.path.join(BUILD, build)
    odir = os.path.join(BUILD, "harness-" + build)
    with Lock("plugin-" + src):
        os.makedirs(odir, exist_ok=True)
        out = os.path.join(odir, os.path.splitext(src)[0] + ".so")
        cmd = ["g++", "-O1", "-w", "-shared", "-fPIC", os.path.join(VERIF, "harness", src), "-o", out + ".tmp",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(bdir, "include")]
        rc, o = _run(cmd)
        if rc: raise BuildError("plugin %s\n%s" % (src, o[-3000:]))
        os.replace(out + ".tmp", out)
    return out
