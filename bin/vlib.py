"""Build and run support for the checks in /verif (standard library only)."""
import hashlib, json, os, shlex, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
COMPAT = "/opt/vp/compat"

os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
os.environ.setdefault("OMPI_MCA_rmaps_base_oversubscribe", "1")
os.environ.setdefault("OMPI_MCA_btl", "self,vader")
os.environ.setdefault("OMPI_MCA_btl_vader_single_copy_mechanism", "none")
os.environ.setdefault("OMPI_MCA_mpi_yield_when_idle", "1")
os.environ.setdefault("OMPI_MCA_plm_rsh_agent", "/bin/false")
os.environ.setdefault("OMPI_MCA_hwloc_base_binding_policy", "none")
os.environ["HOME"] = os.environ.get("HOME", "/root")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

WARN = ["-w"]
BASE = ["-std=c++14", "-fopenmp", "-DNDEBUG"]
FDPS = ["-DPARTICLE_SIMULATOR_MPI_PARALLEL", "-DPARTICLE_SIMULATOR_THREAD_PARALLEL"]


def flags(kind, opt, san):
    inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"),
           "-isystem", "/usr/include/eigen3"]
    f = WARN + BASE + [opt]
    f += ["-include", COMPAT + "/trilinos13.hpp"] if kind in ("trilinos", "system") else ["-include", "cstdint"]
    if kind in ("trilinos", "system"):
        f += FDPS + ["-Dkiss_fft_scalar=double", "-DPBT_MPI", "-DPBT_TRILINOS"]
        inc += ["-isystem", "/usr/include/trilinos", "-isystem", "/usr/include/vtk-9.1"]
    if kind == "mpi":
        f += FDPS + ["-DPBT_MPI"]
    if san:
        f += ["-fsanitize=" + san, "-fno-omit-frame-pointer", "-g1"]
        if "undefined" in san:
            f += ["-fno-sanitize=vptr"]  # VTK casts between layout compatible array classes
        if "undefined" in san:
            f += ["-fno-sanitize-recover=all"]
    return f + inc


def libs(kind, san):
    l = ["-fopenmp"]
    if san:
        l += ["-fsanitize=" + san]
    if kind in ("trilinos", "system"):
        import glob
        l += ["-Wl,--as-needed", "-Wl,-rpath," + COMPAT, COMPAT + "/libtpetra_int_int.so"]
        l += sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libtrilinos_*.so"))
        l += ["/usr/lib/x86_64-linux-gnu/libvtk%s-9.1.so" % x for x in
              ("IOXML", "IOXMLParser", "CommonExecutionModel", "CommonDataModel", "CommonCore", "sys")]
    l += ["-lyaml-cpp"]
    return l


_hcache = {}


def filehash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if p.startswith("/usr/") or p.startswith("/opt/"):
        # system headers do not change under us: identity is enough
        return "sys%d.%d" % (st.st_mtime_ns, st.st_size)
    if k not in _hcache:
        with open(p, "rb") as f:
            _hcache[k] = hashlib.sha256(f.read()).hexdigest()
    return _hcache[k]


def parse_dep(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return sorted(set(os.path.normpath(x) for x in shlex.split(t)))


class BuildError(Exception):
    pass


SLOTS = threading.Semaphore(8)          # compilers at a time
LOCKS, LOCKS_LOCK = {}, threading.Lock()


def compile_one(src, kind, opt, san, cxx):
    with LOCKS_LOCK:
        lock = LOCKS.setdefault((src, kind, opt, san, cxx), threading.Lock())
    with lock, SLOTS:
        return compile_locked(src, kind, opt, san, cxx)


def compile_locked(src, kind, opt, san, cxx):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, OMPI_CXX=cxx)
    cmd = ["mpicxx"] + flags(kind, opt, san)
    key = hashlib.sha256(json.dumps([src, cmd, cxx]).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, os.path.basename(src).replace(".", "_") + "-" + key)
    obj, meta, dep = base + ".o", base + ".json", base + ".d"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            with open(meta) as f:
                m = json.load(f)
            if all(filehash(p) == h for p, h in m["deps"].items()):
                return obj, m["id"]
        except (ValueError, KeyError):
            pass
    t = time.time()
    tmp = base + ".%d.tmp.o" % os.getpid()
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s does not compile:\n%s" % (src, p.stdout[-3000:]))
    os.replace(tmp, obj)
    deps = {d: filehash(d) for d in parse_dep(dep)}
    os.unlink(dep)
    ident = hashlib.sha256(json.dumps([key, sorted(deps.items())]).encode()).hexdigest()
    with open(meta, "w") as f:
        json.dump({"deps": deps, "id": ident, "seconds": time.time() - t}, f)
    return obj, ident


KNOWN = {"Collision/CPSolver.cpp", "Util/Base64.cpp", "Util/PointDistribution.cpp", "Sylinder/Sylinder.cpp",
         "Sylinder/SylinderSystem.cpp", "Sylinder/SylinderConfig.cpp", "Trilinos/TpetraUtil.cpp",
         "Constraint/ConstraintCollector.cpp", "Constraint/ConstraintSolver.cpp", "Constraint/ConstraintOperator.cpp",
         "Constraint/BCQPSolver.cpp", "Boundary/Boundary.cpp"}


def unknown_sources():
    """library sources added to the repository after this machinery was written (code moved to a file of its own)"""
    r = []
    for d in ("Boundary", "Collision", "Constraint", "MPI", "Sylinder", "Trilinos", "Util"):
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            low = n.lower()
            if low.endswith((".cpp", ".cc", ".cxx")) and "test" not in low and "main" not in low and d + "/" + n not in KNOWN:
                r.append(d + "/" + n)
    return r


def build_all(wanted):
    """wanted: list of (harness, san, cxx); builds them side by side, returns the executables"""
    with ThreadPoolExecutor(5) as ex:
        return list(ex.map(lambda w: build(*w), wanted))


def build(h, san="", cxx="g++", opt=None):
    """h: dict(name, kind, sources, [opt], [needs]).  Returns the executable."""
    if "needs" in h:  # a second program that the harness runs
        os.environ[h["needs"][0]] = build(h["needs"][1])
    try:
        return build_from(h, h.get("sources", []), san, cxx, opt)
    except BuildError as e:
        if not str(e).startswith("link of "):
            raise
        # something is missing: perhaps the code now lives in another source file of the library
        more = [s for s in unknown_sources()] + [s for s in sorted(KNOWN) if s not in h.get("sources", [])]
        if h["kind"] in ("plain", "mpi"):
            more = [s for s in more if s.split("/")[0] in ("Boundary", "MPI", "Util") or s == "Sylinder/SylinderConfig.cpp"]
        extra = []
        for s in more:
            try:
                compile_one(os.path.join(REPO, s), h["kind"], opt or (h.get("sanopt") if san else None) or h.get("opt", "-O1"), san, cxx)
                extra.append(s)
            except BuildError:
                pass
        return build_from(h, h.get("sources", []) + extra, san, cxx, opt)


def build_from(h, sources, san, cxx, opt):
    kind = h["kind"]
    opt = opt or (h.get("sanopt") if san else None) or h.get("opt", "-O1")
    srcs = [os.path.join(VERIF, "harness", h["main"])] + [os.path.join(REPO, s) for s in sources]
    # the slowest translation units first
    srcs.sort(key=lambda s: (0 if s.endswith("SylinderSystem.cpp") else 1 if "/harness/" in s else 2))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s, kind, opt, san, cxx), srcs))
    key = hashlib.sha256(json.dumps([r[1] for r in res]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s" % (h["name"], key))
    if not os.path.exists(exe):
        env = dict(os.environ, OMPI_CXX=cxx)
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run(["mpicxx"] + [r[0] for r in res] + ["-o", tmp] + libs(kind, san), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("link of %s failed:\n%s" % (h["name"], p.stdout[-3000:]))
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------------------------------------- running
MAXCHOICE = 500000


def read_progress(path):
    try:
        with open(path, "rb") as f:
            magic, idx, running, beat, n = struct.unpack("<5Q", f.read(40))
            facet = f.read(64).split(b"\0")[0].decode()
            ch = list(struct.unpack("<%dQ" % n, f.read(8 * n)))
    except (OSError, struct.error):
        return None
    if magic != 0x50425450524F4731:
        return None
    return dict(index=idx, running=running, beat=beat, facet=facet, choices=ch)


class Run:
    pass


def execute(exe, facet, np, omp, args, scratch, hang, total, env_extra=None):
    """one process (group) of a harness; returns Run(kind=ok|crash|hang|timeout, result, progress, output)"""
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "out.json")
    prog = os.path.join(scratch, "progress")
    for p in (out, prog):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ, OMP_NUM_THREADS=str(omp), OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive",
               GOMP_SPINCOUNT="0", PBT_SCRATCH=scratch,
               TMPDIR=os.path.join(scratch, "tmp"), UBSAN_OPTIONS="print_stacktrace=1",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77")
    # races: happens-before analysis of the instrumented code and of OpenMP (archer), not of MPI's own threads
    env.update(TSAN_OPTIONS="ignore_noninstrumented_modules=1:halt_on_error=1:exitcode=66:history_size=4", PMIX_MCA_gds="hash",
               OMP_TOOL_LIBRARIES="/usr/lib/llvm-18/lib/libarcher.so")
    env.update(env_extra or {})
    os.makedirs(env["TMPDIR"], exist_ok=True)
    cmd = [exe, "--facet", facet, "--out", out, "--progress", prog] + args
    if np > 0:
        cmd = ["mpirun", "-np", str(np)] + cmd
    r = Run()
    log = os.path.join(scratch, "log")
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                             start_new_session=True)
        last, lastt, kind = None, time.time(), None
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(log) and os.path.getsize(log) > 200 << 20:  # keep the log bounded
                os.truncate(log, 0)
            now = time.time()
            pr = read_progress(prog)
            beat = (pr["beat"], pr["running"]) if pr else None
            if beat != last:
                last, lastt = beat, now
            if now - lastt > hang:
                kind = "hang"
            elif now - t0 > total:
                kind = "timeout"
            if kind:
                try:
                    os.killpg(p.pid, signal.SIGTERM)
                    p.wait(timeout=5)
                except (subprocess.TimeoutExpired, ProcessLookupError):
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
    r.seconds = time.time() - t0
    r.status = p.returncode
    r.progress = read_progress(prog)
    r.result = None
    try:
        with open(out) as f:
            r.result = json.load(f)
    except (OSError, ValueError):
        pass
    with open(log, "rb") as f:
        f.seek(max(0, os.path.getsize(log) - 20000))
        r.output = f.read().decode("utf8", "replace")
    if kind is None:
        kind = "ok" if r.result is not None else "crash"
    r.kind = kind
    return r
