"""Infrastructure shared by all checks: building the code under test from
/repo's working tree, running harness binaries, running TLC, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
WORK = os.path.join(ROOT, ".work")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JAVA = os.path.join(ROOT, "java")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its job (exit 2, never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
BASEFLAGS = ["-std=c++11", "-DNDEBUG", "-w", "-Wno-error", "-include", "string",
             "-include", "functional", "-DEIGEN_MAX_CPP_VER=3", "-pthread",
             "-I", REPO + "/include", "-I", REPO + "/src", "-I", "/usr/include/eigen3",
             "-I", "/usr/include/docopt", "-I", HARNESS]
MODES = {
    "plain": ["-O2"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "addr": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}


def cmake_sources():
    """The library's sources as CMakeLists.txt lists them (plus any .cpp under
    src/ldaplusplus that a refactoring added and listed)."""
    txt = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"set\(SOURCES(.*?)\)", txt, re.S)
    if not m:
        raise CheckError("cannot find SOURCES in CMakeLists.txt")
    return [s for s in m.group(1).split() if s.endswith(".cpp")]


def app_sources(app):
    """Sources of a console application as CMakeLists.txt builds it: its own
    file and the ones all applications share."""
    txt = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"set\(APPLICATION_SOURCES(.*?)\)", txt, re.S)
    if not m:
        raise CheckError("cannot find APPLICATION_SOURCES in CMakeLists.txt")
    shared = [x for x in m.group(1).split() if x.endswith(".cpp")]
    return ["src/applications/%s.cpp" % app] + shared


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_hash_cache = {}


def _fhash(path):
    if path not in _hash_cache:
        try:
            _hash_cache[path] = _sha(path)
        except OSError:
            _hash_cache[path] = "missing"
    return _hash_cache[path]


_obj_locks, _obj_locks_lock = {}, threading.Lock()


def compile_obj(src, mode="plain", extra=()):
    with _obj_locks_lock:
        lock = _obj_locks.setdefault((src, mode, tuple(extra)), threading.Lock())
    with lock:
        return _compile_obj(src, mode, extra)


def _compile_obj(src, mode, extra):
    """Compile one source; cached by the contents of everything it includes."""
    cxx = "clang++" if mode == "tsan-clang" else "g++"
    flags = BASEFLAGS + MODES[mode] + list(extra)
    tag = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj, meta, dep = (os.path.join(d, tag + e) for e in (".o", ".json", ".d"))
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(_fhash(p) == h for p, h in deps.items()):
                return obj
        except Exception:
            pass
    tmp = obj + ".%d.tmp.o" % os.getpid()
    tdep = dep + ".%d" % os.getpid()
    p = subprocess.run([cxx, *flags, "-MMD", "-MF", tdep, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("cannot compile %s\n%s" % (src, p.stderr[-3000:]))
    txt = open(tdep).read().replace("\\\n", " ")
    deps = {f: _fhash(f) for f in txt.split(":", 1)[1].split()}
    os.replace(tmp, obj)
    os.unlink(tdep)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return obj


def build(name, sources, mode="plain", extra=(), libs=()):
    """Link an executable out of sources (absolute, or relative to /repo)."""
    srcs = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in sources]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, mode, extra), srcs))
    h = hashlib.sha256("\0".join([o + _sha(o) for o in objs] + list(libs) + [mode]).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (name, mode, h))
    if not os.path.exists(exe):
        p = subprocess.run(["g++", *MODES[mode], "-pthread", "-rdynamic", "-o", exe + ".tmp%d" % os.getpid(), *objs,
                            *libs, "-ldl"], capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("cannot link %s\n%s" % (name, p.stderr[-3000:]))
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def build_harness(name, mode="plain", extra_sources=(), extra=(), libs=()):
    return build(name, [os.path.join(HARNESS, name + ".cpp"), *extra_sources, *cmake_sources()],
                 mode, extra, libs)


def build_app(app, mode="plain"):
    return build(app, app_sources(app) + cmake_sources(), mode, libs=["-ldocopt"])


# ---------------------------------------------------------------- java / TLC
_java_lock = threading.Lock()


def java_classes():
    with _java_lock:
        src = os.path.join(JAVA, "Real64.java")
        d = os.path.join(BUILD, "java-" + _sha(src)[:16])
        if not os.path.exists(os.path.join(d, "Real64.class")):
            tmp = d + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            p = subprocess.run(["javac", "-cp", TLA, "-d", tmp, src], capture_output=True, text=True)
            if p.returncode != 0:
                raise CheckError("javac: " + p.stderr)
            if os.path.exists(d):
                shutil.rmtree(d)
            os.rename(tmp, d)
        return d


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = (rc in (10, 11, 12, 13) or "is violated" in out
                         or "Deadlock reached" in out or "Temporal properties were violated" in out)
        self.ok = rc == 0 and "Model checking completed. No error" in out or (rc == 0 and "Finished in" in out and not self.violated)

    def prints(self, key):
        """Values printed with PrintT(<<key, ...>>) as raw text."""
        return re.findall(r'<<"%s", (.*?)>>(?=\n|$)' % key, self.out, re.S)


def tlc(module, cfg=None, env=None, workers="auto", heap="6g", args=(), timeout=600, deadlock=False,
        workdir=None, dfs=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or a cfg text)."""
    wd = workdir or scratch("tlc-" + module)
    cfgfile = os.path.join(wd, module + ".cfg")
    if cfg is None:
        cfg = module
    if "\n" in cfg:
        open(cfgfile, "w").write(cfg)
    else:
        shutil.copy(os.path.join(SPEC, cfg + ".cfg"), cfgfile)
    meta = os.path.join(wd, "states-%d-%d" % (os.getpid(), time.time_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.impl.Tool.cdot=true",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + wd]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", java_classes() + ":" + TLA, "tlc2.TLC", "-config", cfgfile, "-workers", str(workers),
            "-metadir", meta, "-noGenerateSpecTE", *args]
    if not deadlock:
        cmd.append("-deadlock")
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=wd, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    open(os.path.join(wd, module + ".out"), "w").write(out)
    return TLCResult(rc, out, time.time() - t)


_scratch_root = None


def scratch(name):
    d = os.path.join(_scratch_root or WORK, name)
    os.makedirs(d, exist_ok=True)
    return d


def set_scratch(d):
    global _scratch_root
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    _scratch_root = d


# ---------------------------------------------------------------- running
class Run:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, input=None, timeout=120, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, input=input, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd,
                           errors="replace")
        return Run(p.returncode, p.stdout, p.stderr, False)
    except subprocess.TimeoutExpired as x:
        def s(b):
            return b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return Run(-1, s(x.stdout), s(x.stderr), True)
