"""Schedules and traces of the worker pool (C01, C02, C03, C04)."""
import json, os, random, re
import vp
from framework import Violation


def exe(mode="plain"):
    if mode == "tsan":
        # the instrumented build needs only the pool and what it uses; fall back
        # to everything if a refactoring made it use more
        try:
            need = [s for s in vp.cmake_sources() if os.path.basename(s) in ("LDA.cpp", "Document.cpp", "Events.cpp")]
            return vp.build("pool", [os.path.join(vp.HARNESS, f) for f in ("pool.cpp", "sched.cpp")] + need, mode,
                            ["-DNO_INTERPOSE"])
        except vp.CheckError:
            pass
    return vp.build_harness("pool", mode, extra_sources=[os.path.join(vp.HARNESS, "sched.cpp")],
                            extra=["-DNO_INTERPOSE"] if mode == "tsan" else [])


def models(ctx):
    ctx.model("EpochProtocol")
    base = open(os.path.join(vp.SPEC, "WorkerPool.cfg")).read()
    ctx.model("WorkerPoolMC", base)
    if not ctx.quick:
        ctx.model("WorkerPoolMC", base.replace("W = 2", "W = 3"), timeout=1200)
        ctx.model("WorkerPoolMC3", base.replace("DocEvents = FALSE", "DocEvents = TRUE"), timeout=2400)


def tlc_schedules(ctx, num):
    """Behaviours of WorkerPool.tla found by TLC's simulator, as schedules."""
    base = open(os.path.join(vp.SPEC, "WorkerPool.cfg")).read()
    out = []
    for (w, mod, ops) in ((2, "WorkerPoolMC", "p:2,t:2"), (3, "WorkerPoolMC3", "p:3,p:2")):
        cfg = base.replace("W = 2", "W = %d" % w).replace("Record = FALSE", "Record = TRUE")
        cfg = re.sub(r"SPECIFICATION.*", "SPECIFICATION Spec", cfg)
        cfg = re.sub(r"(?s)INVARIANTS.*", "INVARIANT Emit\n", cfg)
        r = vp.tlc(mod, cfg, args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(ctx.seed)],
                   workers=1, timeout=300)
        sch = re.findall(r'<<\s*"SCHED",\s*"\[(.*?)\]"\s*>>', r.out)
        if not sch:
            raise vp.CheckError("simulation printed no schedules\n" + r.out[-2000:])
        seen = set()
        for s in sch:
            if s not in seen:
                seen.add(s)
                out.append((w, ops, s))
    return out


def scenario_lines(ctx, only=None):
    rnd = random.Random(ctx.seed * 1000003 + 17)
    L = []
    k = [0]

    def add(**kw):
        k[0] += 1
        kw.setdefault("l", 1)
        L.append("id=s%d " % k[0] + " ".join("%s=%s" % x for x in kw.items()))
    q = ctx.quick
    for (w, ops, s) in tlc_schedules(ctx, 60 if q else 600):
        add(w=w, it=1, ops=ops, pol="guided", guide=s, seed=rnd.randrange(10**6), me=1 if w == 3 else 0)
    # systematic exploration with a preemption bound
    m = 2500 if q else 40000
    dfs = ((1, "t:2,p:1", 1, 2), (2, "t:2", 1, 2), (2, "t:3", 1, 2), (3, "t:2", 1, 2), (2, "t:1,t:2", 1, 2),
           (2, "p:1,t:2", 1, 2), (3, "t:0,t:1", 1, 2)) if only == "t" else ((1, "p:2,t:1", 1, 2), (2, "p:2", 1, 2), (2, "P:3", 1, 1), (2, "t:2", 1, 2), (3, "f:2", 1, 2),
                             (2, "f:1", 2, 2), (3, "p:1,t:2", 1, 1), (2, "p:0,t:0,p:1", 1, 2))
    for (w, ops, it, pb) in dfs:
        add(w=w, it=it, ops=ops, pol="dfs", pb=pb + (0 if q else 1), max=m)
    # random and priority schedules, with spurious wake-ups, longer histories, moved objects
    kinds = "tttttpP" if only == "t" else "fFpPt"
    for j in range(60 if q else 800):
        nops = rnd.choice([1, 2, 2, 3, 4])
        ops = []
        for _ in range(nops):
            c = rnd.choice(kinds)
            n = rnd.choice([0, 1, 2, 3, 4, 5, 8, 13])
            if c in "FP" and n == 0:
                n = 1
            ops.append("%s:%d" % (c, n))
        add(w=rnd.choice([1, 1, 2, 2, 3, 4, 6]), it=rnd.choice([0, 1, 1, 2, 3, 5]), ops=",".join(ops),
            pol=rnd.choice(["random", "random", "pct", "nonpre"]), seed=rnd.randrange(10**6), spur=rnd.choice([0, 1]),
            me=rnd.choice([0, 1, 2]), be=rnd.choice([0, 1, 2]), mv=rnd.choice([0, 0, 1, 2]), l=rnd.choice([1, 3]),
            sc=rnd.choice("ddf"))
    # documents that look alike, are empty or unlabelled; corpora of a class of the user's
    if only != "t":
        for j in range(24 if q else 300):
            ops = ["%s:%d" % (rnd.choice("cFPc"), rnd.choice([1, 2, 3, 5, 8])) for _ in range(rnd.choice([1, 2, 3]))]
            add(w=rnd.choice([1, 1, 2, 3, 6]), it=rnd.choice([1, 2, 3]), ops=",".join(ops), alike=1 + j % 3,
                pol=rnd.choice(["random", "pct", "nonpre", "free"]), seed=rnd.randrange(10**6), me=rnd.choice([0, 1]), mv=rnd.choice([0, 2]))
        for j in range(6):
            add(w=1 + j, it=1, ops="c:4,p:2,c:0,c:7,P:3", pol="random", seed=rnd.randrange(10**6))
    # a model whose matrices the maximization steps leave alone; another object used in between or meanwhile
    for j in range(12 if q else 120):
        ops = ["%s:%d" % (rnd.choice("ttpPx" if only == "t" else "fFpPtx"), rnd.choice([1, 2, 3, 5])) for _ in range(rnd.choice([2, 3, 5]))]
        add(w=rnd.choice([1, 2, 3]), it=rnd.choice([2, 3, 5]), ops=",".join(ops), still=j % 2, mv=rnd.choice([0, 0, 2]),
            pol=rnd.choice(["random", "pct", "nonpre"]), seed=rnd.randrange(10**6), me=rnd.choice([0, 1]))
    for j in range(2 if q else 10):
        add(w=2 + j % 3, it=3, ops="f:20,t:30,P:20,x:5,t:3" if only != "t" else "t:30,x:5,p:3,t:20,t:9", other=1, pol="free")
    # real parallelism
    for j in range(4 if q else 30):
        add(w=rnd.choice([2, 4, 8, 16]), it=2, ops="f:%d,t:%d,P:%d" % (rnd.randrange(1, 60), rnd.randrange(1, 80), rnd.randrange(1, 60)),
            pol="free", me=3, mv=rnd.choice([0, 1]), l=rnd.choice([1, 3]))
    return L


def record(ctx, lines, timeout=300):
    """Run the scenarios (in parallel processes) and return the trace lines."""
    from concurrent.futures import ThreadPoolExecutor
    e = exe()
    parts = [[] for _ in range(vp.JOBS)]
    for i, l in enumerate(lines):
        parts[i % vp.JOBS].append(l)
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(lambda p: ctx.harness(e, "\n".join(p) + "\n", timeout=timeout), parts))
    out, dfs = [], []
    for r in rs:
        out += r.out.splitlines()
        dfs += re.findall(r"DFS .*", r.err)
    ctx.extra["systematic_exploration"] = dfs
    return out


def validate(ctx, traces, focus):
    base = open(os.path.join(vp.SPEC, "PoolTrace.cfg")).read().replace("@FOCUS@", ", ".join('"%s"' % f for f in focus))
    groups = {}
    for t in traces:
        ev = json.loads(t)["ev"]
        nl = ev[0][3]
        groups.setdefault(nl, []).append(t)
    for nl in sorted(groups):
        ctx.validate("PoolTrace", groups[nl], base.replace("@NL@", str(nl)), name="nl%d" % nl)


def big(ctx, focus):
    """Corpora too large for event-by-event validation: totals per call."""
    e = exe()
    sizes = [(8, 2, "f:70000"), (3, 2, "p:33000,t:66000,t:3"), (16, 2, "P:5000,p:1,f:4097"),
             # many passes, many calls, many workers
             (1, 33000, "F:1"), (2, 300, "f:7,p:3"), (3, 1, ",".join("pPtf"[i % 4] + ":2" for i in range(280))),
             (100, 2, "f:40,t:150,P:260"), (270, 1, "p:300,t:5")]
    if not ctx.quick:
        sizes += [(8, 2, "f:300000"), (5, 2, "p:131073,p:65537"), (1, 140000, "f:1,t:2"), (1000, 2, "f:900,t:1100")]
    text = "".join("id=b%d w=%d it=%d l=1 ops=%s pol=free big=1\n" % (i, w, it, ops) for i, (w, it, ops) in enumerate(sizes))
    r = ctx.harness(e, text, timeout=300)
    cfg = "SPECIFICATION Spec\nCONSTANT Focus = {%s}\nINVARIANT Accepted\n" % ", ".join('"%s"' % f for f in focus)
    ctx.validate("PoolSummary", r.out.splitlines(), cfg, name="big")


def race_run(ctx, e, text, what):
    """Run under ThreadSanitizer, without the recorder (which would order the
    threads): a data race is an event the protocol does not have."""
    env = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 report_thread_leaks=0"}
    cmd = [e]
    r = vp.run(cmd, input=text, timeout=300, env=env)
    if "unexpected memory mapping" in r.err or "FATAL: ThreadSanitizer" in r.err:
        cmd = ["setarch", "-R", e]
        r = vp.run(cmd, input=text, timeout=300, env=env)
    if "FATAL: ThreadSanitizer" in r.err or "unexpected memory mapping" in r.err:
        ctx.extra["race_observer"] = "not available here"
        return
    if "WARNING: ThreadSanitizer: data race" in r.err:
        for again in range(3):
            r2 = vp.run(cmd, input=text, timeout=300, env=env)
            if "WARNING: ThreadSanitizer: data race" in r2.err:
                raise Violation("unsynchronised access to shared state of %s (data race)" % what,
                                {"input": text, "report": r2.err[:6000]})
    elif r.timeout or r.rc not in (0,):
        ctx.harness(e, text, timeout=300, env=env, ok=(0,))
    ctx.extra["race_observer"] = "no data race in %d scenarios" % text.count("\n")


def races(ctx):
    text = "".join("id=r%d w=%d it=3 l=1 ops=%s pol=free norec=1 reps=%d me=2\n" % (i, w, ops, 2 if ctx.quick else 20)
                   for i, (w, ops) in enumerate([(4, "f:200,t:100,P:50"), (8, "p:300,t:10"), (2, "F:40,t:40")]))
    race_run(ctx, exe("tsan"), text, "the worker pool")
