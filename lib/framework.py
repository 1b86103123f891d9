"""Runs a check and turns its outcome into exit code, VIOLATION line and
evidence file."""
import hashlib, importlib, json, os, shutil, sys, time, traceback
import vp


class Violation(Exception):
    def __init__(self, what, data=None):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.models, self.assumptions = [], []
        self.distinct = set()
        self.known = []

    # -- the specification itself -----------------------------------------
    def model(self, module, cfg=None, timeout=600, **kw):
        """Exhaustively check a model.  A model that does not hold is an error
        of the check, never a verdict about the code."""
        r = vp.tlc(module, cfg, timeout=timeout, **kw)
        if not r.ok:
            raise vp.CheckError("model %s does not check: rc=%d\n%s" % (module, r.rc, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": module, "distinct_states": r.distinct, "transitions": r.generated,
                            "seconds": round(r.wall, 1)})
        return r

    # -- real executions ---------------------------------------------------
    def harness(self, exe, text, timeout=300, env=None, ok=(0, 3), args=(), what=None, cwd=None):
        """Run a harness.  A crash or hang of the code under test is a
        violation, but only if a second run repeats it."""
        for attempt in (1, 2):
            r = vp.run([exe, *args], input=text, timeout=timeout, env=env, cwd=cwd)
            if not r.timeout and r.rc in ok:
                return r
            vp.log("harness %s: rc=%s timeout=%s (attempt %d)\n%s" % (exe, r.rc, r.timeout, attempt, r.err[-1500:]))
        raise Violation(what or ("the code under test %s (exit status %s)" % ("hangs" if r.timeout else "crashes", r.rc)),
                        {"input": text, "stderr": r.err[-4000:], "stdout_tail": r.out[-2000:], "exe": exe})

    # -- recorded executions against the specification ---------------------
    def validate(self, module, lines, cfg=None, env=None, timeout=800, name="trace", heap="6g", workers="auto"):
        """Every line of `lines` is one recorded behaviour; TLC accepts all of
        them or names the first rejected one."""
        lines = [l for l in lines if l.strip()]
        if not lines:
            raise vp.CheckError("no traces for " + module)
        d = vp.scratch("%s-%s-%d" % (module, name, len(os.listdir(vp.scratch(".")))))
        f = os.path.join(d, "traces.ndjson")
        open(f, "w").write("\n".join(lines) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        for attempt in (1, 2):
            r = vp.tlc(module, cfg, env=e, timeout=timeout, workdir=d, heap=heap, workers=workers)
            if r.ok:
                self.traces += len(lines)
                self.states += r.distinct
                self.transitions += r.generated
                for l in lines:
                    self.distinct.add(hashlib.sha1(l.encode()).digest())
                if len(self.samples) < 3:
                    self.samples.append(lines[len(lines) // 2][:1500])
                return r
            if not r.violated:
                raise vp.CheckError("TLC failed on %s: rc=%d\n%s" % (module, r.rc, r.out[-4000:]))
            if attempt == 1:
                vp.log("TLC rejects a trace of %s; repeating" % module)
        import re
        m = re.findall(r"/\\ tr = (\d+)", r.out)
        p = re.findall(r"/\\ pos = (\d+)", r.out)
        tr = int(m[-1]) if m else 1
        line = lines[tr - 1]
        pos = int(p[-1]) if p else None
        try:
            ev = json.loads(line)
            at = ev["ev"][pos - 1] if pos and isinstance(ev.get("ev"), list) and pos <= len(ev["ev"]) else None
        except Exception:
            at = None
        why = re.findall(r"/\\ why = (.*)", r.out)
        raise Violation("recorded behaviour %d is not allowed by %s%s%s" % (
            tr, module, " at step %d: %s" % (pos, json.dumps(at)[:400]) if at is not None else "",
            " (%s)" % why[-1] if why else ""),
            {"module": module, "trace": line[:200000], "pos": pos, "tlc_tail": r.out[-6000:]})


def write_evidence(ctx, level, wall, violations, extra=None):
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces,
           "distinct_traces": len(ctx.distinct),
           "models": ctx.models, "samples": ctx.samples or ["(none)"]}
    cov.update(ctx.extra)
    cov.update(extra or {})
    d = {"property": ctx.pid, "tier": "quick" if ctx.quick else "thorough", "seed": ctx.seed,
         "level": level, "coverage": cov, "assumptions": ctx.assumptions, "wall_s": round(wall, 2),
         "violations": violations}
    os.makedirs(os.path.join(vp.ROOT, "evidence"), exist_ok=True)
    p = os.path.join(vp.ROOT, "evidence", ctx.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


def known_findings(pid):
    p = os.path.join(vp.ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    ctx.known = known_findings(pid)
    t0 = time.time()
    sd = os.path.join(vp.WORK, "%s-%d" % (pid, os.getpid()))
    vp.set_scratch(sd)
    mod = importlib.import_module("checks." + pid.lower())
    rc = 2
    try:
        try:
            mod.run(ctx)
            write_evidence(ctx, mod.LEVEL, time.time() - t0, 0)
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (pid, ctx.states, ctx.traces, time.time() - t0))
            rc = 0
        except Violation as v:
            p = os.path.join(vp.ROOT, "evidence", "replay-%s.json" % pid)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                json.dump({"property": pid, "what": v.what, "seed": seed, "tier": tier, "data": v.data}, f, indent=1)
            write_evidence(ctx, mod.LEVEL, time.time() - t0, 1, {"violation": v.what})
            print("%s: %s" % (pid, v.what))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            rc = 1
        except vp.CheckError as e:
            print("ERROR property=%s: %s" % (pid, e), file=sys.stderr)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(sd, ignore_errors=True)
    sys.stdout.flush()
    return rc
