"""Histories of real training runs over a directory of model files (C10, C11)."""
import json, os, random, re, shutil
import vp, apps
from framework import Violation
from estep import parallel


class Case:
    """One application with fixed options, data, and start."""
    def __init__(self, n, app, rnd, root, T):
        self.n, self.T = n, T
        self.online = app == "online"
        self.app = app = "fslda" if self.online else app
        self.data = apps.Data(rnd, V=rnd.choice([3, 4, 5]), D=4 if self.online else rnd.choice([4, 6]))
        self.path = os.path.join(root, "data%d" % n)
        open(self.path, "wb").write(self.data.bytes())
        self.init = rnd.choice(["seeded", "random"])
        self.K = rnd.choice([2, 3])
        self.rs = rnd.randrange(50)
        self.w = rnd.choice([1, 1, 1, 2]) if app == "lda" else 1
        o = {"topics": self.K, "random_state": self.rs, "e_step_iterations": rnd.choice([1, 3, 6]), "e_step_tolerance": "1e-5", "workers": self.w}
        self.line = "id=%d cmd=train w=1 eit=%s etol=1e-5 K=%d rs=%d lik=0 topics=%s it=%d %s" % (
            n, o["e_step_iterations"], self.K, self.rs, self.init, T, self.data.line())
        if app == "lda":
            self.line += " e=classic m=classic eta=zeros1"
        elif app == "slda":
            o.update({"m_step_iterations": 6, "m_step_tolerance": "1e-5", "fixed_point_iterations": 2})
            self.line += " e=sup ex=2 m=sup mit=6 mtol=1e-5 L=0.05 eta=zeros"
        elif self.online:           # mini-batches that end with a pass: no schedule matters
            b = rnd.choice([4, 8])
            o.update({"batch_size": b, "learning_rate": "0.1", "momentum": "0.5", "beta_weight": "0.6", "supervised_weight": "0.5"})
            self.line += " e=fast ex=0.5 m=online L=0.05 batch=%d momentum=0.5 rate=0.1 weight=0.6 eta=zeros" % b
        else:
            o.update({"m_step_iterations": 6, "m_step_tolerance": "1e-5", "supervised_weight": "0.5"})
            self.line += " e=fast ex=0.5 m=fast mit=6 mtol=1e-5 L=0.05 eta=zeros"
        self.opts = ["--%s=%s" % kv for kv in o.items()] + ["--initialize_" + self.init]


def settled(ctx, make, names):
    """Cases (and their references) whose result is determined up to rounding: tolerances that
    are just met would make the last digit matter."""
    cases = [make(i, a) for i, a in enumerate(list(names) * 2)]
    ref, loose = {}, set()
    for l in parallel(ctx, vp.build_harness("apps"), [c.line + " spread=1" for c in cases], timeout=600, what="training with the library crashes"):
        o = json.loads(l)
        ref[int(o["id"])] = [o["initial"]] + o["epochs"]
        if o["loose"]:
            loose.add(int(o["id"]))
    n = len(cases) // 2
    keep = [cases[i] if i not in loose else cases[n + i] for i in range(n) if i not in loose or n + i not in loose]
    ctx.extra["cases left out"] = n - len(keep)
    return keep or cases[:n], ref


def references(ctx, cases):
    ref = {}
    for l in parallel(ctx, vp.build_harness("apps"), [c.line for c in cases], timeout=600, what="training with the library crashes"):
        o = json.loads(l)
        ref[int(o["id"])] = [o["initial"]] + o["epochs"]
    return ref


NAME = re.compile(r"^model([12])(?:_(\d+))?$")


def file_of(name):
    """The file of Store a name stands for, or None for any other file."""
    m = NAME.match(name)
    if not m:
        return None
    if m.group(2) is None:
        return int(m.group(1)), 0
    k = int(m.group(2))
    return (int(m.group(1)), k) if "%03d" % k == m.group(2) and k > 0 else None


def name_of(o, k):
    return "model%d" % o if k == 0 else "model%d_%03d" % (o, k)


def events(log, rc):
    ev, killed = [], False
    for l in log.splitlines():
        w = l.split()
        if w[0] == "iter":
            ev.append({"op": "iter", "o": 0, "k": int(w[1])})
        elif w[0] == "killed":
            killed = True
        elif w[0] in ("open", "unlink", "close"):
            f = file_of(w[1])
            if f:
                ev.append({"op": "close" if w[0] == "close" else "open", "o": f[0], "k": f[1]})
        elif w[0] == "rename":
            f, g = file_of(w[1]), file_of(w[2])
            if f:
                ev.append({"op": "open", "o": f[0], "k": f[1]})
            if g:
                ev += [{"op": "open", "o": g[0], "k": g[1]}, {"op": "close", "o": g[0], "k": g[1]}]
    ev.append({"op": "killed" if killed else "end" if rc == 0 else "failed", "o": 0, "k": 0})
    return ev


def listing(d):
    out = []
    for f in sorted(os.listdir(d)):
        k = file_of(f)
        if k:
            m = apps.as_model(open(os.path.join(d, f), "rb").read())
            out.append({"o": k[0], "k": k[1], "is": "whole" if m else "torn", "m": m or {"alpha": [], "beta": [], "eta": []}})
    return out


def one_run(case, exe, so, d, h, log, kill=None, killon=None, half=0, quiet=False):
    """Run once in directory d; h: from, its, every, out."""
    a = [exe[case.app], "online_train" if case.online else "train", *case.opts, "--iterations=%d" % h["its"]]
    if h["every"]:
        a.append("--snapshot_every=%d" % h["every"])
    if quiet:
        a.append("-q")
    if h["from"] != [0, 0]:
        a.append("--continue=" + os.path.join(d, name_of(*h["from"])))
    a += [case.path, os.path.join(d, name_of(h["out"], 0))]
    if os.path.exists(log):
        os.unlink(log)
    env = {"LD_PRELOAD": so, "FSOPS_DIR": d, "FSOPS_LOG": log, "FSOPS_HALF": str(half)}
    if kill:
        env["FSOPS_KILL"] = str(kill)
    if killon:
        env["FSOPS_KILLON"] = killon
    r = vp.run(a, timeout=120, env=env)
    text = open(log).read() if os.path.exists(log) else ""
    ev = events(text, -1 if r.timeout else r.rc)
    heard = int(any(e["op"] == "iter" for e in ev) or (ev[-1]["op"] == "killed" and not quiet))
    return {"from": h["from"], "its": h["its"], "every": h["every"], "out": h["out"], "heard": heard, "ev": ev, "dir": listing(d)}, len([l for l in text.splitlines() if l != "killed"])


def replay(case, exe, so, root, h, tag, ref, quiet=False, half=0):
    """A whole history of Store in a fresh directory."""
    d = os.path.join(root, tag)
    os.makedirs(d)
    runs = []
    for x in h["runs"]:
        if x["from"] != [0, 0]:
            p = os.path.join(d, name_of(*x["from"]))
            if not os.path.exists(p) or apps.as_model(open(p, "rb").read()) is None:
                break           # reported where it was lost
        on = None
        if x["end"] == "crash":
            on = "iter %d" % x["k"] if x["at"] == "iter" else "%s %s" % (x["at"], name_of(x["out"], x["k"]))
        t, _ = one_run(case, exe, so, d, x, os.path.join(root, tag + ".log"), killon=on, half=half, quiet=quiet)
        runs.append(t)
    shutil.rmtree(d, ignore_errors=True)
    return json.dumps({"id": tag, "app": case.app, "ref": ref, "runs": runs})


def histories(r):
    return [json.loads(s.replace('\\"', '"')) for s in sorted(set(re.findall(r'<<"HIST",\s*"(.*?)">>', r.out)))]
