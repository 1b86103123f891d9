"""Running the console applications on scratch files (C10, C11, C12)."""
import json, math, os, re, random, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import vp
import npy

APPS = ("lda", "slda", "fslda")


def exes():
    with ThreadPoolExecutor(4) as ex:
        r = list(ex.map(vp.build_app, APPS))
    return dict(zip(APPS, r))


def fsops():
    src = os.path.join(vp.HARNESS, "fsops.c")
    so = os.path.join(vp.BUILD, "fsops-%s.so" % vp._sha(src)[:16])
    if not os.path.exists(so):
        os.makedirs(vp.BUILD, exist_ok=True)
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp%d" % os.getpid(), src, "-ldl", "-pthread"],
                           capture_output=True, text=True)
        if p.returncode:
            raise vp.CheckError("fsops: " + p.stderr)
        os.replace(so + ".tmp%d" % os.getpid(), so)
    return so


# ------------------------------------------------------------------ files
def array(descr, shape, values, fortran=True):
    """values in column-major order."""
    if not fortran and len(shape) == 2:
        r, c = shape
        values = [values[j * r + i] for i in range(r) for j in range(c)]
    fmt = {"i1": "b", "u1": "B", "i2": "h", "i4": "i", "i8": "q", "u4": "I", "f8": "d", "f4": "f"}[descr[1:]]
    body = struct.pack(("<" if descr[0] in "<|" else ">") + "%d%s" % (len(values), fmt), *values)
    return npy.header(descr, fortran, shape) + body


class Data:
    """Documents and labels; every word occurs, every class too."""
    def __init__(self, rnd, V=None, D=None, C=None):
        self.V, self.C = V or rnd.choice([4, 5, 7]), C or rnd.choice([2, 3])
        self.D = D or rnd.choice([5, 7, 9])
        X = [[rnd.choice([0, 0, 1, 1, 2, 5]) for _ in range(self.V)] for _ in range(self.D)]
        for v in range(self.V):
            X[v % self.D][v] += 1
        for x in X:
            if sum(x) == 0:
                x[rnd.randrange(self.V)] = 2
        self.X = X
        y = [d % self.C for d in range(self.D)]
        rnd.shuffle(y)
        self.y = y
        self.xd = rnd.choice(["<i4", "<i4", ">i4"])
        self.yd = rnd.choice(["<i4", "<i4", ">i4"])
        self.order = rnd.random() < 0.5

    def bytes(self):
        flat = [c for x in self.X for c in x]
        return array(self.xd, [self.V, self.D], flat, self.order) + array(self.yd, [self.D], self.y)

    def line(self):
        return "X=%dx%d:%s y=%s" % (self.V, self.D, ",".join(str(c) for x in self.X for c in x), ",".join(map(str, self.y)))


class Model:
    """alpha, beta (list of columns), eta (list of columns)."""
    def __init__(self, rnd, K, V, C, zero_eta=False):
        self.K, self.V, self.C = K, V, C
        self.alpha = [rnd.choice([0.1, 0.5, 1.0, 0.05 + rnd.random()]) for _ in range(K)]
        rows = [[rnd.random() + 0.01 for _ in range(V)] for _ in range(K)]
        rows = [[x / sum(r) for x in r] for r in rows]
        self.beta = [[rows[k][v] for k in range(K)] for v in range(V)]
        self.eta = [[0.0 if zero_eta else rnd.uniform(-1, 1) for _ in range(K)] for _ in range(C)]

    def flat(self):
        return self.alpha + [x for c in self.beta for x in c] + [x for c in self.eta for x in c]

    def bytes(self):
        return (array("<f8", [self.K], self.alpha) + array("<f8", [self.K, self.V], [x for c in self.beta for x in c])
                + array("<f8", [self.K, self.C], [x for c in self.eta for x in c]))

    def arg(self):
        return "model=%d,%d,%d:%s" % (self.K, self.V, self.C, b"".join(struct.pack(">d", x) for x in self.flat()).hex())


def parse(b):
    """The arrays of a file as (shape, column-major values as [hi, lo] halves),
    or None where the file is not a whole number of arrays of doubles."""
    out, p = [], 0
    while p < len(b):
        if b[p:p + 6] != b"\x93NUMPY" or p + 10 > len(b):
            return None
        if b[p + 6] == 1:
            hl, q = struct.unpack("<H", b[p + 8:p + 10])[0], p + 10
        else:
            hl, q = struct.unpack("<I", b[p + 8:p + 12])[0], p + 12
        h = b[q:q + hl].decode("latin1")
        if len(h) < hl:
            return None
        m = re.search(r"'shape'\s*:\s*\(([^)]*)\)", h)
        d = re.search(r"'descr'\s*:\s*'([^']*)'", h)
        f = re.search(r"'fortran_order'\s*:\s*(True|False)", h)
        if not (m and d and f) or d.group(1)[1:] != "f8":
            return None
        shape = [int(x) for x in m.group(1).split(",") if x.strip()]
        n = 1
        for s in shape:
            n *= s
        q += hl
        raw = b[q:q + 8 * n]
        if len(raw) < 8 * n:
            return None
        w = struct.unpack(("<" if d.group(1)[0] == "<" else ">") + "%dQ" % n, raw)
        v = [[_s(x >> 32), _s(x & 0xffffffff)] for x in w]
        if f.group(1) == "False" and len(shape) == 2:
            r, c = shape
            v = [v[i * c + j] for j in range(c) for i in range(r)]
        out.append((shape, v))
        p = q + 8 * n
    return out


def _s(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def columns(a):
    shape, v = a
    r = shape[0] if shape else 1
    c = 1
    for s in shape[1:]:
        c *= s
    return [v[j * r:(j + 1) * r] for j in range(c)]


def as_model(b):
    """Model of a file as the harness prints one, or None."""
    a = parse(b)
    if a is None or len(a) != 3:
        return None
    return {"alpha": a[0][1], "beta": columns(a[1]), "eta": columns(a[2])}


def num(x):
    b = struct.unpack("<Q", struct.pack("<d", x))[0]
    return [_s(b >> 32), _s(b & 0xffffffff)]


# ------------------------------------------------------------------ output
def said(text):
    """What a training run reported, line by line."""
    o = []
    for l in text.splitlines():
        m = re.match(r"\s*E-M Iteration\s+(\d+)\s*$", l)
        if m:
            o.append({"k": "iter", "n": int(m.group(1)), "x": num(0.0)})
            continue
        m = re.match(r"\s*(\d+)\s*$", l)
        if m:
            o.append({"k": "docs", "n": int(m.group(1)), "x": num(0.0)})
            continue
        m = re.match(r"\s*Per document likelihood:\s*(\S+)\s*$", l)
        if m:
            o.append({"k": "lik", "n": 0, "x": num(float(m.group(1)))})
            continue
        m = re.match(r"\s*log p\(y.*\):\s*(\S+)\s*$", l)
        if m:
            o.append({"k": "m", "n": 0, "x": num(float(m.group(1)))})
            continue
        o.append({"k": "other", "n": 0, "x": num(0.0)})
    return o


# ------------------------------------------------------------------ configurations
def config_line(cfg, cmd, models):
    """The scenario of harness/apps.cpp for a configuration of Options.tla."""
    e, m = cfg["e"], cfg["m"]
    s = "cmd=%s w=%s e=%s eit=%s etol=%s ex=%s" % ("transform" if cmd == "transform" else "train", cfg["workers"], e["kind"], e["it"], e["tol"], e["x"])
    if cmd == "transform":
        return s
    s += " m=%s it=%s K=%s rs=%s lik=%s topics=%s eta=%s" % (m["kind"], cfg["iterations"], cfg["topics"], cfg["state"], cfg["likelihood"],
                                                            cfg["init"]["topics"], cfg["init"]["eta"])
    if m["kind"] in ("sup", "fast"):
        s += " mit=%s mtol=%s L=%s" % (m["it"], m["tol"], m["L"])
    if m["kind"] == "online":
        s += " L=%s batch=%s momentum=%s rate=%s weight=%s" % (m["L"], m["batch"], m["momentum"], m["rate"], m["weight"])
    if cfg["init"]["from"] != "-":
        s += " " + models[cfg["init"]["from"]].arg()
    return s


def argv(inv, rnd, path):
    """Command line options of an invocation; path maps model names to files."""
    opts = inv["opts"] or {}
    a = []
    for o, v in opts.items():
        if o == "quiet":
            a.append([v])
        elif o == "initialize":
            a.append(["--initialize_" + v])
        elif o in ("continue", "continue_from_unsupervised"):
            a.append(["--%s=%s" % (o, path[v])])
        elif o == "regularization_penalty" and rnd.random() < 0.3:
            a.append(["-L", v])
        elif o == "supervised_weight" and rnd.random() < 0.3:
            a.append(["-C", v])
        elif rnd.random() < 0.3:
            a.append(["--" + o, v])
        else:
            a.append(["--%s=%s" % (o, v)])
    rnd.shuffle(a)
    return [x for y in a for x in y]


def pmap(f, items, jobs=None):
    with ThreadPoolExecutor(jobs or vp.JOBS) as ex:
        return list(ex.map(f, items))
