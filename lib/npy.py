"""npy files: the inputs the reader is given (C08, C09)."""
import json, os, random, struct
import vp

TYPES = {"i1": 1, "i2": 2, "i4": 4, "i8": 8, "u1": 1, "u2": 2, "u4": 4, "u8": 8, "f4": 4, "f8": 8}


def header(descr, fortran, shape, align=16, extra=0, style="numpy", version=(1, 0)):
    if style == "numpy":        # "(3, 4)", "(3,)", trailing comma in the dictionary
        sh = "(%s)" % (", ".join(map(str, shape)) + ("," if len(shape) == 1 else ""))
        d = "{'descr': '%s', 'fortran_order': %s, 'shape': %s, }" % (descr, fortran, sh)
    else:                       # as this library writes it
        d = "{'descr': '%s', 'fortran_order': %s, 'shape': (%s)}" % (descr, fortran, "".join("%d, " % x for x in shape))
    h = d.encode()
    pre = 10 if version[0] == 1 else 12
    h += b" " * ((-(len(h) + 1 + pre)) % align + extra * align) + b"\n"
    hl = struct.pack("<H", len(h)) if version[0] == 1 else struct.pack("<I", len(h))
    return b"\x93NUMPY" + bytes(version) + hl + h


def array(rnd, t, shape, big, fortran, **kw):
    n = 1
    for s in shape:
        n *= s
    z = TYPES[t]
    mark = "|" if z == 1 else (">" if big else "<")
    return header(mark + t, fortran, shape, **kw) + bytes(rnd.randrange(256) for _ in range(n * z))


def some_shape(rnd):
    if rnd.random() < 0.08:     # as many dimensions as numpy allows
        nd = rnd.choice([5, 5, 6, 7, 8, 9, 12, 16, 17, 32])
        shape = [1] * nd
        for _ in range(rnd.choice([1, 3, 6])):
            shape[rnd.randrange(nd)] = rnd.choice([2, 2, 3])
        shape[-1] = rnd.choice([1, 2, 3])
        return shape
    nd = rnd.choice([1, 1, 2, 2, 2, 3, 4])
    return [rnd.choice([0, 1, 1, 2, 3, 4, 5]) if rnd.random() < 0.9 else rnd.choice([10, 11, 17]) for _ in range(nd)]


def read_lines(ctx, n):
    rnd = random.Random(ctx.seed * 41 + 11)
    L = []
    # every type, order and byte order in two dimensions, then anything
    combos = [(t, b, f, sh, st) for t in TYPES for b in (0, 1) for f in (0, 1) for sh in ([2, 3], [3], [2, 2, 3]) for st in ("numpy", "own")]
    for i in range(n + len(combos)):
        arrays, data = [], b""
        t = rnd.choice(list(TYPES))
        if i < len(combos):
            t = combos[i][0]
        for k in range(1 if i < len(combos) else rnd.choice([1, 1, 2, 3])):
            if i < len(combos):
                _, big, fortran, shape, style = combos[i]
            else:
                big, fortran, shape, style = rnd.choice([0, 1]), rnd.choice([0, 1]), some_shape(rnd), rnd.choice(["numpy", "own"])
            if TYPES[t] == 1:
                big = 0
            data += array(rnd, t, shape, big, bool(fortran), style=style, align=rnd.choice([16, 16, 64]),
                          extra=rnd.choice([0, 0, 0, 1, 20]))
            arrays.append({"type": t, "big": big, "fortran": fortran, "shape": shape})
        L.append("mode=read type=%s seed=%d n=%d hex=%s arrays=%s" % (t, rnd.randrange(1000), len(arrays), data.hex(),
                                                                   json.dumps(arrays, separators=(",", ":"))))
    return L


def reject_lines(ctx, n, scratch):
    rnd = random.Random(ctx.seed * 43 + 13)
    L = []
    for i in range(n):
        t = rnd.choice(list(TYPES)) if i >= len(TYPES) else list(TYPES)[i]
        shape = [max(1, x) for x in some_shape(rnd)] if i >= 10 else [2, 3]
        style = rnd.choice(["numpy", "own"])
        good = array(rnd, t, shape, rnd.choice([0, 1]), rnd.choice([False, True]), style=style, align=rnd.choice([16, 64]))
        # every truncation of it
        L.append("id=cut%d mode=reject type=%s cuts=1 hex=%s" % (i, t, good.hex()))
        # as another type
        other = rnd.choice([x for x in TYPES if x != t])
        L.append("id=type%d mode=reject type=%s cuts=0 hex=%s" % (i, other, good.hex()))
        # another format version
        for v in ((2, 0), (3, 0)):
            L.append("id=ver%d mode=reject type=%s cuts=0 hex=%s" % (i, t, array(rnd, t, shape, 0, False, style="numpy", align=64, version=v).hex()))
        # not npy at all
        bad = bytearray(good)
        bad[rnd.randrange(6)] ^= 1 << rnd.randrange(8)
        L.append("id=magic%d mode=reject type=%s cuts=0 hex=%s" % (i, t, bytes(bad).hex()))
    for d in ("<c8", "<c16", "|b1", "<U3", "|S4", "<m8[ns]", "<M8[ns]", "|V8", "|O", "<f2", "<f16"):
        for t in ("f8", "i4", "f4"):
            L.append("id=descr%s mode=reject type=%s cuts=0 hex=%s" % (d, t, (header(d, False, [2, 2]) + bytes(256)).hex()))
    for t in TYPES:
        L.append("id=missing mode=missing type=%s path=%s/does-not-exist.npy" % (t, scratch))
    open(os.path.join(scratch, "empty.npy"), "w").close()
    L.append("id=empty mode=missing type=f8 path=%s/empty.npy" % scratch)
    L.append("id=dir mode=missing type=f8 path=%s" % scratch)
    return L


def bigread_lines(ctx, deep):
    rnd = random.Random(ctx.seed * 47 + 3)
    L = []
    for shape in [[2, 70000], [70000, 2], [65536], [65537, 1], [1, 65536], [257, 257], [3, 200, 300], [300, 200, 3], [2, 3, 11, 1200],
                  [40000, 5], [1, 131073], [256, 256], [128, 256], [4096], [8192, 2], [512, 1], [64, 64, 4], [1023], [1025, 1], [16384],
                  [131072], [2, 131072], [524288, 1], [1048576], [1024, 2048], [2097152]] + ([[3000, 3000], [1, 2000000], [2000000], [7, 11, 13, 17, 19]] if deep else []):
        for fortran in (False, True):
            t = rnd.choice([x for x in TYPES if not (deep and len(shape) == 2 and shape[0] == 3000) or TYPES[x] < 8])
            for t in {t, rnd.choice(["i4", "f8"])}:
                big = rnd.choice([0, 1]) if TYPES[t] > 1 else 0
                n = 1
                for x in shape:
                    n *= x
                a = {"type": t, "big": big, "fortran": int(fortran), "shape": shape}
                h = header(("|" if TYPES[t] == 1 else "<>"[big]) + t, fortran, shape, style=rnd.choice(["numpy", "own"]))
                L.append("mode=bigread type=%s seed=%d n=%d hex=%s array=%s" % (t, rnd.randrange(1000), n, h.hex(), json.dumps(a, separators=(",", ":"))))
    return L


def exe(mode="plain"):
    return vp.build("npy", [os.path.join(vp.HARNESS, "npy.cpp")], mode)
