"""C04: every cell record form decodes to the stored value (spec: F64, Grid, TraceGrid)."""
import sheetev, biff, struct, core
from props.c03 import scn

STAGES = {k: (sheetev.run, "TraceGrid") for k in ("packed-numbers", "doubles", "records", "biff20")}


def dbl(x):
    b = struct.pack(">d", x)
    return [b[0] << 8 | b[1], b[2] << 8 | b[3], b[4] << 8 | b[5], b[6] << 8 | b[7]]


def rk_cases(ctx):
    """hi/lo halves covering each flag pair, every sign/exponent corner."""
    rng = ctx.rng
    his = [0, 1, 2, 3, 0x7F, 0xFF, 0x100, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FEF, 0x7FFF, 0x8000, 0x8001, 0xBFFF, 0xC000,
           0xFFFE, 0xFFFF, 0x3FF0, 0x3FE0, 0x4059, 0x4058, 0x40FF, 0xC059, 0xBFF0]
    los = [0, 4, 8, 96, 100, 0x190, 396, 400, 404, 0x7FFC, 0x8000, 0xFFFC, 0x61A8, 0xA3D4, 0x1EB8]
    out = []
    for hi in his:
        for lo in los:
            for f in range(4):
                out.append([hi, lo & 0xFFFC | f])
    for n in (0, 1, -1, 99, 100, 101, 12345, -12345, 2**29 - 1, -2**29, 536870911 // 3):
        u = n & 0x3FFFFFFF
        for f in (2, 3):
            w = u << 2 | f
            out.append([w >> 16, w & 0xFFFF])
    for x in (1.0, -1.0, 0.5, 100.0, 1e-100, 1e100, -2.5, 123456.0, 0.01, 3.0):
        w = struct.unpack("<Q", struct.pack("<d", x))[0] >> 32
        for f in (0, 1):
            out.append([w >> 16, w & 0xFFFC | f])
    for _ in range(ctx.n(4000, 60000)):
        f = rng.randrange(4)
        hi, lo = rng.randrange(65536), rng.randrange(65536) & 0xFFFC | f
        out.append([hi, lo])
    ok = []
    for hi, lo in out:
        if not lo & 2:
            e = hi >> 4 & 0x7FF
            if e == 0x7FF and (hi & 15 or lo & 0xFFFC):
                continue                      # NaN payloads are not compared
            if lo & 1 and 0 < e < 20 or lo & 1 and e == 0 and (hi & 15 or lo & 0xFFFC):
                continue                      # quotients outside the normal range
        ok.append([hi, lo])
    return ok


def packed(ctx):
    rng = ctx.rng
    rks = rk_cases(ctx)
    out, ev, row = [], [], 0
    while rks:
        ver = rng.choice([80, 80, 70, 50, 40, 30])
        n = rng.choice([1, 1, 2, 3, 7]) if ver >= 50 else 1
        take, rks = rks[:n], rks[n:]
        c = rng.randrange(0, 250)
        if n == 1 and rng.random() < .7:
            e = {"op": "rk", "r": row, "c": c, "xf": rng.randrange(15, 21), "rk": take[0]}
        else:
            if ver < 50:
                ver = 80
            e = {"op": "mulrk", "r": row, "c": c, "items": [[rng.randrange(15, 21)] + t for t in take]}
        ev.append((ver, e))
        row += 1
    by = {}
    for v, e in ev:
        by.setdefault(v, []).append(e)
    for v, es in by.items():
        for k in range(0, len(es), 25):
            part = [dict(e, r=e["r"] % 500) for e in es[k:k + 25]]
            s = scn(v, part, rng.random() < .5, True)
            s["opt"]["xfd"] = [rng.randrange(2) for _ in range(21)]
            out.append(s)
    return out


def doubles(ctx):
    rng = ctx.rng
    vals = [0.0, -0.0, 1.0, -1.0, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, float("inf"),
            float("-inf"), 0.1, 1 / 3, 123456789.123, 65535.0, 65536.0, 4294967296.0, -2147483648.0]
    bits = [dbl(v) for v in vals] + [[0x7FF8, 0, 0, 0]]
    # a number whose last two bytes are FFFF belongs to the special formula results: keep it for NUMBER only
    bits += [[0xFFF8, 0, 0, 1]]
    for _ in range(ctx.n(2000, 20000)):
        b = [rng.randrange(65536) for _ in range(4)]
        if b[0] & 0x7FF0 == 0x7FF0:
            continue
        bits.append(b)
    out = []
    for k in range(0, len(bits), 20):
        ver = rng.choice([80, 70, 50, 40, 30, 21])
        ev = []
        for i, b in enumerate(bits[k:k + 20]):
            op = "fnum" if rng.random() < .4 and b[0] & 0x7FF0 != 0x7FF0 else "num"
            e = {"op": op, "r": i, "c": rng.randrange(0, 256), "xf": rng.randrange(15, 21), "v": b}
            if op == "num" and ver >= 30 and rng.random() < .2:
                e["extra"] = rng.randrange(1, 5)
            ev.append(e)
        s = scn(ver, ev, rng.random() < .5, True)
        s["opt"]["xfd"] = [rng.randrange(2) for _ in range(21)]
        out.append(s)
    return out


def text(rng, ver):
    n = rng.choice([0, 1, 2, 5, 30, 127, 128, 200, 255])
    k = rng.random()
    if k < .5:
        return "".join(chr(rng.randrange(32, 127)) for _ in range(n))
    if k < .75 or ver < 80:
        u = [rng.choice([rng.randrange(0xA0, 0x100), 65]) for _ in range(n)]
    else:
        u = [rng.choice([rng.randrange(0x100, 0xD800), 65, 0xE000]) for _ in range(n)]
    return "".join(map(chr, u)) if all(x < 128 for x in u) else u


def records(ctx):
    rng = ctx.rng
    out = []
    for v in range(256):
        # every boolean/error payload byte the format allows
        ver = (80, 70, 50, 40, 30, 21)[v % 6]
        ev = []
        for i, op in enumerate(("err", "ferr")):
            ev.append({"op": op, "r": i, "c": v, "xf": 15, "v": v})
        for i, op in enumerate(("bool", "fbool")):
            ev.append({"op": op, "r": 2 + i, "c": v, "xf": 16, "v": v & 1})
        if ver >= 30:
            ev[0]["extra"] = ev[2]["extra"] = v & 1
        out.append(scn(ver, ev, v % 3 == 0, True))
    for _ in range(ctx.n(1500, 15000)):
        ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21])
        last = 65535 if ver >= 80 else 16383
        fmt = rng.random() < .5
        ev = []
        used = set()
        big = rng.random() < .02
        for _k in range(rng.randrange(1, 9)):
            r = rng.choice([rng.randrange(0, 12), rng.randrange(0, 300)] + ([last] if big else []))
            c = rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])
            if (r, c) in used:
                continue
            used.add((r, c))
            x = rng.randrange(0, 21)
            op = rng.choice(["label", "label", "label", "bool", "err", "blank", "fstr", "fempty", "int"] +
                            (["rstring", "rstring"] if ver >= 50 else []) + (["sst"] if ver >= 80 else []) +
                            (["mulblank"] if ver >= 50 else []))
            e = {"op": op, "r": r, "c": c, "xf": x}
            if op in ("label", "rstring", "fstr"):
                e["t"] = text(rng, ver)
                if op == "fstr" and e["t"] == "" and ver >= 80:
                    e["t"] = "x"
                if ver >= 80 and op != "fstr" and rng.random() < .3:
                    e["wide"] = True
                if op == "rstring":
                    m = len(e["t"])
                    e["runs"] = [[rng.randrange(0, 200), rng.randrange(0, 5)] for _ in range(rng.randrange(0, 4))]
            elif op == "bool":
                e["v"] = rng.randrange(2)
            elif op == "err":
                e["v"] = rng.choice([0, 7, 15, 23, 29, 36, 42])
            elif op == "sst":
                e["i"] = rng.randrange(3)
            elif op == "int":
                e["v"] = rng.choice([0, 1, 65535, 32768, rng.randrange(65536)])
            elif op == "mulblank":
                n = rng.randrange(1, 6)
                e["c"] = min(c, 256 - n)
                e["xfs"] = [rng.randrange(0, 21) for _ in range(n)]
            if ver == 21 and op in ("label", "bool", "err", "blank", "fempty", "int"):
                e["hi"] = rng.randrange(4)
            ev.append(e)
        if ver == 21 and rng.random() < .4:
            ev.insert(0, {"op": "ixfe", "xf": rng.choice([3, 20])})
            for e in ev[1:]:
                if rng.random() < .5:
                    e["viaixfe"] = True
            if rng.random() < .5:
                ev.insert(rng.randrange(1, len(ev) + 1), {"op": "ixfe", "xf": rng.choice([5, 19])})
        s = scn(ver, ev, fmt, True)
        s["opt"]["xfd"] = [rng.randrange(2) for _ in range(21)]
        if ver == 21 and fmt:
            s["probe"] = [[e["r"], e["c"]] for e in ev if "r" in e]
        out.append(s)
    return out


def biff20(ctx):
    """Version 2.0: no style records; cells carry their attributes inline."""
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(150, 2000)):
        ev = []
        for r in range(rng.randrange(1, 8)):
            op = rng.choice(["num", "int", "label", "bool", "err", "fnum", "fempty", "blank"])
            e = {"op": op, "r": r, "c": rng.randrange(0, 256), "xf": 0,
                 "attr": [rng.choice([0, 0x40, 0x80, 0xC0]), rng.choice([0, 1, 0x40, 0x41, 0x80, 0xC1]), rng.randrange(256)]}
            if op in ("num", "fnum"):
                e["v"] = dbl(rng.uniform(-1e6, 1e6))
            elif op == "int":
                e["v"] = rng.randrange(65536)
            elif op == "label":
                e["t"] = text(rng, 20)[:255]
            elif op == "bool":
                e["v"] = rng.randrange(2)
            elif op == "err":
                e["v"] = rng.choice([0, 7, 15, 23, 29, 36, 42])
            ev.append(e)
        s = scn(20, ev, rng.random() < .5, True)
        s["opt"]["fmtd"] = [0, 1] + [0] * 62
        out.append(s)
    return out


def check(ctx):
    ctx.validate("packed-numbers", "TraceGrid", packed(ctx), sheetev.run)
    ctx.validate("doubles", "TraceGrid", doubles(ctx), sheetev.run)
    ctx.validate("records", "TraceGrid", records(ctx), sheetev.run, limit=60)
    ctx.validate("biff20", "TraceGrid", biff20(ctx), sheetev.run)
    ctx.assumptions += ["NaN payloads and packed numbers whose hundredth is subnormal are not compared"]
