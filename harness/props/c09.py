"""C09: formula cells show their stored result (spec: Formula, Text, FormulaMC, TraceFormula)."""
import core, biff, sheetev
from biff import rec, P


def fop(ver):
    return 0x0006 if ver >= 50 or ver < 30 else 0x0406 if ver >= 40 else 0x0206


def encode(ver, e):
    op = e["op"]
    b2 = ver < 30
    if op == "f":
        res, toks, flags = bytes(e["b"]), bytes(e.get("toks", [0x1E, 1, 0])), e.get("flags", 0)
        if ver >= 50:
            return rec(6, P("<HHH", e["r"], e["c"], e["xf"]) + res + P("<HIH", flags, 0, len(toks)) + toks + bytes(e.get("extra", 0)))
        if ver >= 30:
            return rec(fop(ver), P("<HHH", e["r"], e["c"], e["xf"]) + res + P("<HH", flags, len(toks)) + toks)
        return rec(6, P("<HHBBB", e["r"], e["c"], e["xf"], 0, 0) + res + P("<BB", flags & 1, len(toks)) + toks)
    if op == "aux":
        k = e["kind"]
        rng6 = P("<HHBB", 0, 0, 0, 0)
        tk = bytes(e.get("toks", [0x1E, 1, 0]))
        if k == "shr":
            return rec(0x04BC, rng6 + P("<BBH", 0, 1, len(tk)) + tk)
        if k == "arr":
            if ver >= 50:
                return rec(0x0221, rng6 + P("<HIH", 0, 0, len(tk)) + tk)
            if ver >= 30:
                return rec(0x0221, rng6 + P("<HH", 0, len(tk)) + tk)
            return rec(0x0021, rng6 + P("<BB", 0, len(tk)) + tk)
        if k == "tab":
            return rec(0x0236 if ver >= 30 else 0x0036, rng6 + P("<HHHHH", 0, 0, 0, 0, 0))
        if k == "tab2":
            return rec(0x0037, rng6 + P("<HHHHH", 0, 0, 0, 0, 0))
    if op == "str":
        parts = [bytes(p) for p in e["parts"]]
        head = P("<B", e["n"]) if b2 else P("<H", e["n"])
        if e.get("bare"):
            parts = [b""]
        out = rec(7 if b2 else 0x0207, head + parts[0])
        for p in parts[1:]:
            out += rec(0x3C, p)
        return out
    if op == "num":
        return sheetev.encode(ver, e)
    if op == "label":
        return sheetev.encode(ver, dict(e, t=e["u"]))
    raise core.MachineryError(op)


def run(s):
    import xlrd
    opt = s["opt"]
    ver = opt["ver"]
    g = biff.base_styles(ver, opt["xfd"])
    if s.get("cp"):
        g = [rec(0x42, P("<H", s["cp"]))] + g
    recs = [biff.dim_rec(ver, 0, 4, 0, 4)] + [encode(ver, e) for e in s["ev"]]
    data = biff.build(ver, g, [{"name": "S", "recs": recs}])
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["fmt"], ragged_rows=s["ragged"], logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        cells = []
        for r in range(sh.nrows):
            for c in range(sh.row_len(r)):
                t, v = sh.cell_type(r, c), sh.cell_value(r, c)
                if t != 0:
                    cells.append([r, c, core.norm(t), core.units(v) if isinstance(v, str) else core.norm(v)])
        return {"cells": cells}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceFormula") for k in ("model-behaviours", "random")}
XFD = [0] * 17 + [1] + [0] * 3
CODECS = {80: [0], 70: [0, 1252, 932, 936, 949, 950, 1251], 50: [0, 1252, 932, 1253], 40: [0, 1252, 932], 30: [0, 1251], 21: [0, 1252, 932]}


def text8(rng, n):
    u = []
    while len(u) < n:
        x = rng.random()
        if x < .1 and len(u) + 2 <= n:
            u += [rng.randrange(0xD800, 0xDC00), rng.randrange(0xDC00, 0xE000)]
        else:
            u.append(rng.choice([65, 66, 32, 0xE9, 0x20AC, 0xFFFD, 0x3042, 10]))
    return u


def str8(rng, u, p):
    """Split units into flagged parts."""
    parts, cur, w = [], None, 0
    for x in u:
        if cur is None or (w == 0 and x > 255) or rng.random() < p:
            if cur is not None:
                parts.append(cur)
            w = 1 if x > 255 or rng.random() < .3 else 0
            cur = [w]
        cur += [x & 255, x >> 8] if w else [x]
    parts.append(cur if cur is not None else [0])
    return parts


def rand_text_event(rng, ver, cp):
    if ver >= 80:
        u = text8(rng, rng.choice([0, 1, 2, 5, 20, 200]))
        e = {"op": "str", "n": len(u), "parts": str8(rng, u, rng.choice([0, 0, .1, .5])), "u": u}
        if not u and rng.random() < .5:
            e["bare"] = 1
        return e
    enc = {0: "iso-8859-1"}.get(cp, "cp%d" % cp)
    alpha = "abc XYZ"
    if cp == 0 or cp == 1252:
        alpha += "\xe9\xdf"
    elif cp == 1251:
        alpha += "\u0414\u044f"
    elif cp == 1253:
        alpha += "\u03b1\u03a9"
    elif cp == 932:
        alpha += "\u3042\u65e5\u672c\uff71"
    elif cp in (936, 950):
        alpha += "\u4e2d\u6587"
    elif cp == 949:
        alpha += "\ud55c\uae00"
    t = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 3, 30, 90])))
    b = t.encode(enc)
    parts, lo = [], 0
    while lo < len(b) or not parts:
        n = rng.randrange(1, 30) if ver >= 30 and rng.random() < .4 else len(b)
        parts.append(list(b[lo:lo + n]))
        lo += n
        if not b:
            break
    if ver >= 30 and b and rng.random() < .1:
        parts.insert(0, [])                    # the first record holds the length only
    return {"op": "str", "n": len(b), "parts": parts, "u": core.units(t)}


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(4000, 50000)):
        ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21])
        cp = rng.choice(CODECS[ver])
        ev = []
        for _k in range(rng.randrange(1, 7)):
            r, c, xf = rng.randrange(4), rng.randrange(4), rng.choice([15, 16, 17, 18])
            k = rng.random()
            h = {"r": r, "c": c, "xf": xf}
            if k < .15:
                ev.append(dict(h, op="num", v=[rng.randrange(0x3F00, 0x4100), 0, 0, rng.randrange(65536)]))
            elif k < .25:
                ev.append(dict(h, op="label", u=core.units("abc"[:rng.randrange(1, 4)])))
            else:
                f = dict(h, op="f", flags=rng.choice([0, 1, 8, 9, 0xFFFF if ver >= 30 else 1]))
                f["toks"] = [rng.randrange(256) for _ in range(rng.randrange(0, 9))]
                kind = rng.choice(["n", "s", "s", "s", "b", "e", "z"])
                junk = [rng.randrange(256) for _ in range(4)]
                if kind == "n":
                    b = [rng.randrange(256) for _ in range(8)]
                    if b[7] & 0x7F == 0x7F:
                        b[7] = 0x40
                    if rng.random() < .3:
                        b = rng.choice([[0] * 6 + [0xFF, 0x3F], [1, 0, 0, 0, 0, 0, 0xFF, 0xBF], [0] * 8, [0] * 7 + [128], [0xFF] * 6 + [0xEF, 0x7F],
                                        [0, 0, 0, 0, 0, 0, 0xFF, 0x7E], [3, 0, 0, 0, 0, 0, 0, 0]])
                else:
                    b = [{"s": 0, "b": 1, "e": 2, "z": 3}[kind], junk[0], 0, junk[1], junk[2], junk[3], 255, 255]
                    if kind == "b":
                        b[2] = rng.randrange(2)
                    elif kind == "e":
                        b[2] = rng.choice([0, 7, 15, 23, 29, 36, 42])
                f["b"] = b
                ev.append(f)
                if kind == "s":
                    if rng.random() < .5:
                        ev.append({"op": "aux", "kind": rng.choice((["shr", "arr"] if ver >= 50 else ["arr"]) + ["tab"] + (["tab2"] if ver < 50 else [])),
                                   "toks": [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 20]))]})
                    ev.append(rand_text_event(rng, ver, cp))
                elif rng.random() < .3:
                    ev.append({"op": "aux", "kind": rng.choice((["shr", "arr"] if ver >= 50 else ["arr"]) + ["tab"]),
                               "toks": [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 20]))]})
        out.append({"opt": {"ver": ver, "xfd": XFD}, "ev": ev, "cp": cp, "fmt": rng.random() < .5, "ragged": rng.random() < .5})
    return out


def check(ctx):
    docs = ctx.model_check("FormulaMC", tag="S")
    sc = [{"opt": {"ver": 80, "xfd": XFD}, "ev": h, "fmt": i % 2 == 0, "ragged": i % 3 == 0} for i, h in enumerate(docs)]
    if not ctx.thorough:
        sc = ctx.rng.sample(sc, 7000)
    ctx.validate("model-behaviours", "TraceFormula", sc, run)
    ctx.validate("random", "TraceFormula", randoms(ctx), run)
