"""C05: dates by number format (spec: DateFormat, DateFormatMC, TraceDateFormat)."""
import core, biff, sheetev
from biff import rec, P


def fmt_rec(ver, e):
    u = e["u"]
    if ver >= 80:
        wide = e.get("wide") or any(x > 255 for x in u)
        body = b"\1" + b"".join(P("<H", x) for x in u) if wide else b"\0" + bytes(u)
        return rec(0x041E, P("<HH", e["key"], len(u)) + body)
    b = bytes(u)
    if ver >= 50:
        return rec(0x041E, P("<HB", e["key"], len(b)) + b)
    if ver >= 40:
        return rec(0x041E, P("<HB", e.get("key", 0), len(b)) + b)
    return rec(0x001E, P("<B", len(b)) + b)


def xf(ver, e):
    """Style record with other fields taken from e['noise'] (any bits)."""
    n = e["noise"]
    style, fl = n & 1, n >> 1 & 0x3F
    par = 0xFFF if style else 0
    tp = style << 2 | 1 | par << 4
    if ver >= 80:
        return rec(0xE0, P("<HHHBBBBIIH", 0, e["fmt"], tp, n & 0x77, 0, 0, fl << 2, 0, 0, 0x20C0))
    if ver >= 50:
        return rec(0xE0, P("<HHHBBII", 0, e["fmt"], tp, n & 0x77, fl << 2 | n & 3, 0x20C0, 0))
    if ver >= 40:
        return rec(0x0443, P("<BBHBBHI", 0, e["fmt"], tp, n & 0xF7, fl << 2, 0xCE00, 0))
    if ver >= 30:
        return rec(0x0243, P("<BBBBHHI", 0, e["fmt"], tp & 15, fl << 2, par << 4 | n & 15, 0xCE00, 0))
    return rec(0x43, P("<BBBB", 0, 0, e["fmt"] | n << 6 & 0xC0, n & 0xFF))


def cell(ver, e):
    v = [0x40E5, 0xF90C, 0, 0]
    k = dict(op=e["k"], r=e["r"], c=e["c"], xf=e.get("xf", 0))
    if ver == 20:
        k["attr"] = [e["hi"], e["fmt"] | e["font"] << 6, e["al"]]
    if e["k"] in ("num", "fnum"):
        k["v"] = v
    elif e["k"] == "int":
        k["v"] = 1234
    elif e["k"] == "rk":
        k["rk"] = [0x40E5, 0xF90C]
    elif e["k"] == "mulrk":
        k["items"] = [[e["xf"], 0x40E5, 0xF90C]]
    b = b""
    if ver == 21 and e["xf"] >= 63:
        k["viaixfe"] = True
        b = rec(0x44, P("<H", e["xf"]))
    return b + sheetev.encode(ver, k)


def run(s):
    import xlrd
    ver = s["ver"]
    g = [biff.font_rec(ver) for _ in range(5)]
    g += [fmt_rec(ver, e) if e["op"] == "format" else xf(ver, e) for e in s["ev"]]
    nsh = 1 if ver < 50 else s["nsh"]
    sheets = [{"name": "S%d" % i, "recs": [biff.dim_rec(ver, 0, 1, 0, 1)] + [cell(ver, e) for e in s["cells"] if e["sh"] % nsh == i]}
              for i in range(nsh)]
    data = biff.build(ver, g, sheets)
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["fmt"], logfile=sheetev._Null())
        return {"types": [core.norm(b.sheet_by_index(e["sh"] % nsh).cell_type(e["r"], e["c"])) for e in s["cells"]]}
    except Exception as ex:
        return {"err": type(ex).__name__, "msg": str(ex)[:200]}


STAGES = {k: (run, "TraceDateFormat") for k in ("model-strings", "random-strings", "keys", "old-versions")}

LIVE = ["d", "dd", "mmm", "yy", "yyyy", "h", "hh", "mm", "ss", "Y", "M", "D", "H", "S", "0", "#", "?", "0.00", "#,##0", "##0.0",
        "0%", "AM/PM", "a/p", "General", "E+00", "@", ";", ";;", ",", ".", "/", "-", ":", " ", "(", ")", "$", "+", "%", "x", "B", "e", "g"]
DEAD = ['"d"', '"0"', '"days mmm"', '""', '"[h"', '"]"', '"\\"', "\\d", "\\0", '\\"', "\\[", "\\]", "\\\\", "_d", "_0", "_)", '_"', "*d", "*0", "* ",
        "[Red]", "[Blue]", "[>100]", "[<=0]", "[$-409]", "[$-F800]", "[$kr-41D]", "[$USD]", "[DBNum1]", "[Color 10]", "[Black]", "[hh]", "[mm]", "[ss]"]


def rand_fmt(rng, ver, wide_ok=True):
    t = ""
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 10])):
        t += rng.choice(LIVE if rng.random() < .6 else DEAD)
    if rng.random() < .15:
        k = rng.choice(["yyyy\u5e74m\u6708d\u65e5", "\u20ac", "\xa5", "\xe9"] if ver >= 80 else ["\xa5", "\xe9"])
        t += k
    return [ord(c) for c in t[:200]]


def kinds(ver):
    return ["num", "rk", "mulrk", "fnum"] if ver >= 50 else ["num", "rk", "fnum"] if ver >= 30 else ["num", "int", "fnum"]


def book(rng, ver, fmts, extra=4, fmt=None):
    """One workbook using many formats; cells in random order."""
    ev, keys = [], []
    if ver >= 50:
        pool = [164 + i for i in range(len(fmts))] if rng.random() < .7 else rng.sample(range(164, 5000), len(fmts))
    for i, u in enumerate(fmts):
        k = pool[i] if ver >= 50 else i
        ev.append({"op": "format", "key": k, "u": u, "wide": rng.random() < .3})
        keys.append(k)
    if ver >= 50:
        rng.shuffle(ev)
        keys = [e["key"] for e in ev]
    xfk = list(keys)
    if ver >= 50:
        xfk += [rng.choice([0, 1, 9, 13, 14, 22, 23, 27, 36, 37, 44, 45, 47, 48, 49, 50, 58, 59, 62, 70, 71, 81, 82, 163]) for _ in range(extra)]
    else:
        xfk = [k for k in xfk if k < (64 if ver < 30 else 256)] + [rng.choice([len(fmts) + 1, 60]) for _ in range(extra)]
    xfk += rng.choices(xfk, k=extra)
    rng.shuffle(xfk)
    if ver != 20:
        ev += [{"op": "xf", "fmt": k, "noise": rng.randrange(256)} for k in xfk]
    cells, used = [], set()
    order = list(range(len(xfk)))
    rng.shuffle(order)
    for j, i in enumerate(order + rng.choices(order, k=extra)):
        e = {"k": rng.choice(kinds(ver)), "r": j // 8, "c": j % 8, "sh": rng.randrange(2)}
        if ver == 20:
            e.update(fmt=xfk[i], hi=rng.choice([0, 0x40, 0x80, 0xC0]), font=rng.randrange(4), al=rng.choice([0, 3, 0x78, 0x80]))
        else:
            e["xf"] = i
        cells.append(e)
    return {"ver": ver, "fmt": rng.random() < .5 if fmt is None else fmt, "nsh": rng.choice([1, 2]), "ev": ev, "cells": cells}


def keys_book(rng, ver):
    """Every built-in key, some redefined by the workbook itself."""
    ev = []
    ks = list(range(0, 170)) + [200, 400]
    for k in rng.sample(range(0, 170), rng.choice([0, 3, 20])):
        ev.append({"op": "format", "key": k, "u": rand_fmt(rng, ver), "wide": False})
    ev += [{"op": "xf", "fmt": k, "noise": rng.randrange(256)} for k in ks]
    cells = [{"k": rng.choice(kinds(ver)), "r": i // 8, "c": i % 8, "sh": 0, "xf": i} for i in range(len(ks))]
    rng.shuffle(cells)
    return {"ver": ver, "fmt": rng.random() < .5, "nsh": 1, "ev": ev, "cells": cells}


def check(ctx):
    rng = ctx.rng
    strings = ctx.model_check("DateFormatMC", "DateFormatMC_deep" if ctx.thorough else "DateFormatMC", tag="S")
    rng.shuffle(strings)
    ctx.validate("model-strings", "TraceDateFormat",
                 [book(rng, rng.choice([80, 80, 70, 50]), strings[i:i + 60], 3) for i in range(0, len(strings), 60)], run)
    ctx.validate("random-strings", "TraceDateFormat",
                 [book(rng, v, [rand_fmt(rng, v) for _ in range(rng.choice([1, 5, 40]))])
                  for v in rng.choices([80, 80, 70, 50], k=ctx.n(600, 8000))], run)
    ctx.validate("keys", "TraceDateFormat", [keys_book(rng, v) for v in rng.choices([80, 70, 50], k=ctx.n(60, 600))], run)
    ctx.validate("old-versions", "TraceDateFormat",
                 [book(rng, v, [rand_fmt(rng, v) for _ in range(rng.choice([0, 1, 5, 40, 62] + [63, 64, 130, 252] * (v >= 30)))])
                  for v in rng.choices([40, 30, 21, 20], k=ctx.n(500, 5000))], run)
