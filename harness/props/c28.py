"""C28 names of columns, cells, ranges and sheet ranges."""
import biff, core, xlrd
from core import units
import xlrd.formula as F


def call(f, *a):
    try:
        return units(f(*a))
    except Exception as e:
        return "E:" + type(e).__name__


def opt(x):
    return None if x < 0 else x


def private(bk, fn, f, a, q):
    """Helpers that are not exported: judged if they are there as called here."""
    if f == "cellnamerel":
        return call(fn, a[0], a[1], a[2], a[3], opt(a[4]), opt(a[5]), a[6])
    if f == "rangename2d":
        return call(fn, *(a + [q["r1c1"]]))
    if f == "rangename2drel":
        return call(fn, tuple(a), tuple(q["fl"]), opt(q["b"][0]), opt(q["b"][1]), q["r1c1"])
    return call(fn, bk, *a)


def one(bk, q):
    f, a = q["f"], q.get("a")
    fn = getattr(xlrd, f, None) or getattr(F, f, None)
    if fn is None:
        return "absent"
    if f not in F.__all__:
        t = private(bk, fn, f, a, q)
        return "absent" if t == "E:TypeError" else t
    if f == "rangename3d":
        return call(fn, bk, xlrd.Ref3D(tuple(a)))
    if f == "rangename3drel":
        return call(fn, bk, xlrd.Ref3D(tuple(a) + tuple(q["fl"])), opt(q["b"][0]), opt(q["b"][1]), q["r1c1"])
    if f == "colname":  # the modules have one each
        ts = [call(g, *a) for g in (fn, getattr(xlrd.book, f, None), getattr(F, f, None)) if g]
        return ts[0] if all(t == ts[0] for t in ts) else repr(ts)
    return call(fn, *a)


def run(s):
    bk = None
    if s["names"]:
        sheets = [{"name": core.unit_str(u), "recs": []} for u in s["names"]]
        try:
            bk = xlrd.open_workbook(file_contents=biff.build(80, [], sheets))
        except Exception as e:
            return {"err": type(e).__name__}
    return {"t": [one(bk, q) for q in s["q"]]}


STAGES = {k: (run, "TraceCellNames") for k in ("columns", "cells", "relative", "sheets")}

ALPH = "AaZzRrCcBb019_. '!-+&(){}=#@$%^;,~\u00e9\u4e2d\u0416\u00d7"
WORDS = ["Sheet1", "Sheet2", "Tab", "R1C1", "RC", "R", "C", "A1", "ab12", "abc1", "abcd1", "_x", "1st", "2", "My Sheet",
         "O'Brien", "'", "a'b c", "x-y", "a+b", "TRUE", "caf\u00e9", "\u4e2d\u6587", "a.b", ".a", "_", "A_1", "Q1-2020", "50%",
         "a,b", "(x)", "Total&Sum", "#", "a!b", "''", "p q", "$A$1"]


def sheet_names(rng):
    n, seen, out = rng.choice([1, 2, 3, 6]), set(), []
    while len(out) < n:
        w = rng.choice(WORDS) if rng.random() < .6 else "".join(rng.choice(ALPH) for _ in range(rng.randrange(1, rng.choice([3, 6, 31]))))
        if w.lower() not in seen:
            seen.add(w.lower())
            out.append(units(w))
    return out


def row(rng):
    return rng.choice([0, 1, 8, 9, 10, 98, 99, 16383, 16384, 65534, 65535, rng.randrange(65536), rng.randrange(1000)])


def col(rng):
    return rng.choice([0, 1, 24, 25, 26, 27, 51, 52, 254, 255, rng.randrange(256)])


def rng2(rng):
    r, c = row(rng), col(rng)
    k = rng.random()
    r2 = r if k < .3 else rng.choice([r + 1, 65535, rng.randrange(r, 65536)])
    c2 = c if k < .15 or .3 < k < .45 else rng.choice([c + 1, 255, rng.randrange(c, 256)])
    return [r, max(r, min(r2, 65535)) + 1, c, max(c, min(c2, 255)) + 1]


def relcase(rng):
    a, fl = rng2(rng), [rng.randrange(2) for _ in range(4)]
    if rng.random() < .5:
        fl = [fl[0], fl[0], fl[2], fl[2]]
    for i, f in enumerate(fl):
        if f:
            a[i] = rng.choice([0, 1, -1, 5, -5, -32768, 32767, 255]) if i < 2 else rng.choice([0, 1, -1, 12, -128, 127])
            a[i] += i & 1
    b = [rng.choice([-1, 0, 3, 65535, rng.randrange(65536)]), rng.choice([-1, 0, 3, 255, rng.randrange(256)])]
    return a, fl, b


def sheets_case(rng):
    names, q = sheet_names(rng), []
    for lo in range(len(names)):
        for hi in range(lo + 1, len(names) + 1):
            q.append({"f": "sheetrange", "a": [lo, hi]})
            q.append({"f": "rangename3d", "a": [lo, hi] + rng2(rng)})
            a, fl, b = relcase(rng)
            q.append({"f": "rangename3drel", "a": [lo, hi] + a, "fl": [0, 0] + fl, "b": b, "r1c1": rng.randrange(2)})
    a, fl, b = relcase(rng)
    q.append({"f": "rangename3drel", "a": [0, 1] + a, "fl": [1, 1] + fl, "b": b, "r1c1": rng.randrange(2)})
    return {"names": names, "q": q}


def cells_case(rng):
    q = []
    for _ in range(30):
        r, c = row(rng), rng.choice([col(rng), col(rng), rng.randrange(256, 18000)])
        q += [{"f": "cellname", "a": [r, c]}, {"f": "cellnameabs", "a": [r, c, rng.randrange(2)]},
              {"f": "rangename2d", "a": rng2(rng), "r1c1": rng.randrange(2)}]
    return {"names": [], "q": q}


def rel_case(rng):
    q = []
    for _ in range(20):
        a, fl, b = relcase(rng)
        q.append({"f": "rangename2drel", "a": a, "fl": fl, "b": b, "r1c1": rng.randrange(2)})
        a, fl, b = relcase(rng)
        q.append({"f": "rangename3drel", "a": [0, 1] + a, "fl": [1, 1] + fl, "b": b, "r1c1": rng.randrange(2)})
        a, fl, b = relcase(rng)
        q.append({"f": "cellnamerel", "a": [a[0], a[2], fl[0], fl[2], b[0], b[1], rng.randrange(2)]})
    return {"names": [], "q": q}


def check(ctx):
    rng = ctx.rng
    ctx.model_check("CellNamesMC")
    ctx.validate("columns", "TraceCellNames",
                 [{"names": [], "q": [{"f": "colname", "a": [c]} for c in range(lo, lo + 300)]} for lo in range(0, 18300, 300)], run)
    grid = [{"names": [], "q": [{"f": "cellname", "a": [r, c]} for c in range(256)] + [{"f": "cellnameabs", "a": [r, c, k]} for c in range(256) for k in (0, 1)]}
            for r in (0, 1, 9, 65535)]
    ctx.validate("cells", "TraceCellNames", grid + [cells_case(rng) for _ in range(ctx.n(150, 3000))], run)
    ctx.validate("relative", "TraceCellNames", [rel_case(rng) for _ in range(ctx.n(200, 5000))], run)
    ctx.validate("sheets", "TraceCellNames", [sheets_case(rng) for _ in range(ctx.n(500, 8000))], run)
