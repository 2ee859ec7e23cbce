"""C11: every accessor describes the same grid (spec: Access, AccessMC, TraceAccess)."""
import sheetev, core, xlrd
from sheetev import token
from props.c03 import scn, rand_event


def cell(x):
    return [core.norm(x.ctype), token(x.value), core.norm(x.xf_index)]


def one(sh, its, q):
    f = q["f"]
    if f in ("nrows", "ncols"):
        return core.norm(getattr(sh, f))
    if f == "iter":
        its.append((sh.get_rows, lambda: iter(sh))[q["how"]]())
        return "None"
    if f == "next":
        try:
            return [cell(x) for x in next(its[q["i"] - 1])]
        except StopIteration:
            return "stop"
    if f == "rest":
        return [[cell(x) for x in r] for r in its[q["i"] - 1]]
    if f == "item1":
        return [cell(x) for x in sh[q["r"]]]
    if f == "item2":
        return cell(sh[q["r"], q["c"]])
    if f == "row_len":
        return core.norm(sh.row_len(q["r"]))
    if f in ("cell", "cell_value", "cell_type", "cell_xf_index"):
        v = getattr(sh, f)(q["r"], q["c"])
        return cell(v) if f == "cell" else token(v)
    g = getattr(sh, f)
    i = q["r"] if f.startswith("row") else q["c"]
    if f == "row":
        v = g(i)
    elif q.get("kw"):
        ax = "colx" if f.startswith("row") else "rowx"
        kw = {"start_" + ax: q["s"]}
        if q["e"] != "None" or q["kw"] > 1:
            kw["end_" + ax] = None if q["e"] == "None" else q["e"]
        v = g(i, **kw)
    elif q["e"] != "None":
        v = g(i, q["s"], q["e"])
    elif q["s"]:
        v = g(i, q["s"])
    else:
        v = g(i)
    out = [cell(x) if hasattr(x, "ctype") else token(x) for x in v]
    if q.get("scribble"):
        # what was handed out belongs to the caller
        try:
            if hasattr(v, "reverse"):
                v.reverse()
            if len(v) and not hasattr(v[0], "ctype"):
                v[0] = 99 if isinstance(v[0], int) else "scribble"
            v.append(v[0] if len(v) else 7)
            del v[1:]
        except (TypeError, AttributeError):
            pass
    return out


def run(s):
    data = sheetev.book_bytes(s)
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["opt"]["fmt"],
                               ragged_rows=s["opt"]["ragged"], logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
    except Exception as e:
        return {"err": type(e).__name__}
    its, a = [], []
    for q in s["q"]:
        try:
            a.append(one(sh, its, q))
        except (IndexError, xlrd.XLRDError):
            a.append("E")
        except Exception as e:
            a.append("E:" + type(e).__name__)
    return {"a": a}


STAGES = {k: (run, "TraceAccess") for k in ("slices", "random", "interleaved")}
SLICES = ["row_slice", "row_values", "row_types", "col", "col_slice", "col_values", "col_types"]


def sheet(rng, R=None, C=None, fmt=None, ragged=None):
    ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21])
    fmt = rng.random() < .5 if fmt is None else fmt
    ragged = rng.random() < .5 if ragged is None else ragged
    R = R or rng.choice([1, 2, 4, 7])
    C = C or rng.choice([1, 2, 4, 7])
    ev = []
    for _ in range(rng.choice([0, 1, 3, 6, 12, 25])):
        e = rand_event(rng, ver, range(R), range(C), fmt)
        if e["op"] == "merge" and ragged:
            continue
        ev.append(e)
    return scn(ver, ev, fmt, ragged)


def idx(rng):
    return rng.choice([0, 0, 1, 2, 3, 5, 6, 7, 8, -1, -2, -3, -7, -8, -20, 300, rng.randrange(-9, 9)])


def ask(rng):
    f = rng.choice(["nrows", "ncols", "row_len", "cell", "item2", "cell_value", "cell_type", "cell_xf_index", "row", "item1"] + SLICES * 2)
    q = {"f": f}
    if f in ("row_len", "row", "item1") or f.startswith("row_"):
        q["r"] = idx(rng)
    if f.startswith("col"):
        q["c"] = idx(rng)
    if f in ("cell", "item2", "cell_value", "cell_type", "cell_xf_index"):
        q["r"], q["c"] = idx(rng), idx(rng)
    if f in SLICES:
        q["s"], q["e"] = idx(rng), rng.choice(["None", idx(rng), idx(rng)])
        q["kw"] = rng.choice([0, 0, 1, 2])
    if (f in SLICES or f == "row") and rng.random() < .3:
        q["scribble"] = 1
    return q


def slices(ctx, docs):
    """Every model slice against every slice accessor of sheets of that size."""
    rng, out = ctx.rng, []
    for ragged in (False, True):
        for fmt in (False, True):
            for n in range(0, 5):
                for m in ({n, 2} if not ctx.thorough else range(5)):
                    ver = rng.choice([80, 70, 50])
                    ev = [{"op": "num", "r": r, "c": c, "xf": 16, "v": [0x3FF0 + r, c, 0, 0]}
                          for r in range(n) for c in range(m)]
                    if ragged:
                        ev = [e for e in ev if e["c"] <= e["r"] + 1 or e["r"] == n - 1]
                    ev += [{"op": "row", "r": 1, "xf": 18}, {"op": "col", "c1": 2, "c2": 2, "xf": 17}]
                    if n > 2 and m > 2:
                        ev = [e for e in ev if not (e["op"] == "num" and (e["r"], e["c"]) in ((1, 0), (2, 1)))]
                    q = []
                    for d in docs:
                        if d["n"] == n:
                            for f in SLICES:
                                x = {"f": f, "s": d["s"], "e": d["e"]}
                                x["r" if f[0] == "r" else "c"] = rng.choice([0, 1, 2, -1])
                                q.append(x)
                    for lo in range(0, len(q), 300):
                        s = scn(ver, ev, fmt, ragged)
                        s["q"] = q[lo:lo + 300]
                        out.append(s)
    return out


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("AccessMC", tag="S")
    ctx.validate("slices", "TraceAccess", slices(ctx, docs), run)
    out = []
    for _ in range(ctx.n(1200, 15000)):
        s = sheet(rng)
        s["q"] = [ask(rng) for _ in range(30)]
        out.append(s)
    ctx.validate("random", "TraceAccess", out, run)
    out = []
    for _ in range(ctx.n(400, 5000)):
        s, n, q = sheet(rng), 0, []
        for _k in range(25):
            k = rng.random()
            if n and k < .55:
                q.append({"f": "next", "i": rng.randrange(1, n + 1)})
            elif n and k < .6:
                q.append({"f": "rest", "i": rng.randrange(1, n + 1)})
            elif k < .75 and n < 4:
                n += 1
                q.append({"f": "iter", "how": rng.randrange(2)})
            else:
                q.append(ask(rng))
        s["q"] = q
        out.append(s)
    ctx.validate("interleaved", "TraceAccess", out, run)
