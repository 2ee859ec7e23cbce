"""C03: the grid is exactly the cell records (spec: Grid, GridMC, TraceGrid)."""
import sheetev, biff

XFD = [0] * 21
STAGES = {k: (sheetev.run, "TraceGrid") for k in ("model-behaviours", "random", "extremes")}


def scn(ver, ev, fmt, ragged, sst=("s0", "s1", "shared")):
    ev = [dict(e) for e in ev]
    s = {"ver": ver, "opt": {"fmt": fmt, "ragged": ragged, "xfd": XFD, "sst": list(sst)}, "ev": ev}
    return s


def with_dim(ev, rng=None):
    if rng is None:
        return [{"op": "dim", "r1": 0, "r2": 1, "c1": 0, "c2": 1}] + ev
    k = rng.random()
    if k < .2:
        return ev
    d = {"op": "dim", "r1": 0, "r2": rng.choice([0, 1, 5, 300]), "c1": 0, "c2": rng.choice([0, 1, 5, 256])}
    out = [d] + ev
    if k < .4:
        out = [dict(d, r2=7)] + out
    if k > .8:
        out.insert(rng.randrange(1, len(out) + 1), {"op": "dim", "len0": 1})
    return out


def rand_num(rng):
    return [rng.randrange(0x3F00, 0x4100), rng.randrange(65536), rng.randrange(65536), rng.randrange(65536)]


def rand_event(rng, ver, R, C, fmt):
    r, c = rng.choice(R), rng.choice(C)
    x = rng.randrange(15, 21)
    ops = ["num", "num", "label", "bool", "err", "fnum", "fbool", "fempty", "fstr", "blank"]
    if ver >= 30:
        ops += ["rk", "int"]
    else:
        ops += ["int", "int"]
    if ver >= 50:
        ops += ["mulrk", "mulblank", "mulrk", "rstring"]
    if ver >= 80:
        ops += ["sst", "sst"] + (["merge"] if fmt else [])
    if ver >= 30:
        ops += ["row", "col"]
    op = rng.choice(ops)
    e = {"op": op, "r": r, "c": c, "xf": x}
    if op in ("num", "fnum"):
        e["v"] = rand_num(rng)
    elif op == "int":
        e["v"] = rng.randrange(65536)
    elif op == "rk":
        e["rk"] = [rng.randrange(0x3F00, 0x4100), rng.randrange(65536)]
    elif op in ("label", "fstr", "rstring"):
        e["t"] = "t%d" % rng.randrange(1000)
        if op == "rstring":
            e["runs"] = [[0, 1], [1, 2]][:rng.randrange(3)]
    elif op in ("bool", "fbool"):
        e["v"] = rng.randrange(2)
    elif op in ("err", "ferr"):
        e["v"] = rng.choice([0, 7, 15, 23, 29, 36, 42])
    elif op == "sst":
        e["i"] = rng.randrange(3)
    elif op == "mulrk":
        n = rng.randrange(1, 5)
        e["c"] = c = min(c, 256 - n)
        del e["xf"]
        e["items"] = [[rng.randrange(15, 21), rng.randrange(0x3F00, 0x4100), rng.randrange(65536)] for _ in range(n)]
    elif op == "mulblank":
        n = rng.randrange(1, 5)
        e["c"] = c = min(c, 256 - n)
        del e["xf"]
        e["xfs"] = [rng.randrange(15, 21) for _ in range(n)]
    elif op == "merge":
        rs = []
        for _ in range(rng.randrange(1, 4)):
            a, b = rng.choice(R), rng.choice(C)
            rs.append([a, min(a + rng.randrange(1, 4), max(R) + 3), b, min(256, b + rng.randrange(1, 4))])
        e = {"op": "merge", "rs": rs}
    elif op == "row":
        e = {"op": "row", "r": r, "xf": rng.choice([-1, 16, 17])}
    elif op == "col":
        e = {"op": "col", "c1": c, "c2": min(255, c + rng.randrange(3)), "xf": rng.choice([15, 18, 19])}
    return e


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(2500, 30000)):
        ver = rng.choice([80, 80, 80, 80, 70, 50, 40, 30, 21])
        fmt, ragged = rng.random() < .5, rng.random() < .5
        hi = rng.choice([3, 6, 20])
        R, C = list(range(hi)), list(range(rng.choice([2, 4, 12, 256]) if hi < 20 else 4))
        n = rng.choice([1, 2, 3, 5, 8, 13, 25])
        ev = [rand_event(rng, ver, R, C, fmt) for _ in range(n)]
        shape = rng.random()
        if shape < .25:   # mostly row-major, as real files are, with one intruder
            ev.sort(key=lambda e: (e.get("r", 0), e.get("c", 0)))
            if rng.random() < .7:
                ev.insert(rng.randrange(len(ev) + 1), rand_event(rng, ver, R, C, fmt))
        elif shape < .35:
            ev.sort(key=lambda e: (-e.get("r", 0), e.get("c", 0)))
        out.append(scn(ver, with_dim(ev, rng), fmt, ragged))
    return out


def extremes(ctx):
    """Cells in the last rows and columns the format can address."""
    rng = ctx.rng
    out = []
    for ver in (80, 70, 50, 40, 30, 21):
        last = 65535 if ver >= 80 else 16383
        for fmt in (False, True):
            for ragged in (False, True):
                for rows, cols in (([last, 0], [0, 1]), ([last], [0]), ([0, 1], [255, 0]), ([last - 1, last], [1])):
                    ev = [{"op": "num", "r": r, "c": c, "xf": 15, "v": rand_num(rng)} for r in rows for c in cols]
                    out.append(scn(ver, [{"op": "dim", "r1": 0, "r2": 1, "c1": 0, "c2": 1}] + ev, fmt, ragged))
                if ver == 80 and fmt:
                    out.append(scn(ver, [{"op": "num", "r": 3, "c": 1, "xf": 15, "v": rand_num(rng)},
                                         {"op": "merge", "rs": [[65534, 65536, 0, 2]]}], fmt, ragged))
                    out.append(scn(ver, [{"op": "num", "r": 3, "c": 1, "xf": 15, "v": rand_num(rng)},
                                         {"op": "merge", "rs": [[0, 2, 250, 256]]}], fmt, ragged))
                if ver == 80:
                    ev = [{"op": "num", "r": last, "c": 255, "xf": 15, "v": rand_num(rng)}]
                    if ragged:
                        out.append(scn(ver, ev, fmt, ragged))
                out.append(scn(ver, [], fmt, ragged))
    return out


def check(ctx):
    hists = ctx.model_check("GridMC", tag="S")
    if ctx.thorough:
        hists += ctx.model_check("GridMC", "GridMC5", tag="S", heap="10g")
    sc = []
    for i, h in enumerate(hists):
        ev = with_dim(h) if i % 3 else h
        for j in range(4):
            if ctx.thorough or j == i % 4 or j == (i // 4 + 1) % 4:
                sc.append(scn(80, ev, j & 1 == 1, j & 2 == 2))
    ctx.validate("model-behaviours", "TraceGrid", sc, sheetev.run)
    ctx.validate("random", "TraceGrid", randoms(ctx), sheetev.run)
    ctx.validate("extremes", "TraceGrid", extremes(ctx), sheetev.run, limit=60)
    ctx.assumptions += ["DIMENSIONS records precede the cells; merged ranges lie inside the sheet",
                        "a ragged row that exists only through a merged range may hold zero or one empty cell"]
