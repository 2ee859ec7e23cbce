"""C14: style resolution cell -> row -> column -> default (spec: Grid, TraceGrid)."""
import sheetev, biff
from props.c03 import scn, with_dim, rand_event

STAGES = {k: (sheetev.run, "TraceGrid") for k in ("hierarchy", "random", "beyond", "model-behaviours", "extended")}


def probes(rng, R, C, n):
    out = [[rng.choice(R), rng.choice(C)] for _ in range(n)]
    return out


def hierarchy(ctx):
    """All presence combinations of cell / row / column style at one position."""
    out = []
    for ver in (80, 70, 50, 40, 30, 21):
        for cell in (None, "num", "blank", "label", "bool", "err", "fnum", "fbool", "fempty", "fstr", "ferr"):
            for row in (None, -1, 16, 0):
                for col in (None, 17, 15, 0):
                    for order in (0, 1):
                        for fmt in (True, False):
                            for ragged in (False, True):
                                if not ctx.thorough and (fmt is False) and (row or col):
                                    continue
                                ev = []
                                if row is not None:
                                    ev.append({"op": "row", "r": 1, "xf": row})
                                if col is not None:
                                    ev.append({"op": "coldef", "c": 2, "xfs": [col]} if ver == 21 else
                                              {"op": "col", "c1": 2, "c2": 2, "xf": col})
                                if cell is not None:
                                    e = {"op": cell, "r": 1, "c": 2, "xf": 19}
                                    if cell in ("num", "fnum"):
                                        e["v"] = [0x3FF0, 0, 0, 0]
                                    elif cell in ("bool", "fbool"):
                                        e["v"] = 1
                                    elif cell in ("err", "ferr"):
                                        e["v"] = 7
                                    elif cell in ("label", "fstr"):
                                        e["t"] = "abc"
                                    ev.append(e)
                                corner = {"op": "num", "r": 3, "c": 4, "xf": 20, "v": [0x4000, 0, 0, 0]}
                                ev = [corner] + ev if order else ev + [corner]
                                s = scn(ver, ev, fmt, ragged)
                                s["probe"] = [[1, 2], [1, 0], [0, 2], [0, 0], [3, 4], [3, 3], [1, 4], [2, 2], [9, 9]]
                                out.append(s)
    if not ctx.thorough:
        k = ctx.rng.sample(range(len(out)), min(len(out), 2600))
        out = [out[i] for i in sorted(k)]
    return out


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(2500, 30000)):
        ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21, 21])
        hi = rng.choice([3, 6])
        R, C = list(range(hi)), list(range(rng.choice([3, 6])))
        ev = []
        for _k in range(rng.choice([2, 4, 8, 15])):
            if rng.random() < .4:
                c = rng.choice(C)
                k = rng.random()
                if k < .45:
                    e = {"op": "row", "r": rng.choice(R), "xf": rng.choice([-1, 0, 15, 16, 17, 18])}
                    if ver == 21 and rng.random() < .5:
                        e["short"] = 1
                elif ver == 21:
                    if rng.random() < .5:
                        e = {"op": "coldef", "c": c, "xfs": [rng.randrange(0, 21) for _ in range(rng.randrange(1, 4))]}
                    else:
                        e = {"op": "colw", "c1": c, "c2": min(255, c + rng.randrange(3))}
                else:
                    e = {"op": "col", "c1": c, "c2": c + rng.choice([0, 0, 1, 2, 256 - c, 252, -1]), "xf": rng.randrange(0, 21)}
                    if e["c2"] < 0:
                        e["c2"] = 0
                ev.append(e)
            else:
                ev.append(rand_event(rng, ver, R, C, True))
        s = scn(ver, with_dim(ev, rng), rng.random() < .85, rng.random() < .5)
        s["probe"] = [[r, c] for r in range(hi + 1) for c in range(len(C) + 1)]
        s["opt"]["xfd"] = [rng.randrange(2) for _ in range(21)]
        out.append(s)
    return out


def beyond(ctx):
    """Style indexes up to the 12-bit row limit and wide column spans."""
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(60, 600)):
        ver = rng.choice([80, 70, 50, 40, 30])
        nxf = rng.choice([21, 300, 1000, 4000]) if ver >= 50 else rng.choice([21, 200])
        ev = []
        for r in range(rng.randrange(1, 5)):
            ev.append({"op": "row", "r": r, "xf": rng.choice([-1, nxf - 1, rng.randrange(nxf)])})
        ev.append({"op": "col", "c1": rng.randrange(0, 100), "c2": rng.choice([200, 255, 256]), "xf": rng.randrange(nxf)})
        for _k in range(6):
            ev.append({"op": "num", "r": rng.randrange(5), "c": rng.randrange(256), "xf": rng.choice([nxf - 1, rng.randrange(nxf)]),
                       "v": [0x3FF0, 0, 0, 0]})
        s = scn(ver, ev, True, rng.random() < .5)
        s["opt"]["xfd"] = [0] * nxf
        s["probe"] = [[rng.randrange(6), rng.randrange(256)] for _ in range(40)] + [[e["r"], e["c"]] for e in ev if e["op"] == "num"]
        out.append(s)
    return out


def extended(ctx):
    """Version 2.1: a style index that does not fit the cell's six bits comes
    from the IXFE record before it, which holds until the next one."""
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(250, 3000)):
        nxf = rng.choice([30, 64, 100, 300])
        known = rng.random() < .85      # is there an IXFE record to defer to
        ev = [{"op": "ixfe", "xf": rng.randrange(nxf)}] if known else []
        for _k in range(rng.randrange(2, 14)):
            k = rng.random() if known else rng.uniform(.2, 1)
            if k < .2:
                ev.append({"op": "ixfe", "xf": rng.choice([nxf - 1, 63 % nxf, rng.randrange(nxf)])})
            elif k < .3:
                e = {"op": "row", "r": rng.randrange(4), "xf": rng.choice([-1, rng.randrange(nxf), min(63, nxf - 1)])}
                if rng.random() < .4:   # the short form has the cell's six bits only
                    e["short"] = True
                    e["xf"] = min(e["xf"], 62)
                    if known and e["xf"] >= 0 and rng.random() < .5:
                        e["viaixfe"] = True
                ev.append(e)
            elif k < .4:
                ev.append({"op": "coldef", "c": rng.randrange(4), "xfs": [rng.randrange(min(nxf, 63)) for _ in range(rng.randrange(1, 3))]})
            else:
                e = rand_event(rng, 21, range(4), range(4), True)
                if "xf" in e and e["op"] not in ("row", "col"):
                    if known and rng.random() < .65:
                        e["viaixfe"] = True
                    else:
                        e["xf"] = rng.randrange(min(nxf, 63))
                ev.append(e)
        s = scn(21, ev, True, rng.random() < .5)
        s["opt"]["xfd"] = [rng.randrange(2) for _ in range(nxf)]
        s["probe"] = [[r, c] for r in range(4) for c in range(4)]
        out.append(s)
    return out


def check(ctx):
    hists = ctx.model_check("GridMC", "GridXf", tag="S")
    sc = []
    for i, h in enumerate(hists):
        s = scn(80, h, True, i % 2 == 1)
        s["probe"] = [[r, c] for r in range(4) for c in range(4)]
        sc.append(s)
    ctx.validate("model-behaviours", "TraceGrid", sc, sheetev.run)
    ctx.validate("hierarchy", "TraceGrid", hierarchy(ctx), sheetev.run)
    ctx.validate("random", "TraceGrid", randoms(ctx), sheetev.run)
    ctx.validate("beyond", "TraceGrid", beyond(ctx), sheetev.run)
    ctx.validate("extended", "TraceGrid", extended(ctx), sheetev.run)
