"""C06: shared strings under every split into CONTINUE records (spec: Text, TextMC, TraceText)."""
import sst, biff

STAGES = {k: (sst.run, "TraceText") for k in ("model-behaviours", "random", "large")}


def rand_units(rng, n):
    k = rng.random()
    out = []
    while len(out) < n:
        x = rng.random()
        if k < .35:
            out.append(rng.choice([65, 97, 32, 0xE9, 0xFF, 0x80, 10, 1]))
        elif k < .5:
            out.append(rng.choice([0x100, 0x20AC, 0xFFFD, 0x4E2D]))
        elif x < .15 and len(out) + 2 <= n:
            out += [rng.randrange(0xD800, 0xDC00), rng.randrange(0xDC00, 0xE000)]
        else:
            out.append(rng.choice([65, 0xE9, 0x100, 0x3042, 0xD7FF, 0xE000, 0xFFFF, 0]))
    return out


def rand_table(rng, n, maxlen):
    t = []
    for _ in range(n):
        u = rand_units(rng, rng.choice([0, 1, 2, 3, rng.randrange(maxlen + 1)]))
        runs = [[rng.randrange(65536), rng.randrange(65536)] for _ in range(rng.choice([0, 0, 0, 1, 2, 5]))]
        ph = None if rng.random() < .7 else bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 8, 30])))
        t.append((u, runs, ph))
    return t


def scn(rng, table, parts, fmt, after=""):
    cells = list(range(len(table)))
    if rng.random() < .3:
        rng.shuffle(cells)
    return {"parts": [list(p) for p in parts], "n": len(table), "fmt": fmt, "cells": cells,
            "want": [[u, r] for u, r, _ in table], "col": rng.choice([0, 0, 3, 255])}


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(2500, 30000)):
        t = rand_table(rng, rng.choice([1, 2, 4, 8]), rng.choice([3, 10, 40]))
        p = rng.choice([0, .02, .1, .3, .6, 1])
        only = rng.choice([None, None, "head", "chars", "runs", "phon"])
        cut = lambda kind, used, need: used > 0 and rng.random() < p and only in (None, kind)
        parts = sst.layout(rng, t, biff.P("<II", len(t), len(t)), cut)
        s = scn(rng, t, parts, rng.random() < .7)
        # a total count that differs from the unique count, and records after the table
        if rng.random() < .3:
            s["parts"][0][0:4] = list(biff.P("<I", rng.randrange(100000)))
        if rng.random() < .3:
            s["after"] = (biff.rec(0xFF, b"\x08\x00") + biff.rec(0x868, bytes(8))).hex()
        out.append(s)
    return out


def large(ctx):
    """Realistic record sizes: parts filled up to a limit."""
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(24, 200)):
        lim = rng.choice([8224, 8224, 8228, 2080, 500])
        t = rand_table(rng, rng.choice([3, 6]), rng.choice([200, 2000]))
        for _k in range(rng.choice([1, 2])):
            t.insert(rng.randrange(len(t) + 1), (rand_units(rng, rng.choice([lim - 3, lim, 4096, 8193, rng.randrange(1000, 16000)])),
                                                 [[k, k] for k in range(rng.choice([0, 0, 3, 700]))], None))
        if rng.random() < .5:
            t.insert(rng.randrange(len(t)), (rand_units(rng, 5), [], bytes(rng.randrange(256) for _ in range(lim * 2 + rng.choice([-40, 0, 7, 300])))))
        cut = lambda kind, used, need: used + need > lim
        parts = sst.layout(rng, t, biff.P("<II", len(t), len(t)), cut)
        out.append(scn(rng, t, parts, True))
    return out


def check(ctx):
    docs = ctx.model_check("TextMC", None if not ctx.thorough else "TextMC_deep", tag="S", timeout=2000)
    sc = [{"parts": d["parts"], "n": d["n"], "cells": list(range(d["n"])), "fmt": True} for d in docs]
    if len(sc) > 40000:
        sc = ctx.rng.sample(sc, 40000)
    ctx.validate("model-behaviours", "TraceText", sc, sst.run)
    out = randoms(ctx)
    for s in ctx.rng.sample(out, ctx.n(12, 60)):
        s["pad"] = ctx.rng.choice([256, 2000, 32768, 65535, 65536, 65540, 100000])
    ctx.validate("random", "TraceText", out, sst.run)
    ctx.validate("large", "TraceText", large(ctx), sst.run, limit=20)
