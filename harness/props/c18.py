"""C18: ranges and layout records (spec: Layout, TraceLayout)."""
import layout

WANT = ["merged", "row_label_ranges", "col_label_ranges", "horizontal_page_breaks", "vertical_page_breaks", "rowinfo",
        "colinfo", "cells_untouched", "default_row"]
STAGES = {k: (layout.run, "TraceLayout") for k in ("random", "bits", "twins")}


def rng_range(rng):
    a, c = rng.choice([0, 0, 1, rng.randrange(65536), 65535]), rng.choice([0, 1, rng.randrange(256), 255])
    return [a, min(65536, a + rng.choice([1, 1, 2, 300])), c, min(256, c + rng.choice([1, 2, 5, 256]))]


def small_range(rng):
    a, c = rng.randrange(12), rng.randrange(12)
    return [a, a + rng.randrange(1, 4), c, c + rng.randrange(1, 4)]


def event(rng, ver):
    ops = ["hbr", "vbr"] + (["merge", "merge", "labels"] if ver >= 80 else []) + \
        (["row", "row", "row", "col", "col", "drh"] if ver >= 30 else ["row2", "row2", "colw", "coldef"])
    op = rng.choice(ops)
    if op == "merge":
        return {"op": op, "rs": [small_range(rng) for _ in range(rng.choice([0, 1, 2, 3]))]}
    if op == "labels":
        return {"op": op, "rl": [rng_range(rng) for _ in range(rng.choice([0, 1, 2]))],
                "cl": [rng_range(rng) for _ in range(rng.choice([0, 1, 2]))]}
    if op in ("hbr", "vbr"):
        return {"op": op, "b": [[rng.randrange(65536), rng.randrange(256), rng.choice([255, 65535, rng.randrange(256)])]
                                for _ in range(rng.choice([0, 1, 2, 5]))]}
    if op == "row":
        return {"op": op, "r": rng.choice([rng.randrange(6), rng.randrange(16384), 16383, 16384, 65535] if ver < 80 else
                                          [rng.randrange(6), rng.randrange(65536), 65535]),
                "h": rng.randrange(65536), "bits": [rng.randrange(65536), rng.randrange(65536)]}
    if op == "row2":
        return {"op": op, "r": rng.choice([rng.randrange(6), 16383]), "h": rng.randrange(65536),
                "xf": rng.choice([-1, 0, 5, 20]), "long": rng.randrange(2)}
    if op == "col":
        c1 = rng.choice([0, 1, rng.randrange(256), 255, 256])
        return {"op": op, "c1": c1, "c2": rng.choice([c1, c1, min(256, c1 + 3), 255, 256, 0, 257, 300]),
                "w": rng.randrange(65536), "xf": rng.randrange(65536), "flags": rng.randrange(65536), "pad": rng.choice([0, 1, 2])}
    if op == "colw":
        c1 = rng.randrange(256)
        return {"op": op, "c1": c1, "c2": rng.choice([c1, min(255, c1 + 2), 255, 0]), "w": rng.randrange(65536)}
    if op == "coldef":
        n = rng.randrange(1, 4)
        return {"op": op, "c": rng.randrange(0, 257 - n), "xfs": [rng.randrange(21) for _ in range(n)]}
    if op == "drh":
        return {"op": op, "h": rng.randrange(65536), "o": rng.randrange(16)}


def check(ctx):
    rng = ctx.rng
    ctx.model_check("LayoutMC", "LayoutMC_widths", tag="S")
    out = []
    for _ in range(ctx.n(4000, 40000)):
        ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21])
        ev = [event(rng, ver) for _ in range(rng.choice([1, 2, 3, 5, 9]))]
        out.append(layout.scn(rng, ver, rng.random() < .8, ev, WANT))
    ctx.validate("random", "TraceLayout", out, layout.run)
    bits = []
    for ver in (80, 50, 30):
        for half in (0, 1):
            for k in range(16):
                for base in (0, 0xFFFF):
                    b = [base, base]
                    b[half] ^= 1 << k
                    bits.append(layout.scn(rng, ver, True, [{"op": "row", "r": 2, "h": 1 << k, "bits": b},
                                                           {"op": "row", "r": 3, "h": 0xFFFF ^ 1 << k, "bits": b}], WANT))
                    bits.append(layout.scn(rng, ver, True, [{"op": "col", "c1": k, "c2": k + 1, "w": 1 << k, "xf": base ^ 1 << k,
                                                            "flags": base ^ 1 << k}], WANT))
    ctx.validate("bits", "TraceLayout", bits, layout.run)
    # several rows (columns) whose records differ in one bit, in any order: nothing is shared between them
    twins = []
    for _ in range(ctx.n(300, 4000)):
        ver = rng.choice([80, 80, 50, 30, 21])
        ev = []
        if ver >= 30:
            b = dict(op="row", h=rng.randrange(65536), bits=[rng.randrange(65536), rng.randrange(65536)])
            for r in rng.sample(range(40), rng.randrange(2, 12)):
                e = dict(b, r=r, bits=list(b["bits"]))
                k = rng.randrange(49)
                if k < 16:
                    e["h"] ^= 1 << k
                elif k < 48:
                    e["bits"][k // 16 - 1] ^= 1 << k % 16
                ev.append(e)
        else:
            b = dict(op="row2", h=rng.randrange(65536), xf=rng.choice([-1, 0, 5]), long=rng.randrange(2))
            for r in rng.sample(range(40), rng.randrange(2, 8)):
                ev.append(rng.choice([dict(b, r=r), dict(b, r=r, h=b["h"] ^ 1 << rng.randrange(16)), dict(b, r=r, xf=rng.choice([-1, 0, 1, 5, 20]))]))
        if rng.random() < .5 and ver >= 30:
            c = dict(op="col", w=rng.randrange(65536), xf=rng.randrange(65536), flags=rng.randrange(65536), pad=2)
            for x in rng.sample(range(256), 3):
                k = rng.choice(["w", "xf", "flags"])
                ev.append(dict(c, c1=x, c2=x, **{k: c[k] ^ 1 << rng.randrange(16)}))
        twins.append(layout.scn(rng, ver, True, ev, WANT))
    ctx.validate("twins", "TraceLayout", twins, layout.run)
