"""C19: column widths and window settings (spec: Layout, LayoutMC, TraceLayout)."""
import layout
import itertools

WANT = ["widths", "defcolwidth", "standardwidth", "window_flags", "first_visible", "gridline_colour", "gridline_rgb",
        "cached_zoom", "scl", "zoom", "pane", "default_row", "visibility", "cells_untouched"]
STAGES = {k: (layout.run, "TraceLayout") for k in ("model-behaviours", "random", "permutations")}


def event(rng, ver):
    ops = ["col", "col", "defcol", "std", "drh", "pane", "w2"]
    if ver >= 40:
        ops += ["scl", "scl", "gcw"]
    if ver < 30:
        ops = ["w2b2", "defcol", "pane", "colw"]
    op = rng.choice(ops)
    if op == "col":
        c1 = rng.choice([0, 1, 2, 7, 8, 254])
        return {"op": op, "c1": c1, "c2": rng.choice([c1, c1 + 1, 255, 256]), "w": rng.randrange(65536), "xf": 15, "flags": 2}
    if op == "colw":
        return {"op": op, "c1": 3, "c2": 9, "w": rng.randrange(65536)}
    if op in ("defcol", "std"):
        return {"op": op, "w": rng.choice([0, 8, 10, rng.randrange(65536)])}
    if op == "gcw":
        return {"op": op, "on": sorted(rng.sample(range(256), rng.choice([0, 1, 100, 256]))) if rng.random() < .5 else
                sorted(rng.sample([0, 1, 2, 3, 5, 7, 8, 31, 32, 100, 254, 255], 5))}
    if op == "drh":
        return {"op": op, "h": rng.randrange(65536), "o": rng.randrange(16)}
    if op == "pane":
        return {"op": op, "v": rng.randrange(65536), "h": rng.randrange(65536), "hf": rng.randrange(65536),
                "vf": rng.randrange(256), "a": rng.randrange(4), "pad": rng.choice([0, 1])}
    if op == "scl":
        return {"op": op, "num": rng.choice([1, 3, 10, 39, 40, 41, 399, 400, 401, 65535, 0]), "den": rng.choice([0, 1, 4, 10, 99, 100, 101, 400])}
    if op == "w2":
        z = lambda: rng.choice([0, 1, 9, 10, 11, 60, 75, 100, 399, 400, 401, 65535])
        if ver >= 80:
            return {"op": "w2", "o": rng.randrange(4096), "fr": rng.randrange(65536), "fc": rng.randrange(256),
                    "gi": rng.choice([64, 8, 10, 63]), "p": z(), "n": z()}
        return {"op": "w2old", "o": rng.randrange(4096), "fr": rng.randrange(16384), "fc": rng.randrange(256),
                "rgb": rng.choice([[0, 0, 0], [255, 255, 255], [rng.randrange(256) for _ in range(3)], [192, 192, 192], [128, 0, 0]])}
    return {"op": "w2b2", "f": [rng.choice([0, 1]) for _ in range(5)], "fr": rng.randrange(16384), "fc": rng.randrange(256),
            "auto": rng.randrange(2), "rgb": [rng.randrange(256) for _ in range(3)]}


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("LayoutMC", "LayoutMC_widths", tag="S") + ctx.model_check("LayoutMC", "LayoutMC_window", tag="S")
    if not ctx.thorough:
        docs = rng.sample(docs, min(len(docs), 2500))
    ctx.validate("model-behaviours", "TraceLayout", [layout.scn(rng, d["ver"], i % 8 != 0, d["ev"], WANT) for i, d in enumerate(docs)],
                 layout.run)
    out = []
    for _ in range(ctx.n(3500, 40000)):
        ver = rng.choice([80, 80, 80, 70, 50, 40, 30, 21])
        ev = [event(rng, ver) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
        s = layout.scn(rng, ver, rng.random() < .8, ev, WANT)
        if ver >= 50 and rng.random() < .15:
            s["pal"] = [[rng.randrange(256) for _ in range(3)] for _ in range(56)]
        out.append(s)
    ctx.validate("random", "TraceLayout", out, layout.run)
    perms = []
    for ver in (80, 70, 40, 30):
        for _ in range(ctx.n(6, 40)):
            kinds = {}
            for _k in range(12):
                e = event(rng, ver)
                kinds.setdefault(e["op"], e)
            ev = list(kinds.values())[:4]
            for p in itertools.permutations(ev):
                perms.append(layout.scn(rng, ver, True, list(p), WANT))
    ctx.validate("permutations", "TraceLayout", perms, layout.run)
