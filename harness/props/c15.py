"""C15: style tables (spec: Styles, StylesMC, TraceStyles)."""
import core, biff, sheetev
from biff import rec, P
from props.c05 import rand_fmt

OPS = {"font": {2: 0x31, 3: 0x231, 4: 0x231, 5: 0x31}, "format": {2: 0x1E, 3: 0x1E, 4: 0x41E, 5: 0x41E},
       "xf": {2: 0x43, 3: 0x243, 4: 0x443, 5: 0xE0}, "style": dict.fromkeys((2, 3, 4, 5), 0x293),
       "palette": dict.fromkeys((2, 3, 4, 5), 0x92), "efont": dict.fromkeys((2, 3, 4, 5), 0x45)}
XF = {"font": "font_index", "format": "format_key", "is_style": "is_style", "lotus": "lotus_123_prefix", "parent": "parent_style_index",
      "hor_align": "alignment.hor_align", "text_wrapped": "alignment.text_wrapped", "vert_align": "alignment.vert_align",
      "rotation": "alignment.rotation", "indent": "alignment.indent_level", "shrink": "alignment.shrink_to_fit",
      "direction": "alignment.text_direction", "cell_locked": "protection.cell_locked", "formula_hidden": "protection.formula_hidden",
      "fill": "background.fill_pattern", "pattern_colour": "background.pattern_colour_index",
      "background_colour": "background.background_colour_index"}
for _s in ("left", "right", "top", "bottom", "diag"):
    XF[_s + "_line"] = "border.%s_line_style" % _s
    XF[_s + "_colour"] = "border.%s_colour_index" % _s
for _s in ("diag_down", "diag_up"):
    XF[_s] = "border." + _s
for _s in ("format", "font", "alignment", "border", "background", "protection"):
    XF[_s + "_flag"] = "_%s_flag" % _s
FONT = ("font_index", "height", "bold", "italic", "underlined", "struck_out", "outline", "shadow", "colour_index", "weight", "escapement",
        "underline_type", "family", "character_set")


def get(o, path):
    for p in path.split("."):
        o = getattr(o, p, "missing")
    return core.norm(o)


def xf_proj(x, b):
    d = {k: get(x, v) for k, v in XF.items()}
    if d["lotus"] == "missing":
        d["lotus"] = 0
    p = x.parent_style_index
    d["parent_is_style"] = isinstance(p, int) and 0 <= p < len(b.xf_list) and bool(b.xf_list[p].is_style)
    return d


def text(x):
    return core.norm(x) if x is None or not isinstance(x, str) else x if x in STD else core.units(x)


STD = set()


def run(s):
    import xlrd
    ver = s["ver"]
    g = [rec(OPS[e["op"]][min(ver // 10, 5)], bytes(e["b"])) for e in s["ev"]]
    cells = []
    for i, a in enumerate(s["cells20"]):
        cells.append(rec(0x02, P("<HH", i // 100, i % 100) + bytes(a) + P("<H", i)))
    d = biff.build(ver, g, [{"name": "S", "recs": [biff.dim_rec(ver, 0, 1, 0, 1)] + cells}])
    try:
        b = xlrd.open_workbook(file_contents=d, formatting_info=True, logfile=sheetev._Null(), on_demand=s["od"])
        sh = b.sheet_by_index(0)
        fl = b.format_list
        fm = []
        for k, f in sorted(b.format_map.items()):
            idx = [i for i, x in enumerate(fl) if x is f]
            t = f.format_str
            fm.append([k, idx[-1] if idx else -1, core.norm(f.type), t if idx == [] else ""])
        o = {"fonts": [dict([(a, get(f, a)) for a in FONT], name=core.units(f.name)) for f in b.font_list],
             "formats": [[core.norm(f.format_key), core.norm(f.type), core.units(f.format_str)] for f in fl],
             "fmap": [[k, i, t, core.norm(x)] for k, i, t, x in fm],
             "xfs": [xf_proj(x, b) for x in b.xf_list],
             "styles": [[core.norm(v[0]), (n if v[0] else core.units(n)), core.norm(v[1])] for n, v in b.style_name_map.items()],
             "pal": core.norm(b.palette_record), "colours": [[k, core.norm(v)] for k, v in sorted(b.colour_map.items())],
             "cells20": [xf_proj(b.xf_list[sh.cell_xf_index(i // 100, i % 100)], b) for i in range(len(s["cells20"]))]}
        if any(x.xf_index != i for i, x in enumerate(b.xf_list)):
            o["err"] = "xf_index"
        return o
    except Exception as ex:
        return {"err": type(ex).__name__, "msg": str(ex)[:300]}


STAGES = {k: (run, "TraceStyles") for k in ("single-bits", "random")}


def rb(rng, n):
    k = rng.random()
    if k < .2:
        return bytearray(rng.choice([0, 255]) for _ in range(n))
    return bytearray(rng.randrange(256) for _ in range(n))


NAMES = ["Arial", "A", "x" * 255, "MS Sans Serif", "\xe9t\xe9", "\u5b8b\u4f53", "\ud83d\ude00z", "\u0100" * 255, "Z\xff", "", "Times ", " T", "\0"]


def name8(rng, ver):
    n = rng.choice(NAMES)
    if ver >= 80:
        u = core.units(n)[:255]
        if rng.random() < .5 or any(x > 255 for x in u):
            return bytes([len(u), 1]) + b"".join(P("<H", x) for x in u)
        return bytes([len(u), 0]) + bytes(u)
    b = n.encode("latin-1", "replace")
    return bytes([len(b)]) + b


def font(rng, ver):
    if ver >= 50:
        return bytes(rb(rng, 14)) + name8(rng, ver)
    return bytes(rb(rng, 6 if ver >= 30 else 4)) + name8(rng, ver)


def fmt(rng, ver, key):
    u = rand_fmt(rng, ver)
    if ver >= 80:
        if rng.random() < .4 or any(x > 255 for x in u):
            return P("<HH", key, len(u)) + b"\1" + b"".join(P("<H", x) for x in u)
        return P("<HH", key, len(u)) + b"\0" + bytes(u)
    u = bytes(u)
    return (P("<H", key) if ver >= 40 else b"") + bytes([len(u)]) + u


def fix_xf(ver, b, keys, n, rng=None):
    """Keep only what must be legal: a known format key and, in a cell style, an existing parent."""
    b = bytearray(b)
    key = keys[(b[2] + 256 * b[3] if ver >= 50 else b[1] if ver >= 30 else b[2] & 63) % len(keys)]
    if ver >= 50:
        b[2:4] = P("<H", key)
    elif ver >= 30:
        b[1] = key
    else:
        b[2] = b[2] & 0xC0 | key
        return bytes(b)
    o = 4 if ver != 40 else 2
    if ver == 30:
        style = b[2] & 4
        if not style:
            w = (b[4] + 256 * b[5]) & 15 | (b[5] * 16 + (b[4] >> 4)) % n << 4
            b[4:6] = P("<H", w)
    elif not b[o] & 4:
        w = (b[o] + 256 * b[o + 1])
        b[o:o + 2] = P("<H", w & 15 | (w >> 4) % n << 4)
    return bytes(b)


def book(rng, ver, xfs=None):
    ev = []
    for _ in range(rng.choice([0, 1, 3, 4, 5, 6, 9]) if xfs is None else 5):
        ev.append({"op": "font", "b": font(rng, ver)})
        if ver < 30 and rng.random() < .4:
            ev.append({"op": "efont", "b": bytes(rb(rng, 2))})
    if ver >= 50:
        own = [rng.choice([rng.randrange(164, 400), rng.randrange(0, 50), 65535]) for _ in range(rng.choice([0, 1, 4, 9]))]
        keys = own + list(range(0, 23)) + list(range(37, 50))
    else:
        own = list(range(rng.choice([1, 2, 7, 40] + [64, 65, 130, 250] * (ver >= 30 and rng.random() < .3))))
        keys = own
    f = [{"op": "format", "b": fmt(rng, ver, k)} for k in own]
    n = rng.choice([1, 2, 5, 16, 40])
    if ver == 20:
        x = []
    else:
        xs = xfs if xfs is not None else [rb(rng, {8: 20, 7: 16, 5: 16, 4: 12, 3: 12, 2: 4}[ver // 10]) for _ in range(n)]
        x = [{"op": "xf", "b": fix_xf(ver, b, keys, len(xs))} for b in xs]
    st, seen = [], set()
    if ver >= 30:
        for _ in range(rng.choice([0, 1, 4, 9])):
            xi = rng.randrange(4096)
            if rng.random() < .5:
                st.append({"op": "style", "b": P("<HBB", 0x8000 | xi, rng.randrange(10), rng.choice([0, 1, 6, 255]))})
            else:
                nm = rng.choice(["u", "u", " u"]) + rng.choice(["", "ser", "\xe9", "ser ", "\u5b8b"] if ver >= 80 else ["", "ser", "\xe9", "ser "]) + rng.choice(["", str(rng.randrange(4))])
                if ver >= 80:
                    u = core.units(nm)
                    w = any(c > 255 for c in u) or rng.random() < .3
                    b = P("<HHB", xi, len(u), w) + (b"".join(P("<H", c) for c in u) if w else bytes(u))
                else:
                    b = P("<HB", xi, len(nm)) + nm.encode("latin-1")
                st.append({"op": "style", "b": b})
    for _ in range(rng.choice([0, 0, 0, 1, 2]) if ver >= 30 else 0):     # a known writer's mistake
        st.insert(rng.randrange(len(st) + 1), {"op": "style", "b": bytes(4)})
    if ver >= 80 and rng.random() < .2:
        st.insert(rng.randrange(len(st) + 1), {"op": "style", "b": bytes(5)})
    pal = []
    if ver >= 30 and rng.random() < .5:
        k = 56 if ver >= 50 else 16
        k = k if rng.random() < .8 else rng.randrange(1, k + 1)
        pal = [{"op": "palette", "b": P("<H", k) + b"".join(bytes(rb(rng, 3)) + b"\0" for _ in range(k)) + bytes(rng.choice([0, 0, 0, 2, 4]))}]
    # any interleaving that keeps formats before styles
    lanes = [l for l in ([ev], [f + x] if rng.random() < .5 else [f, x]) for l in l]
    if len(lanes) == 3:
        lanes = [ev, f + x]
    lanes += [st, pal]
    if ver < 50:
        lanes[1] = lanes[1] + st       # the named styles follow the style records
        lanes[2] = []
    out = []
    lanes = [list(l) for l in lanes if l]
    while lanes:
        l = rng.choice(lanes)
        out.append(l.pop(0))
        # a colour record belongs to the font before it
        while l and l[0]["op"] == "efont":
            out.append(l.pop(0))
        lanes = [l for l in lanes if l]
    for e in out:
        e["b"] = list(e["b"])
    c20 = []
    if ver == 20:
        nf = len(own)
        for _ in range(rng.choice([1, 5, 60])):
            c20.append([rng.randrange(4) << 6, rng.randrange(4) << 6 | rng.randrange(nf), rng.randrange(256)])
    return {"ver": ver, "ev": out, "cells20": c20, "od": rng.random() < .5}


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("StylesMC", tag="S")
    out = []
    for v in (80, 70, 50, 40, 30, 21):
        xs = [bytearray(d["b"]) for d in docs if d["ver"] == v]
        for i in range(0, len(xs), 80):
            out.append(book(rng, v, xs[i:i + 80]))
    xs = [d["b"] for d in docs if d["ver"] == 20]
    for b in xs:
        b[0] &= 0xC0
        b[1] = b[1] & 0xC0
    out.append(dict(book(rng, 20), cells20=xs))
    ctx.validate("single-bits", "TraceStyles", out, run)
    ctx.validate("random", "TraceStyles", [book(rng, v) for v in rng.choices([80, 80, 70, 50, 40, 30, 21, 20], k=ctx.n(1200, 12000))], run)
