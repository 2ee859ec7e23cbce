"""C16: hyperlinks (spec: Links, LinksMC, TraceLinks)."""
import core, biff, sheetev
from biff import rec, P
from props.c09 import text8

G0 = bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B")
GU = bytes.fromhex("E0C9EA79F9BACE118C8200AA004BA90B")
GF = bytes.fromhex("0303000000000000C000000000000046")
SER = bytes.fromhex("795881F43B1D7F48AF2C825DC4852763")


def nul(u):
    return P("<I", len(u) + 1) + b"".join(P("<H", x) for x in u) + b"\0\0"


def u16(u):
    return b"".join(P("<H", x) for x in u)


def link(l):
    """l: abstract link -> record payload."""
    op = l["bits"]
    d = P("<HHHH", *l["range"]) + G0 + b"\x02\0\0\0" + P("<I", op)
    if op & 0x14:
        d += nul(l["desc"])
    if op & 0x80:
        d += nul(l["target"])
    if op & 1 and not op & 0x100:
        if l["kind"] == "url":
            body = u16(l["path"]) + b"\0\0"
            if l.get("ext"):
                body += SER + P("<II", 0, l["ext"])
            d += GU + P("<I", len(body)) + body
        else:
            sp = bytes(l["short"]) + b"\0"
            d += GF + P("<HI", l["up"], len(sp)) + sp + b"\xff\xff\xad\xde" + bytes(20)
            if l.get("path"):
                w = u16(l["path"])
                d += P("<IIH", len(w) + 6, len(w), 3) + w
            else:
                d += P("<I", 0)
    elif op & 1:
        d += nul(l["path"])
    if op & 8:
        d += nul(l["mark"])
    return d + bytes(l.get("pad", 0))


def U(v):
    return core.units(v) if isinstance(v, str) else {"bytes": list(v)} if isinstance(v, bytes) else core.norm(v)


def run(s):
    import xlrd
    recs = [biff.dim_rec(80, 0, 3, 0, 3)]
    for e in s["ev"]:
        if e["op"] == "link":
            b = bytes(e["b"])
            last = b[:8]
            recs.append(rec(0x1B8, b))
        elif e["op"] == "tip":
            recs.append(rec(0x800, P("<H", 0x800) + last + u16(e["u"]) + b"\0\0"))
        else:
            recs.append(sheetev.encode(80, {"op": "num", "r": e["r"], "c": e["c"], "xf": 15, "v": [0x3FF0, 0, 0, 0]}))
    data = biff.build(80, biff.base_styles(80, [0] * 21), [{"name": "S", "recs": recs}])
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["fmt"], logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        ids = {id(h): i + 1 for i, h in enumerate(sh.hyperlink_list)}
        look = []
        for r, c in s["look"]:
            h = sh.hyperlink_map.get((r, c))
            look.append([r, c, 0 if h is None else ids.get(id(h), -1)])
        return {"links": [{"range": core.norm([h.frowx, h.lrowx, h.fcolx, h.lcolx]), "type": U(h.type) if h.type is None else h.type,
                           "path": U(h.url_or_path), "desc": U(h.desc), "target": U(h.target), "mark": U(h.textmark),
                           "tip": U(h.quicktip)} for h in sh.hyperlink_list],
                "nmap": len(sh.hyperlink_map), "look": look,
                "cells": [[r, c] for r in range(sh.nrows) for c in range(sh.ncols) if sh.cell_type(r, c) == 2]}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceLinks") for k in ("model-behaviours", "random")}


def scn(ev, fmt, hi=4):
    cells = sorted({(e["r"], e["c"]) for e in ev if e["op"] == "cell"})
    look = {(r, c) for r in range(hi) for c in range(hi)}
    for e in ev:
        if e["op"] == "link":
            b = bytes(e["b"])
            r1, r2, c1, c2 = [b[i] | b[i + 1] << 8 for i in (0, 2, 4, 6)]
            look |= {(r1, c1), (r2, c2), (r1, c2), (r2 + 1, c2), (r2, c2 + 1)}
    return {"ev": ev, "fmt": fmt, "cells": [list(x) for x in cells], "look": sorted(map(list, look))}


def rand_link(rng):
    kind = rng.choice(["url", "url", "file", "file", "unc", "book", "book"])
    T = lambda: text8(rng, rng.choice([0, 1, 3, 10, 40]))
    bits = rng.choice([0, 0x10, 0x14, 0x14, 0x04])
    if rng.random() < .2:
        bits |= 0x80
    if rng.random() < .4:
        bits |= 8
    l = {"kind": kind, "desc": T(), "target": T(), "mark": T(), "pad": rng.choice([0, 0, 0, 2])}
    r1, c1 = rng.choice([0, 1, 2, 65530]), rng.choice([0, 1, 2, 250])
    l["range"] = [r1, min(65535, r1 + rng.choice([0, 0, 1, 3])), c1, min(255, c1 + rng.choice([0, 0, 1, 3]))]
    if rng.random() < .02:
        l["range"] = [5, 5, 0, 255]
    if kind == "url":
        bits |= 1 | rng.choice([0, 2, 2])
        l["path"] = [x or 1 for x in text8(rng, rng.choice([1, 5, 20, 60]))]
        l["ext"] = rng.choice([0, 0, 1, 0x81])
    elif kind == "file":
        bits |= 1 | rng.choice([0, 2])
        l["up"] = rng.choice([0, 0, 1, 3])
        l["short"] = [rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 8, 30]))]
        if l["up"] == 0 and rng.random() < .6:
            l["path"] = text8(rng, rng.choice([1, 5, 30]))
    elif kind == "unc":
        bits |= 0x103
        l["path"] = text8(rng, rng.choice([1, 5, 30]))
    else:
        bits |= 8
    l["bits"] = bits
    return l


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(4000, 40000)):
        ev = []
        for _k in range(rng.randrange(1, 6)):
            ev.append({"op": "link", "b": list(link(rand_link(rng)))})
            if rng.random() < .4:
                ev.append({"op": "tip", "u": text8(rng, rng.choice([0, 1, 12, 60]))})
            if rng.random() < .3:
                ev.append({"op": "cell", "r": rng.randrange(4), "c": rng.randrange(4)})
        out.append(scn(ev, rng.random() < .5))
    return out


def check(ctx):
    docs = ctx.model_check("LinksMC", tag="S")
    ctx.validate("model-behaviours", "TraceLinks", [scn(h, i % 2 == 0) for i, h in enumerate(docs)], run)
    ctx.validate("random", "TraceLinks", randoms(ctx), run)
