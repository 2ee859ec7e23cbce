"""C17: cell notes (spec: Notes, NotesMC, TraceNotes)."""
import core, biff, sheetev
from biff import rec, P
from props.c09 import text8, str8


def encode(ver, e):
    op = e["op"]
    if op == "obj":
        return rec(0x5D, bytes(e["b"]))
    if op == "txo":
        if ver < 80:
            return b""
        nruns = sum(len(p) for p in e["runs"])
        out = rec(0x1B6, P("<HH6xHHH", e.get("fl", 0x212), 0, e["n"], nruns, 0) + bytes(e.get("fmla", 2)))
        for p in (e["text"] if e["n"] else []) + e["runs"]:
            out += rec(0x3C, bytes(p))
        return out
    if op == "note":
        if ver < 80:
            parts = [bytes(p) for p in e["parts"]]
            out = rec(0x1C, P("<HHH", e["r"], e["c"], sum(map(len, parts))) + parts[0])
            for p in parts[1:]:
                out += rec(0x1C, P("<HHH", 0xFFFF, 0, len(p)) + p)
            return out
        w = e.get("wide", 0) or (1 if any(x > 255 for x in e["a"]) else 0)
        b = b"".join(P("<H", x) for x in e["a"]) if w else bytes(e["a"])
        return rec(0x1C, P("<HHHHHB", e["r"], e["c"], e["fl"], e["id"], len(e["a"]), w) + b + bytes(e.get("pad", 1)))
    if op == "cell":
        return sheetev.encode(ver, {"op": "num", "r": e["r"], "c": e["c"], "xf": 15, "v": [0x3FF0, 0, 0, 0]})
    return bytes.fromhex(e["raw"])


def run(s):
    import xlrd
    ver = s["opt"]["ver"]
    recs = [biff.dim_rec(ver, 0, 3, 0, 3)] + [encode(ver, e) for e in s["ev"]]
    g = biff.base_styles(ver, [0] * 21)
    if s.get("cp"):
        g = [rec(0x42, P("<H", s["cp"]))] + g
    data = biff.build(ver, g, [{"name": "S", "recs": recs}])
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["fmt"], logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        out, own = [], True
        for (r, c), n in sorted(sh.cell_note_map.items()):
            own = own and (n.rowx, n.colx) == (r, c)
            out.append([r, c, core.units(n.author), core.norm(n.show), core.norm(n.row_hidden), core.norm(n.col_hidden),
                        core.units(n.text), core.norm(n.rich_text_runlist)])
        return {"notes": out, "ownpos": own,
                "cells": [[r, c] for r in range(sh.nrows) for c in range(sh.ncols) if sh.cell_type(r, c) == 2]}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceNotes") for k in ("model-behaviours", "random", "old-versions")}


def scn(ev, ver, fmt, cp=0):
    cells = sorted({(e["r"], e["c"]) for e in ev if e["op"] == "cell"})
    return {"ev": ev, "opt": {"ver": ver}, "fmt": fmt, "cells": [list(x) for x in cells], "cp": cp}


def cmo(rng, ty, oid):
    b = P("<HHHHH", 0x15, 18, ty, oid, rng.randrange(65536) & 0xFEFF) + bytes(rng.randrange(256) for _ in range(12))
    for _ in range(rng.randrange(3)):
        ft = rng.choice([0x0D, 0x04, 0x07, 0x0A, 0x0C])
        n = 20 if ft == 0x0C else 22 if ft == 0x0D else rng.choice([0, 6, 12])
        b += P("<HH", ft, n) + bytes(rng.randrange(256) for _ in range(n))
    return list(b + (b"\0" * rng.choice([4, 4, 0, 8])))


def rand_txo(rng):
    n = rng.choice([0, 1, 2, 5, 30, 200])
    u = text8(rng, n)
    text = str8(rng, u, rng.choice([0, .1, .5])) if u else []
    runs = []
    if u:
        rs = sorted({0} | {rng.randrange(n + 1) for _ in range(rng.randrange(4))}) + rng.choice([[], [n], [n, n]])
        if rng.random() < .15:
            rs = rs[1:]        # the first letters have no run of their own
        for r in rs:
            q = list(P("<HHI", r, rng.randrange(20), rng.choice([0, 0xFFFFFFFF])))
            if runs and rng.random() < .7:
                runs[-1] += q
            else:
                runs.append(q)
    return {"op": "txo", "n": n, "text": text, "runs": runs, "fl": rng.randrange(65536), "fmla": rng.choice([0, 2, 6])}


def randoms(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(4000, 40000)):
        ids = rng.sample(range(1, 2000), 4)
        ev, known = [], []
        for oid in ids[:rng.randrange(1, 5)]:
            k = rng.random()
            if k < .75:
                ev.append({"op": "obj", "b": cmo(rng, 25, oid)})
                if rng.random() < .3:
                    ev.append({"op": "raw", "raw": rec(0xEC, bytes(8)).hex()})
                if rng.random() < .1:
                    ev.append({"op": "cell", "r": rng.randrange(3), "c": rng.randrange(3)})
                ev.append(rand_txo(rng))
                known.append(oid)
                if rng.random() < .15:   # a second text object owns no object
                    ev.append(rand_txo(rng))
            elif k < .85:                # text box of an antique object, or of none
                if rng.random() < .5:
                    ev.append({"op": "obj", "b": list(P("<IHH", 1, 7, oid) + bytes(20))})
                else:
                    ev.append({"op": "obj", "b": cmo(rng, 8, oid)})
                    ev.append({"op": "obj", "b": list(P("<HHHHH", 0x15, 10, 6, oid, 0) + bytes(4))})
                ev.append(rand_txo(rng))
            else:
                ev.append({"op": "obj", "b": cmo(rng, 8, oid)})
        order = list(known)
        rng.shuffle(order)
        for oid in order:
            if rng.random() < .85:
                n = {"op": "note", "r": rng.choice([0, 1, 2, 65535]), "c": rng.choice([0, 1, 255]), "fl": rng.randrange(65536),
                     "id": oid, "a": text8(rng, rng.choice([0, 1, 6, 20])), "pad": rng.choice([0, 1]), "wide": rng.randrange(2)}
                ev.append(n)
                if rng.random() < .2:
                    ev.append({"op": "cell", "r": rng.randrange(3), "c": rng.randrange(3)})
        if rng.random() < .2:
            ev.append({"op": "note", "r": 3, "c": 3, "fl": 0, "id": 2500, "a": [65], "pad": 1})
        out.append(scn(ev, 80, rng.random() < .5))
    return out


def olds(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(1500, 15000)):
        ver = rng.choice([70, 50, 40, 30, 21])
        cp = rng.choice([0, 1252, 932])
        enc = "iso-8859-1" if not cp else "cp%d" % cp
        alpha = "ab c\n" + ("\xe9\xfc" if cp != 932 else "\u3042\u65e5\uff71")
        ev = []
        for _k in range(rng.randrange(1, 5)):
            t = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 5, 40, 300])))
            b = t.encode(enc)
            parts, lo = [], 0
            step = rng.choice([1000, 7, 33, 2048])
            while lo < len(b):
                parts.append(list(b[lo:lo + step]))
                lo += step
            ev.append({"op": "note", "r": rng.choice([0, 1, 2, 16383]), "c": rng.choice([0, 1, 255]), "parts": parts or [[]], "u": core.units(t)})
            if rng.random() < .3:
                ev.append({"op": "cell", "r": rng.randrange(3), "c": rng.randrange(3)})
            if rng.random() < .3:
                ev.append({"op": "obj", "b": [rng.randrange(256) for _ in range(rng.choice([0, 3, 30]))]})
        out.append(scn(ev, ver, rng.random() < .5, cp))
    return out


def check(ctx):
    docs = ctx.model_check("NotesMC", tag="S")
    sc = [scn(h, 80, i % 2 == 0) for i, h in enumerate(docs)]
    if not ctx.thorough and len(sc) > 6000:
        sc = ctx.rng.sample(sc, 6000)
    ctx.validate("model-behaviours", "TraceNotes", sc, run)
    ctx.validate("random", "TraceNotes", randoms(ctx), run)
    ctx.validate("old-versions", "TraceNotes", olds(ctx), run)
