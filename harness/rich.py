"""Random workbooks that use every part of the format the reader understands.
A workbook is {ver, globals: [group], sheets: [{name, vis, type, groups}]}; a
group is a run of records that belong together, so anything may be put between
groups.  Everything is rebuilt from a seed."""
import random
import biff, core, sheetev, layout, sst
from biff import rec, P
from props import c03, c05, c15, c16, c17, c18

XFN = 21


def styles(rng, ver):
    """Fonts, formats and XFN styles (0-14 cell style parents), a palette, named styles."""
    out = []
    for i in range(rng.choice([4, 5, 6])):
        g = rec(c15.OPS["font"][min(ver // 10, 5)], c15.font(rng, ver))
        if ver < 30 and rng.random() < .5:
            g += rec(0x45, P("<H", rng.randrange(64)))
        out.append(g)
    n = rng.choice([1, 3, 6])
    keys = [164 + i for i in range(n)] if ver >= 50 else list(range(n))
    op = c15.OPS["format"][min(ver // 10, 5)]
    fm = []
    for k in keys:
        fm.append(rec(op, c15.fmt(rng, ver, k)))
    out += fm
    if ver != 20:
        for i in range(XFN):
            k = rng.choice(keys + ([0, 14, 1, 22] if ver >= 50 else []))
            out.append(biff.xf_rec(ver, k, rng.randrange(4), i < 15, None if i < 15 else rng.randrange(15)))
    if ver >= 30:
        out.append(rec(0x293, P("<HBB", 0x8000, 0, 255)))
        if rng.random() < .6:
            nm = "own %d" % rng.randrange(9)
            out.append(rec(0x293, P("<H", rng.randrange(15)) + biff.str16(ver, nm) if ver >= 80 else P("<HB", 0, len(nm)) + nm.encode()))
        if rng.random() < .5:
            k = 56 if ver >= 50 else 16
            out.append(rec(0x92, P("<H", k) + b"".join(bytes(c15.rb(rng, 3)) + b"\0" for _ in range(k))))
    return out


def text_units(rng, ver):
    n = rng.choice([0, 1, 3, 8, 30])
    pool = [65, 97, 32, 48, 0xE9, 0xFF] + ([0x100, 0x416, 0x4E2D, 0xD83D] if ver >= 80 else [])
    u = []
    for _ in range(n):
        x = rng.choice(pool)
        u += [0xD83D, 0xDE00] if x == 0xD83D else [x]
    return u


def cell_group(rng, ver, R, C, nsst, e=None):
    e = e or c03.rand_event(rng, ver, R, C, True)
    if e["op"] == "sst":
        if not nsst:
            return b""
        e["i"] = rng.randrange(nsst)
    elif e["op"] in ("label", "fstr", "rstring") and "t" in e:
        e["t"] = text_units(rng, ver) if rng.random() < .5 else e["t"]
    if "xf" in e and ver == 20:
        e["attr"] = [rng.randrange(4) << 6, 0, rng.randrange(256)]
    if ver == 20 and e["op"] in ("row",):
        e["xf"] = -1
    if e["op"] == "fstr":
        string_result(rng, ver, e)
    return sheetev.encode(ver, e)


def string_result(rng, ver, e):
    """A formula shared or entered as an array before its text; a text that goes on."""
    k = rng.random()
    r, c = e["r"], e["c"]
    if k < .2 and ver >= 50:
        e["mid"] = rec(0x4BC, P("<HHBBBBH", r, r, c, c, 0, 1, 3) + b"\x1e\1\0").hex()
    elif k < .4:
        e["mid"] = rec(0x221 if ver >= 30 else 0x21, P("<HHBBH", r, r, c, c, 0) + (bytes(4) if ver >= 50 else b"") + P("<H", 3) + b"\x1e\1\0").hex()
    u = core.units(e["t"]) if isinstance(e["t"], str) else e["t"]
    if rng.random() < .3 and len(u) > 2 and ver >= 30:
        n = len(u)
        cut = rng.randrange(1, n)
        if ver >= 80:
            w = int(any(x > 255 for x in u))
            e["parts"] = [(P("<H", n) + biff.flagged(u[:cut], w)).hex(), biff.flagged(u[cut:], w).hex()]
        else:
            b = bytes(u)
            e["parts"] = [(P("<H", n) + b[:cut]).hex(), b[cut:].hex()]


def layout_groups(rng, ver):
    out = []
    W = {80: ["w2"], 70: ["w2old"], 50: ["w2old"], 45: ["w2old"], 40: ["w2old"], 30: ["w2old"], 21: ["w2b2"], 20: ["w2b2"]}[ver]
    if rng.random() < .7:
        k = W[0]
        e = {"op": k, "fr": rng.randrange(9), "fc": rng.randrange(9), "rgb": [1, 2, 3]}
        if k == "w2":
            e.update(o=rng.randrange(4096), gi=rng.randrange(64), p=rng.choice([0, 50, 85]), n=rng.choice([0, 75, 120]))
        elif k == "w2old":
            e.update(o=rng.randrange(4096))
        else:
            e.update(f=[rng.randrange(2) for _ in range(5)], auto=1)
        out.append(layout.encode(ver, e))
    for e in ({"op": "pane", "v": 3, "h": 2, "hf": 5, "vf": 6, "a": 1}, {"op": "scl", "num": 3, "den": 4},
              {"op": "defcol", "w": 11}, {"op": "std", "w": 2500}, {"op": "gcw", "on": [1, 5, 255]}, {"op": "drh", "o": 3, "h": 300}):
        if e["op"] in ("scl",) and ver < 40 or e["op"] in ("std", "gcw") and ver < 40 or e["op"] == "drh" and ver < 30:
            continue
        if rng.random() < .4:
            out.append(layout.encode(ver, e))
    for _ in range(rng.randrange(4)):
        e = c18.event(rng, 21 if ver == 20 else ver)
        if e["op"] in ("row", "row2"):
            e["r"] %= 12
            if e["op"] == "row":
                e["bits"][1] = e["bits"][1] & 0xF000 | rng.randrange(XFN)
            if ver == 20:
                e["xf"] = -1
        if e["op"] == "col":
            e["xf"] = rng.randrange(XFN)
        if e["op"] in ("col", "colw"):
            e["c1"] = min(e["c1"], 255)
            e["c2"] = min(255, max(e["c1"], e["c2"]))
        if e["op"] == "coldef" and ver == 20:
            continue
        out.append(layout.encode(ver, e))
    return out


def drawing_groups(rng, ver):
    out = []
    if ver >= 80:
        for _ in range(rng.randrange(3)):
            l = c16.rand_link(rng)
            l["pad"] = 0
            l["range"] = [rng.randrange(6), 7, rng.randrange(6), 8]
            g = rec(0x1B8, c16.link(l))
            if rng.random() < .5:
                g += rec(0x800, P("<H", 0x800) + P("<HHHH", *l["range"]) + "tip".encode("utf-16-le") + b"\0\0")
            out.append(g)
        notes = []
        for oid in range(1, 1 + rng.randrange(3)):
            out.append(c17.encode(80, {"op": "obj", "b": c17.cmo(rng, 25, oid)}) + c17.encode(80, c17.rand_txo(rng)))
            notes.append(c17.encode(80, {"op": "note", "r": rng.randrange(9), "c": oid, "fl": rng.randrange(4), "id": oid,
                                         "a": core.units("auth%d" % oid), "wide": rng.randrange(2)}))
        out += notes
    else:
        for k in range(rng.randrange(3)):
            out.append(c17.encode(ver, {"op": "note", "r": k, "c": k, "parts": [list(b"note one "), list(b"tail")]}))
    return out


def sheet_groups(rng, ver, nsst):
    hi = rng.choice([3, 6, 12])
    R, C = list(range(hi)), list(range(rng.choice([3, 6])))
    cells = [cell_group(rng, ver, R, C, nsst) for _ in range(rng.choice([0, 2, 8, 20]))]
    if rng.random() < .6:
        cells = sorted(cells, key=lambda b: b[4:8])
    body = [x for x in cells + layout_groups(rng, ver) if x]
    if ver >= 80 and rng.random() < .3:
        import streams
        body += [streams.condfmt(rng) for _ in range(rng.choice([1, 1, 3]))]
    if ver >= 50 and rng.random() < .2:     # an embedded chart
        body.append(biff.bof(ver, 0x20) + rec(0x1002, bytes(16)) + (biff.bof(ver, 0x20) + biff.EOF if rng.random() < .3 else b"") + biff.EOF)
    if rng.random() < .7:
        rng.shuffle(body)
    return [biff.dim_rec(ver, 0, hi, 0, 6)] + body + drawing_groups(rng, ver)


SHEETS = ["Sheet1", "Data", "A long sheet name of 31 chars..", "x", "Q 1", "O'Neil", "2020"]


def name_groups(rng, ver, sheets):
    """Defined names whose formulas are plain."""
    if ver < 50:
        return []
    out = []
    ws = [i for i, s in enumerate(sheets) if s["type"] == 0]
    if ver >= 80:
        out.append(rec(0x1AE, P("<H", len(sheets)) + b"\x01\x04"))
        if rng.random() < .4:              # add-in functions
            out.append(rec(0x1AE, P("<HH", 1, 0x3A01)))
            for k in range(rng.choice([1, 2])):
                out.append(rec(0x23, P("<HI", 0, 0) + P("<BB", 5, 0) + b"FUN%02d" % rng.randrange(100) + P("<H", 2) + b"\x1c\x17"))
        if rng.random() < .3:              # another workbook
            n = rng.choice([1, 3, 600, 603, 901])
            out.append(biff.supbook(["Sheet number %d" % i for i in range(n)], rng.random() < .5, rng.choice([None, "mid"])))
        out.append(rec(0x17, P("<H", len(sheets)) + b"".join(P("<HHH", 0, i, i) for i in range(len(sheets)))))
    ext = 0
    if ver < 80 and rng.random() < .6:     # the sheets names may belong to
        ext = len(sheets)
        for x in sheets:
            out.append(rec(0x17, P("<BB", len(x["name"]), 3) + x["name"].encode()))
    for k in range(rng.randrange(4)):
        nm = "name%d" % k
        f = rng.choice([b"\x1e" + P("<H", 7), b"\x17\x02" + (b"\0" if ver >= 80 else b"") + b"ab", b"\x1d\x01"])
        if ver >= 80 and ws:
            i = rng.choice(ws)
            f = rng.choice([f, b"\x3a" + P("<HHH", i, 1, 1), b"\x3b" + P("<HHHHH", i, 0, 3, 0, 2)])
        out.append(biff.name_rec(ver, (b"\0" if ver >= 80 else b"") + nm.encode(), f, rng.choice([0, 0, 1]), rng.randrange(ext + 1),
                                 rng.choice([0, 0, 1]) if ver >= 80 else 0))
    return out


def book(seed, ver, types=None, names=True):
    rng = random.Random(seed)
    if ver < 50:
        sheets = [{"name": "Sheet 1", "vis": 0, "type": 0}]
    else:
        if types is None:
            types = [rng.choice([0, 0, 0, 2, 6] if rng.random() < .4 else [0]) for _ in range(rng.choice([1, 2, 3, 4]))]
            types[rng.randrange(len(types))] = 0
        nm = rng.sample(SHEETS, len(types))
        sheets = [{"name": nm[i], "vis": rng.choice([0, 0, 1, 2]), "type": t} for i, t in enumerate(types)]
    g = []
    if ver < 80:
        g.append(rec(0x42, P("<H", rng.choice([1252, 1252, 10000, 437]))))
    elif rng.random() < .5:
        g.append(rec(0x42, P("<H", 1200)))
    if rng.random() < .7:
        u = "user %d" % rng.randrange(99)
        g.append(rec(0x5C, (P("<HB", len(u), 0) + u.encode()).ljust(112, b" ") if ver >= 80 else (P("<B", len(u)) + u.encode()).ljust(32, b" ")))
    g.append(rec(0x22, P("<H", rng.randrange(2))))
    if rng.random() < .5 and ver >= 50:
        g.append(rec(0x8C, P("<HH", rng.choice([1, 49]), rng.choice([1, 44]))))
    st = styles(rng, ver)
    sup = name_groups(rng, ver, sheets) if names else []
    tail, nsst = [], 0
    if ver >= 80:
        nsst = rng.choice([0, 1, 4, 9])
        table = []
        for _ in range(nsst):
            u = text_units(rng, 80)
            runs = [[0, 1], [len(u) // 2, 2]] if len(u) > 1 and rng.random() < .4 else []
            table.append((u, runs, bytes(6) if rng.random() < .2 else None))
        p = rng.choice([0, .1, .4])
        tail.append(biff.cont(0xFC, sst.layout(rng, table, P("<II", nsst, nsst), lambda what, cur, n: rng.random() < p and cur > 0)))
    for s in sheets:
        s["groups"] = sheet_groups(rng, ver, nsst) if s["type"] == 0 else [rec(0x1002, bytes(16))]
        if s["type"] == 2:
            s["stype"] = 0x20
        elif s["type"] == 6:
            s["stype"] = 0x06
        elif s["type"] == 1:
            s["stype"] = 0x40
    if ver >= 50:
        gl = g + st + ([None] + sup if ver >= 80 else sup + [None]) + tail
    else:
        gl = g + st
    return {"ver": ver, "globals": gl, "sheets": sheets}


def stream(b, order=None, tail=b""):
    sheets = [dict(s, recs=s["groups"]) for s in b["sheets"]]
    return biff.build(b["ver"], b["globals"], sheets, order, tail)
