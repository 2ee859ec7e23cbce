"""C29: settings of the whole workbook (spec: Calendar, Settings, SettingsMC, TraceSettings)."""
import os, tempfile
import core, biff, sheetev, xlrd
from biff import rec, P
from core import units, unit_str

CODEC = {0: "latin-1", 1251: "cp1251", 1252: "cp1252", 932: "cp932", 10000: "mac_roman", 437: "cp437", 1200: "latin-1"}


def author(ver, e, codec):
    """WRITEACCESS: a fixed field padded with blanks, or just the text."""
    u, form = e["u"], e.get("form", 0)
    if ver >= 80:
        wide = any(x > 255 for x in u) or form & 1
        if form & 2:        # the padding belongs to the text
            n = 54 if wide else 109
            u = u + [32] * (n - len(u))
        d = P("<H", len(u)) + biff.flagged(u, wide)
        d += b" " * (112 - len(d))
        return rec(0x5C, d)
    b = unit_str(u).encode(codec)
    if form & 2:
        b = b.ljust(31)
    d = P("<B", len(b)) + b
    return rec(0x5C, d if form & 1 else d.ljust(32))


def setting(ver, e, codec):
    op = e["op"]
    if op == "mode":
        return rec(0x22, P("<H", e["v"]))
    if op == "country":
        return rec(0x8C, P("<HH", e["a"], e["b"]))
    if op == "page":
        return rec(0x42, P("<H", e["v"]))
    if op == "user":
        return author(ver, e, codec)
    return rec(*e["raw"]) if isinstance(e["raw"][1], bytes) else rec(e["raw"][0], bytes(e["raw"][1]))


def paged(s, at):
    """Text of other records comes after the code page."""
    return max([i + 1 for i, e in enumerate(e for e in s["ev"] if e["at"] == at) if e["op"] == "page"] or [0])


def data(s):
    ver = s["ver"]
    page = next((e["v"] for e in s["ev"] if e["op"] == "page"), 0)
    codec = CODEC[page]
    styles = biff.base_styles(ver, [0] * 15 + [1])
    hdr = [setting(ver, e, codec) for e in s["ev"] if e["at"] == "h"]
    n = s["nsheets"]
    sheets = []
    for i in range(n):
        recs = [setting(ver, e, codec) for e in s["ev"] if e["at"] == "s" and e.get("sheet", 0) == i]
        pre = recs[:max(s["after"], paged(s, "s"))] if ver < 45 else recs
        body = [biff.dim_rec(ver, 0, 9, 0, 1)] + (styles if ver <= 45 else [])
        for r, c in enumerate(s["dates"]):
            if c["sheet"] != i:
                continue
            v = c["day"] + c["q"] / 4
            if ver < 30:
                body.append(rec(3, P("<HH3Bd", r, 0, 15 if ver == 21 else 0, 1, 0, v)))
            elif c["q"] == 0 and c["day"] < 1 << 29 and c.get("rk"):
                body.append(rec(0x27E, P("<HHHi", r, 0, 15, c["day"] << 2 | 2)))
            else:
                body.append(rec(0x203, P("<HHHd", r, 0, 15, v)))
        sheets.append({"name": "S%d" % i, "recs": pre + body + recs[len(pre):]})
    if ver == 45:
        return biff.build4w(hdr, sheets)
    if ver < 45:
        return biff.build(ver, hdr, sheets)
    k = min(max(s["split"], paged(s, "h")), len(hdr))
    return biff.build(ver, hdr[:k] + styles + [None] + hdr[k:], sheets)


def run(s):
    books = []
    try:
        with tempfile.TemporaryDirectory() as tmp:
            for i, b in enumerate(s["books"]):
                d = data(b)
                kw = dict(formatting_info=b["fmt"], on_demand=b["od"], logfile=sheetev._Null())
                if b["file"]:
                    p = os.path.join(tmp, "f%d.xls" % i)
                    with open(p, "wb") as f:
                        f.write(d)
                    books.append(xlrd.open_workbook(p, **kw))
                else:
                    books.append(xlrd.open_workbook(file_contents=d, **kw))
            out = {}
            for k in s["look"]:
                b, w = s["books"][k], books[k]
                o = {"types": [], "tuples": [], "datetimes": []}
                for i in range(b["nsheets"]):
                    w.sheet_by_index(i)
                    if w.on_demand and b.get("unload"):
                        w.unload_sheet(i)
                for r, c in enumerate(b["dates"]):
                    sh = w.sheet_by_index(c["sheet"])
                    cell = sh.cell(r, 0)
                    o["types"].append(core.norm(cell.ctype))
                    o["tuples"].append(core.norm(list(xlrd.xldate_as_tuple(cell.value, w.datemode))))
                    t = xlrd.xldate_as_datetime(cell.value, w.datemode)
                    o["datetimes"].append([t.year, t.month, t.day, t.hour, t.minute, t.second + t.microsecond])
                u = w.user_name
                o.update(mode=core.norm(w.datemode), countries=core.norm(list(w.countries)), page=core.norm(w.codepage),
                         user=units(u) if isinstance(u, str) else core.norm(u))
                out[k] = o
            for w in books:
                w.release_resources()
            return {"books": [out[k] for k in range(len(books))]}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceSettings") for k in ("model-behaviours", "random")}


def days(rng, mode):
    lo, hi = (61, 2958465) if mode == 0 else (1, 2957003)
    return rng.choice([lo, hi, lo + 1, 366, 1461, 1462, 1523, 36525, 36526, rng.randrange(lo, 80000), rng.randrange(lo, hi + 1)])


def dress(rng, b):
    """Dates and the way of opening."""
    ver = b["ver"]
    mode = next((e["v"] for e in b["ev"] if e["op"] == "mode"), 0)
    b.setdefault("nsheets", 1 if ver < 45 else rng.choice([1, 2, 3]))
    b["dates"] = [{"day": days(rng, mode), "q": rng.randrange(4), "sheet": rng.randrange(b["nsheets"]), "rk": rng.randrange(2)}
                  for _ in range(rng.choice([1, 2, 5]))]
    b.update(fmt=rng.random() < .5, od=rng.random() < .4, file=rng.random() < .2, unload=rng.randrange(2), split=rng.randrange(8), after=rng.randrange(8))
    return b


NAMES = ["A", "Bob Builder", "x" * 30, "", " lead", "two  blanks", "tab\t", "M\u00fcller", "\u0416\u0436", "\u65e5\u672c", "no\u00a0break", "end\u00a0",
         "\u4e2d\u6587\u3000", "A\U0001F600", "\u20ac", "b\x00", "\x1f", "."] + [" " * n for n in (1, 9, 10, 12, 13)] + ["n" * n for n in (9, 10, 13)]


def rand_book(rng):
    ver = rng.choice([20, 21, 30, 40, 45, 50, 70, 80, 80, 80])
    at = "s" if ver < 45 else "h"
    b = {"ver": ver, "nsheets": 1 if ver < 45 else rng.choice([1, 2, 3])}
    ev = []
    page = 0
    if rng.random() < .7:
        page = 1200 if ver >= 80 else rng.choice([1251, 1252, 932, 10000, 437])
        ev.append({"op": "page", "v": page})
    mode = rng.choice([None, 0, 1, 1])
    if mode is not None:
        ev += [{"op": "mode", "v": mode}] * rng.choice([1, 1, 2])
    if rng.random() < .75:
        a, c = rng.choice([(1, 1), (1, 49), (49, 1), (81, 65535), (0, 44), (7, 0), (rng.randrange(65536), rng.randrange(65536))])
        ev += [{"op": "country", "a": a, "b": c}] * rng.choice([1, 1, 2])
    if rng.random() < .8:
        while 1:
            w = rng.choice(NAMES) + rng.choice(["", "", " ", "   "])
            try:
                if ver >= 80 or len(w.encode(CODEC[page])) <= 31:
                    break
            except UnicodeError:
                pass
        ev += [{"op": "user", "u": units(w), "form": rng.randrange(4)}] * rng.choice([1, 1, 2])
    for _ in range(rng.choice([0, 0, 2, 6])):
        op = rng.choice([0x12, 0x13, 0x19, 0x3D, 0x40, 0x8D, 0xE1, 0xC1, 0x161, 0xDA, 0x1B7])
        ev.append({"op": "other", "raw": [op, [rng.randrange(256) for _ in range(rng.choice([0, 2, 18]))]]})
    rng.shuffle(ev)
    ev = [dict(e, at=at) for e in ev]
    if ver >= 45:               # said again among the records of sheets, where only some of it counts
        for e in list(ev):
            if (e["op"] == "country" or e["op"] == "mode" and ver == 45) and rng.random() < .4:
                ev.append(dict(e, at="s", sheet=rng.randrange(b["nsheets"])))
                if rng.random() < .3 and ver < 80:
                    ev.remove(e)
        if ver < 80 and rng.random() < .2 and not any(e["op"] == "country" for e in ev):
            ev += [{"op": "country", "a": 1, "b": 33, "at": "s", "sheet": i} for i in range(b["nsheets"])]
        ev.sort(key=lambda e: (e["at"], e.get("sheet", 0)))
        if ver >= 50 and rng.random() < .3:     # a calendar record inside a sheet says nothing
            ev.append({"op": "mode", "v": rng.randrange(2), "at": "s", "sheet": b["nsheets"] - 1})
    b["ev"] = ev
    return b


def model_book(rng, d):
    ev = [dict(e) for e in d["ev"]]
    for e in ev:
        if e["op"] == "page" and d["ver"] >= 80:
            e["v"] = 1200
        if e["op"] == "user":
            e["form"] = rng.randrange(4)
    return {"ver": d["ver"], "ev": ev}


def scn(rng, books):
    books = [dress(rng, b) for b in books]
    for b in books:
        if b["ver"] >= 50:
            m = [e["v"] for e in b["ev"] if e["op"] == "mode" and e["at"] == "h"]
            for c in b["dates"]:
                c["day"] = days(rng, m[0] if m else 0)
    look = list(range(len(books)))
    rng.shuffle(look)
    return {"books": books, "look": look}


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("SettingsMC", tag="S")
    rng.shuffle(docs)
    docs = docs[:ctx.n(1500, 100000)]
    ctx.validate("model-behaviours", "TraceSettings", [scn(rng, [model_book(rng, d)]) for d in docs], run)
    ctx.validate("random", "TraceSettings", [scn(rng, [rand_book(rng) for _ in range(rng.choice([1, 1, 2, 3]))]) for _ in range(ctx.n(1500, 20000))], run)
