"""C30: the command-line reporter (spec: Report, ReportMC, TraceReport)."""
import glob, os, re, shutil, tempfile
import biff, cli, core, ole
from biff import rec, P
from core import units, unit_str, f64

ENC = {1252: "cp1252", 1251: "cp1251", 1200: "latin-1", 0: "latin-1"}


def text8(ver, u, enc):
    return biff.flagged(u) if ver >= 80 else unit_str(u).encode(enc)


def cell_rec(ver, c, enc):
    h = P("<HHH", c["r"], c["c"], c["xf"])
    k = c["k"]
    if k == "num" or k == "date":
        return rec(0x203, h + P("<d", number(c)))
    if k == "text":
        return rec(0x204, h + P("<H", len(c["v"])) + text8(ver, c["v"], enc))
    if k in ("bool", "err"):
        return rec(0x205, h + P("<BB", c["v"], k == "err"))
    return rec(0x201, h)


def number(c):
    if c["k"] == "num":
        return float(c["num"])
    return (c["day"] + c["q"] / 4) * (-1 if c["neg"] else 1)


def data(b):
    ver = b["ver"]
    enc = ENC.get(b["cp"], "latin-1")
    g = []
    if b["cp"]:
        g.append(rec(0x42, P("<H", b["cp"])))
    if b["mode"]:
        g.append(rec(0x22, P("<H", b["mode"])))
    if b["countries"] != [0, 0]:
        g.append(rec(0x8C, P("<HH", *b["countries"])))
    if b["user"]:
        u = b["user"]
        g.append(rec(0x5C, (P("<H", len(u)) if ver >= 80 else P("<B", len(u))) + text8(ver, u, enc) + b" " * 20))
    styles = biff.base_styles(ver, [0] * 16 + [1, 0], 0 if b["fonts"] else 5)
    f = []
    for x in b["fonts"]:
        n = text8(ver, x["name"], enc)
        f.append(rec(0x31, P("<HHHHHBBBB", x["height"], x["italic"] * 2 + x["struck_out"] * 8, x["colour_index"], x["weight"], x["escapement"],
                             x["underline_type"], x["family"], x["character_set"], 0) + P("<B", len(x["name"])) + n))
    styles = f + styles
    names = []
    for x in b["names"]:
        fl = (x["hidden"] | x["func"] << 1 | x["vbasic"] << 2 | x["macro"] << 3 | x["complex"] << 4 | x["funcgroup"] << 6 | x["binary"] << 12)
        names.append(biff.name_rec(ver, text8(ver, x["name"], enc), b"\x1e\x07\x00", fl, sheet=x["excel_sheet_index"]))
    sheets = []
    for sh in b["sheets"]:
        recs = [] if ver >= 50 else styles if ver == 45 else []
        if "tall" in sh:
            recs = recs + [b"".join(rec(0x203, P("<HHHd", r, 0, 15, float(r))) for r in range(sh["tall"]))]
        recs = recs + [cell_rec(ver, c, enc) for c in sh["cells"]]
        if sh["cl"] or sh["rl"]:
            one = lambda l: P("<H", len(l)) + b"".join(P("<HHHH", q[0], q[1] - 1, q[2], q[3] - 1) for q in l)
            recs = recs + [rec(0x15F, one(sh["rl"]) + one(sh["cl"]))]
        n = text8(ver, sh["name"], enc)
        sheets.append({"name": unit_str(sh["name"]), "recs": recs, "rawname": P("<B", len(sh["name"])) + n})
    if ver == 45:
        return biff.build4w(g, sheets, enc)
    d = biff.build(ver, g + styles + [None] + names if ver >= 50 else g + styles, sheets)
    return ole.simple(b["ole"], d, 7) if b.get("ole") else d


BAD = [lambda: b"", lambda: b"hello\n", lambda: b"PK\3\4" + bytes(40), lambda: ole.SIG + bytes(600) if hasattr(ole, "SIG") else b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + bytes(600),
       lambda: biff.build(80, [rec(0x2F, bytes(6))], [{"name": "S", "recs": []}]), lambda: biff.build(80, [], [{"name": "S", "recs": []}])[:30],
       lambda: b"\xff" * 700, lambda: b"<?xml version='1.0'?>", lambda: bytes(2000)]


def run(s):
    d = tempfile.mkdtemp(prefix="cli_")
    o = s["o"]
    try:
        paths = []
        for i, f in enumerate(s["files"]):
            p = os.path.join(d, "f%d%s" % (i, s["ext"]))
            paths.append(p)
            if f["kind"] != "missing":
                with open(p, "wb") as h:
                    h.write(BAD[f["bad"] % len(BAD)]() if f["kind"] == "bad" else data(f))
        argv = ["-f1"] if o["fmt"] and s["cmd"] != "xfc" else []
        if o["rag"]:
            argv.append("-r")
        if o["od"]:
            argv.append("-d")
        if s["notime"]:
            argv.append("-t")
        if s["mmap"] >= 0 or s["notime"]:
            argv.append("-m%d" % s["mmap"])
        if s["gc"]:
            argv.append("-g%d" % s["gc"])
        if o["one"]:
            argv += ["-s", str(o["onei"]) if o["one"] == "n" else unit_str(o["onename"])]
        log = os.path.join(d, "log.txt")
        if s["tolog"]:
            argv += ["-l", log]
        pats = [re.sub(r"f(\d+)", r"[f]\1", os.path.basename(p)) if s["glob"] == 1 else os.path.basename(p) for p in paths]
        perm = list(range(1, len(paths) + 1))
        if s["glob"] == 2 and any(f["kind"] != "missing" for f in s["files"]):
            pats = ["f*"]       # in the order the operating system lists them
            perm = [paths.index(p) + 1 for p in glob.glob(os.path.join(d, "f*"))]
        try:
            out, err, code = cli.run_cli(argv + [s["cmd"]] + [os.path.join(d, p) for p in pats])
        except BaseException as e:
            if isinstance(e, core.Hang):
                raise
            return {"perm": perm, "err": type(e).__name__, "msg": str(e)[:200]}
        ev, timing = cli.parse(out, paths, o)
        if any("tall" in x for f in s["files"] if f["kind"] == "book" for x in f["sheets"]):
            ev = cli.runs(ev)
        dumped = [e for e in cli.parse(err, paths, o, "body")[0] if e[0] == "font"]
        fonts = [e for e in ev if e[0] == "font"] + dumped
        ev = [e for e in ev if e[0] != "font"]
        logs = []
        if s["tolog"] and os.path.exists(log):
            for m in re.finditer(r"^=== File: (.*) ===$", open(log).read(), re.M):
                logs.append(paths.index(m.group(1)) + 1 if m.group(1) in paths else -1)
        return {"perm": perm, "lines": ev, "fonts": fonts, "code": code, "timing": timing, "log": logs}
    finally:
        shutil.rmtree(d, ignore_errors=True)


STAGES = {k: (run, "TraceReport") for k in ("model-behaviours", "random", "tall")}

TEXTS = ["a", "", "it's", 'say "x"', "a, xfx: 3", "line\nbreak", "tab\t", "back\\slash", "caf\u00e9", "\u00ff", "cell A1: type=1, data: 'x'", "=== File: x ==="]
WIDE = ["\u4e2d\u6587", "\u2028x", "\U0001F600", "\u0416"]
NUMS = [0, 1, -1, 1.5, 1e300, 1e-300, 0.1, 65536, 2 ** 53, -2.5e-5, 123456789.125, 1 / 3]


def rand_cell(rng, ver, r, c):
    k = rng.choice(["num", "num", "text", "text", "bool", "err", "blank", "date", "date"])
    x = {"r": r, "c": c, "k": k, "xf": rng.choice([15, 17])}
    if k == "num":
        x["num"] = repr(float(rng.choice(NUMS)))
        x["v"] = x["raw"] = f64(float(x["num"]))
    elif k == "text":
        x["v"] = x["raw"] = units(rng.choice(TEXTS + WIDE * (ver >= 80)))
    elif k == "bool":
        x["v"] = x["raw"] = rng.randrange(2)
    elif k == "err":
        x["v"] = x["raw"] = rng.choice([0, 7, 15, 23, 29, 36, 42, 42, 43, 200, rng.randrange(256)])
    elif k == "date":
        x["xf"] = 16
        x["neg"] = rng.random() < .08
        x["day"] = rng.choice([0, 1, 59, 60, 61, 366, 1462, 36525, 2957003, 2957004, 2958465, 2958466, rng.randrange(61, 60000), rng.randrange(61, 60000)])
        x["q"] = rng.randrange(4)
        x["raw"] = f64(number(x))
    return x


def rand_sheet(rng, ver, j, labels):
    nr, nc = rng.choice([(0, 0), (1, 1), (1, 3), (2, 2), (3, 4), (4, 1), (5, 3), (6, 30)])
    dens = rng.choice([.2, .5, 1])
    cells = [rand_cell(rng, ver, r, c) for r in range(nr) for c in range(nc) if rng.random() < dens]
    rng.shuffle(cells)
    name = rng.choice(["Sheet", "My data", "it's", "caf\u00e9", "x; nrows = 3; ncols = 9"] + ["\u4e2d\u6587"] * (ver >= 80)) + str(j)
    sh = {"name": units(name[-31:]), "cells": cells, "cl": [], "rl": []}
    solid = [c for c in cells if c["k"] != "blank"]
    if labels and solid and ver >= 80:
        R, C = max(c["r"] for c in solid) + 1, max(c["c"] for c in solid) + 1
        for k in ("cl", "rl"):
            for _ in range(rng.choice([0, 1, 2])):
                a, b = rng.randrange(R), rng.randrange(C)
                over = rng.choice([0, 0, 0, 2])
                sh[k].append([a, rng.randrange(a, R + over) + 1, b, rng.randrange(b, C + over) + 1])
    return sh


def rand_book(rng, cmd):
    ver = rng.choice([80, 80, 80, 70, 50, 40, 45, 30])
    cp = 1200 if ver >= 80 else rng.choice([1252, 1252, 0])
    b = {"kind": "book", "ver": ver, "cp": cp, "codepage": cp or "None", "mode": rng.choice([0, 0, 1]), "ole": rng.choice(["", "", "Workbook"]) if ver >= 50 else "",
         "countries": rng.choice([[0, 0], [1, 49], [81, 1]]), "user": units(rng.choice(["", "Me", "A \"B\" C", "caf\u00e9"])), "fonts": [], "names": []}
    b["logs"] = ver < 80 and cp == 0
    n = 1 if ver < 50 else rng.choice([1, 1, 2, 3])
    b["sheets"] = [rand_sheet(rng, ver, j, cmd == "labels") for j in range(n)]
    if ver <= 40:
        b["sheets"][0]["name"] = units("Sheet 1")
    if cmd == "fonts" and ver >= 50:
        k = rng.choice([1, 2, 4])
        for _ in range(k):
            w = rng.choice([100, 400, 700, 1000])
            b["fonts"].append({"name": units(rng.choice(["Arial", "Courier New", "x"])), "height": rng.randrange(20, 8000), "weight": w, "italic": rng.randrange(2),
                               "struck_out": rng.randrange(2), "underline_type": rng.choice([0, 1, 2, 33]), "family": rng.randrange(6), "character_set": rng.choice([0, 1, 2, 204]),
                               "escapement": rng.randrange(3), "colour_index": rng.choice([8, 10, 0x7FFF])})
    if cmd in ("names", "name_dump") and ver >= 50:
        for i in range(rng.choice([0, 1, 3])):
            sc = rng.randrange(n + 1) if ver >= 80 else 0
            b["names"].append({"name": units(rng.choice(["foo", "Bar_1", "na.me"]) + str(i)), "hidden": rng.randrange(2), "func": 0, "vbasic": 0, "macro": 0,
                               "complex": rng.randrange(2), "builtin": 0, "funcgroup": rng.choice([0, 0, 5]), "binary": 0, "name_index": i, "scope": sc - 1,
                               "excel_sheet_index": sc})
    return b


def lean(b, cmd):
    """What the specification looks at."""
    if cmd == "names":
        b["names"] = [dict(x) for x in b["names"]]
    return b


def scn(rng, cmd, files, o):
    return {"cmd": cmd, "files": files, "o": o, "notime": rng.random() < .5, "tolog": rng.random() < .6, "mmap": rng.choice([-1, 0, 1]), "gc": rng.choice([0, 0, 0, 1, 2]),
            "glob": rng.choice([0, 0, 0, 1, 1, 2, 2]), "ext": rng.choice([".xls", "", ".dat", " x.xls"])}


def model(rng, d):
    o = dict(d["o"], onei=0, onename=[])
    if d["cmd"] != "xfc" and rng.random() < .5:
        o["fmt"] = False
    fs = []
    for f in d["files"]:
        f = dict(f)
        if f["kind"] == "bad":
            f["bad"] = rng.randrange(len(BAD))
        if f["kind"] == "book":
            f.update(cp=1200, logs=False)
        fs.append(f)
    return scn(rng, d["cmd"], fs, o)


CMDS = ["show"] * 4 + ["2rows", "3rows", "ov", "bench", "hdr", "xfc", "labels", "labels", "names", "name_dump", "fonts"]


def randoms(rng):
    cmd = rng.choice(CMDS + ["oops"] * (rng.random() < .3))
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        files.append({"kind": "missing"} if k < .08 else {"kind": "bad", "bad": rng.randrange(len(BAD))} if k < .2 else rand_book(rng, cmd))
    o = {"fmt": cmd == "xfc" or rng.random() < .5, "rag": rng.random() < .5, "od": rng.random() < .4, "one": "", "onei": 0, "onename": []}
    books = [f for f in files if f["kind"] == "book"]
    if cmd in ("show", "2rows", "3rows", "ov") and books and rng.random() < .3:
        b = rng.choice(books)
        if len(books) == 1 or rng.random() < .5:
            i = rng.randrange(min(len(x["sheets"]) for x in books))
            o.update(one="n", onei=i)
            nm = b["sheets"][i]["name"]
            if len(books) == 1 and rng.random() < .6:
                o.update(one="s", onename=nm)
    if cmd == "fonts":
        o["fmt"] = any(f["fonts"] for f in books) and all(f["fonts"] for f in books)
    return scn(rng, cmd, files, o)


def tall(rng, n, cmd):
    b = rand_book(rng, cmd)
    b.update(ver=80, cp=1200, codepage=1200, logs=False, names=[], fonts=[])
    b["user"], b["sheets"] = units("Me"), [{"name": units("Tall"), "tall": n, "cells": [], "cl": [], "rl": []}]
    o = {"fmt": rng.random() < .3, "rag": rng.random() < .5, "od": rng.random() < .5, "one": "", "onei": 0, "onename": []}
    return scn(rng, cmd, [b], o)


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("ReportMC", tag="S")
    rng.shuffle(docs)
    docs = docs[:ctx.n(700, 100000)]
    ctx.validate("model-behaviours", "TraceReport", [model(rng, d) for d in docs], run)
    ctx.validate("random", "TraceReport", [randoms(rng) for _ in range(ctx.n(1200, 12000))], run)
    ns = [(65536, "show"), (65535, "show"), (65536, "3rows"), (65534, "show")] + [(rng.randrange(65000, 65537), rng.choice(["show", "2rows"])) for _ in range(ctx.n(8, 60))]
    ctx.validate("tall", "TraceReport", [tall(rng, n, c) for n, c in ns], run, limit=120)
