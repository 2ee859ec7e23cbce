"""C21: recognition of file versions, and one logical book in every version
(spec: Version over Grid, VersionMC, TraceVersion)."""
import random
import biff, core, ole, sheetev, xlrd
from biff import rec, P

VERS = [20, 21, 30, 40, 45, 50, 70, 80]
OPS = [0x0009, 0x0209, 0x0409, 0x0809]


def convert(rng, ver, e):
    """A logical cell in the record form used by this version."""
    e = dict(e)
    if ver == 20:
        e["attr"] = [0, e["xf"] - 15, 0]
        e["xf"] = 0
        return sheetev.encode(ver, e)
    if ver >= 80 and e["op"] == "label" and "i" in e and rng.random() < .7:
        return sheetev.encode(ver, dict(e, op="sst"))
    if ver >= 50 and e["op"] == "label" and rng.random() < .3:
        return sheetev.encode(ver, dict(e, op="rstring", runs=[[0, 1]]))
    return sheetev.encode(ver, e)


def stream(s, ver, lead=None):
    rng = random.Random("version/%r/%d" % (s["seed"], ver))
    cp = [rec(0x42, P("<H", 1252))] if ver < 80 else []
    st = biff.base_styles(ver, s["opt"]["xfd"])
    sheets = []
    for sh in s["sheets"]:
        recs = [convert(rng, ver, e) for e in sh["ev"]]
        if rng.random() < .5:
            recs.insert(0, biff.dim_rec(ver, 0, 9, 0, 9))
        d = {"name": sh["name"], "recs": recs}
        if ver >= 50 and s.get("sub"):
            d["lead"] = bytes.fromhex(rng.choice(s["sub"]))
        sheets.append(d)
    if ver == 45:
        for d in sheets:
            d["recs"] = cp + st + d["recs"]
        return biff.build4w(cp, sheets, lead=lead)
    if ver >= 50:
        g = cp + st + [None] + ([biff.sst_simple([t if isinstance(t, str) else core.unit_str(t) for t in s["opt"]["sst"]])] if ver >= 80 else [])
        return biff.build(ver, g, sheets, lead=lead)
    return biff.build(ver, cp + st, sheets[:1], lead=lead)


def read(s, data):
    if s.get("ole"):
        data = ole.simple(s["ole"], data, s["seed"])
    b = xlrd.open_workbook(file_contents=data, formatting_info=s["opt"]["fmt"], ragged_rows=s["opt"]["ragged"], logfile=sheetev._Null())
    sh = []
    for x in b.sheets():
        o = sheetev.project(x)
        sh.append([o["nrows"], o["ncols"], o["cells"]] + ([o["holes"]] if o["holes"] else []))
    return {"biff": core.norm(b.biff_version), "nsheets": core.norm(b.nsheets), "names": [sheetev.token(x) for x in b.sheet_names()], "sheets": sh}


def run(s):
    try:
        if s["t"] == "lead":
            lead = bytes(s["lead"])
            if s["ver"]:
                d = stream(s, s["ver"], lead)
            else:
                d = lead + bytes(s["rest"])
            return {"books": [read(s, d)]}
        return {"books": [read(s, stream(s, v)) for v in s["vers"]]}
    except xlrd.XLRDError as e:
        return {"refused": str(e)[:200]}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceVersion") for k in ("model-behaviours", "first-records", "junk", "alike")}
TEXTS = ["", "a", "Total", "x" * 200, "caf\u00e9", "\u00fcber\u00df \u00a4"]


def num(rng):
    return rng.choice([[0, 0, 0, 0], [0x3FF0, 0, 0, 0], [0xBFF8, 0, 0, 0], [0x40E3, 0x8800, 0, 0],
                       [rng.randrange(0x3F00, 0x4100) | rng.getrandbits(1) << 15] + [rng.getrandbits(16) for _ in range(3)]])


def cells(rng, opt, n):
    R = rng.choice([[0, 1, 2, 3], [0, 5, 16383], [7]])
    C = rng.choice([[0, 1, 2, 3], [0, 9, 255], [4]])
    ev, used = [], set()
    for _ in range(n):
        r, c = rng.choice(R), rng.choice(C)
        if (r, c) in used and rng.random() < .8:
            continue
        used.add((r, c))
        op = rng.choice(["num", "num", "int", "label", "label", "bool", "err", "blank", "fnum", "fstr", "fbool", "ferr"])
        e = {"op": op, "r": r, "c": c, "xf": rng.choice([15, 15, 16])}
        if op in ("num", "fnum"):
            e["v"] = num(rng)
        elif op == "int":
            e["v"] = rng.choice([0, 1, 255, 256, 65535, rng.getrandbits(16)])
        elif op in ("label", "fstr"):
            i = rng.randrange(len(opt["sst"]))
            e["t"] = opt["sst"][i]
            if op == "label":
                e["i"] = i
        elif op in ("bool", "fbool"):
            e["v"] = rng.randrange(2)
        elif op in ("err", "ferr"):
            e["v"] = rng.choice([0, 7, 15, 23, 29, 36, 42])
        ev.append(e)
    return ev


def book(rng, n=None):
    opt = {"fmt": rng.random() < .5, "ragged": rng.random() < .3, "xfd": [0] * 16 + [1],
           "sst": [t if t.isascii() else core.units(t) for t in TEXTS]}
    sheets = [{"name": w, "ev": cells(rng, opt, rng.choice([0, 1, 6, 12]) if n is None else n)}
              for w in rng.sample(["A", "Data 1", "S-2", "x" * 31], rng.choice([1, 1, 2, 4]))]
    s = {"opt": opt, "sheets": sheets, "seed": rng.getrandbits(30), "ver": 0, "rest": [10, 0, 0, 0], "lead": []}
    if rng.random() < .3:
        s["ole"] = rng.choice(["Workbook", "Book"])
    if rng.random() < .3:
        # the version in a worksheet's own header is not looked at
        s["sub"] = [(rec(o, P("<HHHH", v, 0x10, 0x0DBB, y) + bytes(k)) if o == 0x0809 else rec(o, P("<HHH", v, 0x10, 0))).hex()
                    for o, v, y, k in [(0x0809, 0x0600, 1997, 8), (0x0809, 0x0500, 1996, 0), (0x0809, 0x0500, 1993, 0),
                                       (0x0409, 0x0400, 0, 0), (0x0809, 0x0700, 2000, 8)]]
    return s


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("VersionMC", None if ctx.tier == "quick" else "VersionMC_deep", tag="S")
    scns = []
    for d in docs:
        s = book(rng, 6)
        s.update(t="lead", lead=d["lead"], ver=0)
        if d["cut"]:
            s["rest"] = []
        elif d["v"]:
            scns.append(s)
            s = dict(s, ver=20 if d["v"] == 21 and rng.random() < .4 else d["v"])
        scns.append(s)
    ctx.validate("model-behaviours", "TraceVersion", scns, run)
    scns = []
    for _ in range(ctx.n(1500, 20000)):
        s = book(rng, 4)
        op = rng.choice(OPS)
        v = rng.choice([0, 7, 0x200, 0x300, 0x400, 0x500, 0x500, 0x500, 0x600, 0x600, rng.getrandbits(16)])
        k = rng.choice([5, 5, 16, 16, 16, 0x100, 0x20, 0x40, 6, rng.getrandbits(16)])
        n = rng.choice([4, 6, 8, 8, 16, 16, rng.randrange(24), 20, 21, rng.getrandbits(16)])
        f = P("<HHHH", v, k, rng.choice([2412, 3218, 3321, 3515, 2411, 2413, rng.getrandbits(16)]), rng.choice([0, 1992, 1993, 1994, 1995, 1997, rng.getrandbits(16)]))
        f = (f + bytes(rng.getrandbits(8) for _ in range(16)))[:n]
        s.update(t="lead", lead=list(P("<HH", op, n) + f), ver=rng.choice([0, 0, rng.choice(VERS)]))
        if rng.random() < .05:
            s["lead"] = s["lead"][:rng.randrange(len(s["lead"]))]
            s.update(rest=[], ver=0)
        scns.append(s)
    ctx.validate("first-records", "TraceVersion", scns, run)
    scns = []
    for _ in range(ctx.n(400, 4000)):
        s = book(rng, 0)
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 30, 600])
        op = rng.choice([rng.getrandbits(16), rng.choice(OPS) ^ 1 << rng.randrange(16), 0x0A, 0x0508])
        b = (P("<HH", op, rng.choice([4, 8, 16, rng.getrandbits(16)])) + bytes(rng.getrandbits(8) for _ in range(596)))[:n]
        if b[:4] == b"PK\3\4":
            continue
        s.update(t="lead", lead=list(b[:24]), rest=list(b[24:]), ver=0)
        s.pop("ole", 0) if not n else 0
        scns.append(s)
    ctx.validate("junk", "TraceVersion", scns, run)
    scns = []
    for _ in range(ctx.n(400, 6000)):
        s = book(rng)
        s.update(t="alike", vers=VERS)
        scns.append(s)
    ctx.validate("alike", "TraceVersion", scns, run)
