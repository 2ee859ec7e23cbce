"""Workbooks with defined names: records from a scenario, and what the reader
shows of the names.  Scenario: {ver, sheets: [{n: units, t: type}], dim: [[rows,
cols] per worksheet], sup: ["own"|"addin"|"ext"|"dde"], addin, extnames: [units], refs: [[sup, first, last]] (8),
ext: [{t, u}] (5/7), defs: [...], deco: {br, bc, r1c1}, od}."""
import struct
import biff, core, ole, xlrd
from biff import rec, P
from core import units, unit_str
from xlrd import formula as F

FLAGS = ("hidden", "func", "vbasic", "macro", "complex", "builtin", "funcgroup", "binary")
SC = 64
STYPE = {0: 0x10, 1: 0x40, 2: 0x20, 6: 0x06}


def addr(ver, r, c, rr, cr):
    if ver >= 80:
        return P("<HH", r & 0xFFFF, c & 0xFF | rr << 15 | cr << 14)
    return P("<HB", r & 0x3FFF | rr << 15 | cr << 14, c & 0xFF)


def cells(ver, t):
    if t["one"]:
        return addr(ver, t["r1"], t["c1"], t["rr1"], t["cr1"])
    a = addr(ver, t["r1"], t["c1"], t["rr1"], t["cr1"])
    b = addr(ver, t["r2"], t["c2"], t["rr2"], t["cr2"])
    return a[:2] + b[:2] + a[2:] + b[2:]


def token(ver, t):
    k, cl = t["t"], t.get("cls", 1) << 5
    if k == "int":
        return P("<BH", 0x1E, t["n"])
    if k == "num":
        return P("<Bd", 0x1F, t["n"] / SC)
    if k == "raw":
        return P("<B", 0x1F) + b"".join(P("<H", w) for w in t["w"])
    if k == "str":
        u = t["u"]
        return P("<BB", 0x17, len(u)) + (biff.flagged(u, t.get("wide") or any(x > 255 for x in u)) if ver >= 80 else unit_str(u).encode("cp1252"))
    if k == "bool":
        return P("<BB", 0x1D, t["n"])
    if k == "err":
        return P("<BB", 0x1C, t["n"])
    if k in ("bin", "un"):
        return P("<B", t["o"])
    if k in ("paren", "miss", "isect", "list", "range"):
        return P("<B", {"paren": 0x15, "miss": 0x16, "isect": 0x0F, "list": 0x10, "range": 0x11}[k])
    if k == "sum":
        return b"\x19\x10\0\0"
    if k == "attr":
        return P("<BBH", 0x19, t["s"], t["n"]) + (bytes(2 * t["n"] + 2) if t["s"] == 4 else b"")
    if k == "memfunc":
        return P("<BH", cl | 9, t["n"])
    if k == "ref":
        return P("<B", cl | (4 if t["one"] else 5)) + cells(ver, t)
    if k == "ref3d":
        h = P("<B", cl | (0x1A if t["one"] else 0x1B))
        return h + (P("<H", t["x"]) if ver >= 80 else P("<h8xhh", t["x"], t["f"], t["l"])) + cells(ver, t)
    if k == "name":
        return P("<BH", cl | 3, t["i"]) + bytes(2 if ver >= 80 else 12)
    if k == "namex":
        return P("<B", cl | 0x19) + (P("<HHH", t["x"], t["i"], 0) if ver >= 80 else P("<h8xH12x", t["x"], t["i"]))
    if k == "func":
        return P("<BH", cl | 1, t["f"])
    if k == "funcvar":
        return P("<BBH", cl | 2, t["n"] | t.get("pr", 0) << 7, t["f"])
    if k == "array":
        return P("<B", cl) + bytes(7)
    if k == "errref":
        n = {0x0A: (5, 4), 0x0B: (9, 7), 0x1C: (7, 18), 0x1D: (11, 21)}[t["o"]][ver < 80]
        return P("<B", cl | t["o"]) + bytes(n - 1)
    return bytes(t["b"])


def formula(ver, d):
    return b"".join(token(ver, t) for t in d["toks"])


def stream(s):
    ver = s["ver"]
    g = []
    if ver < 80:
        g.append(rec(0x42, P("<H", 1252)))
        g.append(None)
        if s["late"]:
            g.pop()
    else:
        g += [rec(0x42, P("<H", 1200)), None]
    if ver >= 80:
        for k in s["sup"]:
            n = s.get("extsheets", 1)
            g.append(biff.supbook(["Sheet number %d" % i for i in range(n)], n % 2 == 0, "mid" if n % 3 == 0 else None) if k not in ("own", "addin", "dde") and n > 1
                     else rec(0x1AE, P("<H", len(s["sheets"])) + b"\x01\x04" if k == "own" else P("<H", 1) + b"\x01\x3A" if k == "addin"
                         else P("<H", 0) + P("<HB", 8, 0) + b"Word\3doc" if k == "dde"
                         else P("<H", 1) + P("<HB", 8, 0) + b"\1other.x" + P("<HB", 2, 0) + b"S1"))
            for u in s["addin"] if k == "addin" else s["extnames"] if k != "own" else ():
                g.append(rec(0x23, P("<HI", 0, 0) + P("<B", len(u)) + biff.flagged(u, any(x > 255 for x in u)) + P("<H", 0)))
        if s["sup"]:
            d = P("<H", len(s["refs"])) + b"".join(P("<HHH", *r) for r in s["refs"])
            k = s["cut"]
            g.append(rec(0x17, d) if not 2 <= k < len(d) else biff.cont(0x17, [d[:k], d[k:]]) if k % 4 else
                     biff.cont(0x17, [d[i:i + k] for i in range(0, len(d), k)]))
    else:
        for e in s["ext"]:
            t = unit_str(e["u"]).encode("cp1252")
            g.append(rec(0x17, P("<BB", len(t), e["t"]) + t))
    for d in s["defs"]:
        nm = biff.flagged(d["u"], d.get("wide") or any(x > 255 for x in d["u"])) if ver >= 80 else bytes(d["u"]) if d["fl"] & 32 else unit_str(d["u"]).encode("cp1252")
        fm = formula(ver, d)
        g.append(biff.name_rec(ver, nm, fm, d["fl"], d["extn"], d["sheet"], bytes(d.get("extra", 0))))
    if None not in g:
        g.append(None)
    sheets, k = [], 0
    for x in s["sheets"]:
        r = []
        if x["t"] == 0:
            nr, nc = s["dim"][k]
            for i in range(nr):
                for j in range(nc):
                    r.append(rec(0x203, P("<HHHd", i, j, 0, 1000 * k + 10 * i + j)))
            k += 1
        sheets.append({"name": unit_str(x["n"]), "type": x["t"], "stype": STYPE[x["t"]], "vis": x.get("v", 0), "recs": r})
    return biff.build(ver, g, sheets, enc="cp1252")


def value(op):
    k, v = op.kind, op.value
    if v is None:
        return ["none", 0, [], []]
    if isinstance(v, (list, tuple)):
        return ["refs", 0, [], [[int(x) for x in tuple(r.coords) + tuple(r.relflags)] for r in v]]
    if isinstance(v, str):
        return ["str", 0, units(v), []]
    if k == F.oNUM:
        v = float(v)
        n = v * SC
        if abs(n) < 1 << 30 and n == int(n):
            return ["num", int(n), [], []]
        return ["raw", 0, list(struct.unpack("<4H", P("<d", v))), []]
    return ["num", int(v), [], []]


def result(op):
    if op is None:
        return "none"
    return {"k": op.kind, "v": value(op), "x": units(op.text)}


def attempt(f):
    try:
        return f()
    except xlrd.XLRDError:
        return "raise"
    except Exception as e:
        return "E:" + type(e).__name__


def area(bk, nobj, **k):
    def f():
        a = nobj.area2d(**k)
        return [a[0].number] + [int(x) for x in a[1:]]
    return attempt(f)


def cell(nobj):
    def f():
        v = int(nobj.cell().value)
        return [v // 1000, v % 1000 // 10, v % 10]
    r = attempt(f)
    return "raise" if r == "E:IndexError" else r


def run(s):
    try:
        d = stream(s)
        if s.get("ole"):
            d = ole.simple("Workbook" if s["ver"] >= 80 else "Book", d, 1)
        import io
        bk = xlrd.open_workbook(file_contents=d, on_demand=bool(s.get("od")), logfile=io.StringIO())
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:300]}
    try:
        names = []
        h = s["deco"]
        for i, n in enumerate(bk.name_obj_list):
            dd = s["defs"][i] if i < len(s["defs"]) else {"toks": []}
            names.append({"name": n.name if dd.get("fl", 0) & 32 else units(n.name), "fl": {k: core.norm(getattr(n, k)) for k in FLAGS}, "i": n.name_index,
                          "scope": n.scope, "raw": list(n.raw_formula)[:n.basic_formula_len], "want": list(formula(s["ver"], dd)),
                          "len": n.basic_formula_len, "res": result(n.result), "cell": cell(n), "area": area(bk, n), "areau": area(bk, n, clipped=False),
                          "deco": attempt(lambda: units(F.decompile_formula(bk, n.raw_formula, n.basic_formula_len, F.FMLA_TYPE_NAME,
                                                                           None if h["br"] < 0 else h["br"], None if h["bc"] < 0 else h["bc"], r1c1=h["r1c1"])))})
        ids = {id(n): i + 1 for i, n in enumerate(bk.name_obj_list)}
        return {"names": names,
                "map": [[units(k), [ids.get(id(x), 0) for x in v]] for k, v in sorted(bk.name_map.items())],
                "ns": sorted([units(k[0]), k[1], ids.get(id(v), 0)] for k, v in bk.name_and_scope_map.items())}
    except Exception as e:
        return {"err": "observing " + type(e).__name__, "msg": str(e)[:300]}
    finally:
        bk.release_resources()
