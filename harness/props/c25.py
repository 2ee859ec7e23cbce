"""C25: the sheet catalogue (spec: Catalogue, CatalogueMC, TraceCatalogue)."""
import core, biff, ole, sheetev, xlrd
from biff import rec, P
from core import units, unit_str

STYPE = {0: 0x10, 1: 0x40, 2: 0x20, 6: 0x06}


def data(s):
    ver = s["ver"]
    sheets = []
    for e in s["es"]:
        recs = [biff.dim_rec(ver, 0, 1, 0, 1)] + biff.base_styles(ver, [0] * 16) * (ver == 45)
        recs.append(rec(0x0203, P("<HHHd", 0, 0, 15, e["sub"])))
        sh = {"name": unit_str(e["name"]), "vis": e["vis"], "type": e["type"], "stype": STYPE.get(e["type"], 0x10), "recs": recs}
        if e["type"] in (1, 2, 6):
            if e.get("lost"):
                sh["offset"] = e["lost"]
            if e["type"] != 1:
                sh["recs"] = [rec(0x1002, bytes(16))]
        sheets.append(sh)
        if ver >= 80:
            u = e["name"]
            sh["rawname"] = P("<B", len(u)) + biff.flagged(u, e.get("wide") or None) + bytes(e.get("pad", 0))
    g = [rec(0x42, P("<H", s["cp"]))] if s.get("cp") else []
    enc = {1252: "cp1252", 932: "cp932", 1251: "cp1251"}.get(s.get("cp"), "latin-1")
    if ver == 45:
        return biff.build4w(g, sheets, enc)
    b = biff.base_styles(ver, [0] * 16)
    k = s.get("at", len(b))
    return biff.build(ver, g + b[:k] + [None] + b[k:], sheets, [i - 1 for i in s["order"]], enc=enc)


def view(sh):
    v = sh.cell_value(0, 0)
    return [core.norm(sh.number), units(sh.name), core.norm(sh.visibility), int(v) if isinstance(v, float) else core.norm(v)]


def run(s):
    d = data(s)
    if s.get("ole"):
        d = ole.simple(s["ole"], d, s["ole"])
    try:
        b = xlrd.open_workbook(file_contents=d, formatting_info=s["fmt"], on_demand=s["od"], logfile=sheetev._Null())
        names = [units(x) for x in b.sheet_names()]
        # the lists handed out are the caller's own: what a caller does with them changes nothing
        for mine in (b.sheet_names(), b.sheets()):
            mine.reverse()
            del mine[len(mine) // 2:]
        ask = []
        for q in s["ask"]:
            try:
                a = q["i"] if q["t"] == "i" else unit_str(q["s"])
                ask.append(view(b[a] if q["item"] else b.sheet_by_index(a) if q["t"] == "i" else b.sheet_by_name(a)))
            except xlrd.XLRDError:
                ask.append("refused")
            except Exception as e:
                ask.append("fails")
        return {"nsheets": core.norm(b.nsheets), "names": names, "ask": ask, "iter": [view(x) for x in b],
                "sheets": [view(x) for x in b.sheets()]}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES = {k: (run, "TraceCatalogue") for k in ("model-behaviours", "random", "many")}


def scn(rng, es, order, ver=None):
    ver = ver or rng.choice([80, 80, 70, 50])
    s = {"ver": ver, "es": [dict(e) for e in es], "order": order, "fmt": rng.random() < .5, "od": rng.random() < .5, "ask": []}
    if rng.random() < .3:
        s["ole"] = rng.choice(["Workbook", "Book"])
    s["at"] = rng.choice([0, 3, 5, 12])
    if ver == 45:
        s["es"] = [dict(e, type=0, vis=0) for e in s["es"]]
    n = len(es)
    for k in range(n + 1):
        s["ask"].append({"t": "i", "i": k, "item": rng.randrange(2)})
    for e in s["es"]:
        s["ask"].append({"t": "s", "s": e["name"], "item": rng.randrange(2)})
    for e in s["es"][:3]:
        u = e["name"]
        for w in (u + [32], u[:-1], [x ^ 32 if 65 <= x & 95 <= 90 else x for x in u]):
            if w and not any(w == x["name"] for x in s["es"]):
                s["ask"].append({"t": "s", "s": w, "item": rng.randrange(2)})
    rng.shuffle(s["ask"])
    return s


ALPH = "aAbBzZ 019_.-!#$%&()+,;=@^`{}~'\u00e9\u00ff"


def rand_name(rng, ver, cp):
    a = ALPH
    if ver >= 80:
        a += "\u0100\u0416\u4e2d\uff76\U0001F600"
    elif cp == 932:
        a = "aAz 09\u3042\u65e5\uff71"
    elif cp == 1251:
        a = "aAz \u0416\u0436"
    n = rng.choice([1, 2, 5, 12, 31])
    w = "".join(rng.choice(a) for _ in range(n))
    u = units(w)
    if ver >= 80:
        while len(u) > 31:
            w = w[:-1]
            u = units(w)
    return u


def randoms(rng, n_max):
    ver = rng.choice([80, 80, 80, 70, 50, 45])
    cp = 0 if ver >= 80 else rng.choice([0, 1252, 932, 1251])
    n = n_max if n_max > 16 else rng.choice([1, 2, 3, 5, 8, n_max])
    es, seen = [], set()
    while len(es) < n:
        u = rand_name(rng, ver, cp)
        low = unit_str(u).lower()
        if low in seen:
            continue
        seen.add(low)
        t = rng.choice([0, 0, 0, 0, 1, 2, 2, 6])
        e = {"name": u, "vis": rng.choice([0, 0, 1, 2]), "type": t, "sub": len(es) + 1, "wide": rng.randrange(2), "pad": rng.choice([0, 0, 0, 1])}
        if t and rng.random() < .2:
            e["lost"] = rng.choice([0, 1 << 20, 17])
        es.append(e)
    if all(e["type"] for e in es):
        es[rng.randrange(n)].update(type=0)
        for e in es:
            if e["type"] == 0:
                e.pop("lost", None)
    order = list(range(1, n + 1))
    if rng.random() < .6:
        rng.shuffle(order)
    s = scn(rng, es, order, ver)
    s["cp"] = cp
    return s


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("CatalogueMC", tag="S")
    ctx.validate("model-behaviours", "TraceCatalogue", [scn(rng, d["es"], d["order"]) for d in docs], run)
    ctx.validate("random", "TraceCatalogue", [randoms(rng, 16) for _ in range(ctx.n(1500, 15000))], run)
    ctx.validate("many", "TraceCatalogue", [randoms(rng, 640) for _ in range(ctx.n(12, 100))], run)
