"""C31: rich-text formatting of cells (spec: Runs, RunsMC, TraceRuns)."""
import core, biff, sheetev, sst
from props import c03
from props.c06 import rand_units

STAGES = {}


def run(s):
    import xlrd, random
    ver, opt = s["ver"], s["opt"]
    rng = random.Random(s["seed"])
    g = biff.base_styles(ver, [0] * 21)
    if ver >= 80:
        tab = [(rand_units(rng, rng.randrange(4)), r, None if rng.random() < .8 else bytes(rng.randrange(9))) for r in opt["runs"]]
        p = rng.choice([0, 0, .1, .5])
        k, n = s.get("pad", (0, 0))         # plain strings in front of entry k: they move the entries behind them
        tab[k:k] = [([], [], None)] * n
        g += [None, biff.cont(0xFC, sst.layout(rng, tab, biff.P("<II", len(tab), len(tab)), lambda k, u, n: u > 0 and (u + n > 8000 or rng.random() < p)))]
    k, n = s.get("pad", (0, 0))
    place = lambda e: dict(e, i=e["i"] + n) if e["op"] == "sst" and e["i"] >= k else e
    sheets = [{"name": "S%d" % i, "recs": [sheetev.encode(ver, place(e)) for e in ev]} for i, ev in enumerate(s["others"])]
    sheets.insert(s["at"], {"name": "T", "recs": [sheetev.encode(ver, place(e)) for e in s["ev"]]})
    data = biff.build(ver, g, sheets)
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=opt["fmt"], ragged_rows=s["ragged"], on_demand=s["od"], logfile=sheetev._Null())
        sh = b.sheet_by_name("T")
        if s["od"] and s["again"]:
            b.unload_sheet("T")
            sh = b.sheet_by_index(s["at"])
        m = sh.rich_text_runlist_map
        loose = 0
        for r, c in m:
            try:
                loose += sh.cell_type(r, c) != 1 or r < 0 or c < 0
            except IndexError:
                loose += 1
        b.release_resources()
        return {"runs": [[k[0], k[1], core.norm([list(x) for x in m[k]])] for k in sorted(m)], "loose": loose}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


STAGES.update({k: (run, "TraceRuns") for k in ("model-behaviours", "random")})


def runs(rng, ver):
    top = 65536 if ver >= 80 else 256
    return [[rng.randrange(rng.choice([4, top])), rng.randrange(rng.choice([6, top]))] for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 5, 5, 40, rng.choice([127, 128, 255] + [256, 257, 300] * (ver >= 80))]))]


def events(rng, ver, n, table):
    R, C = sorted(rng.sample(range(6), 2)) + rng.choice([[], [300]]), rng.choice([[0, 1], [0, 1, 2], [253, 254, 255]])
    out = []
    while len(out) < n:
        if rng.random() < .5:
            e = {"op": rng.choice(["rstring", "rstring", "sst", "label"]), "r": rng.choice(R), "c": rng.choice(C), "xf": 15}
            if e["op"] == "sst" and ver < 80:
                continue
        else:
            e = c03.rand_event(rng, ver, R, C, True)
        if e["op"] in ("rstring", "label"):
            e["t"] = rng.choice(["", "a", "abc", "abc def"])
        if e["op"] == "rstring":
            e["runs"] = runs(rng, ver)
        if e["op"] == "sst":
            e["i"] = rng.randrange(len(table))
        out.append(e)
    return out


def scn(rng, ver, ev, table, **kw):
    s = {"ver": ver, "ev": ev, "opt": {"fmt": rng.random() < .8, "runs": table}, "ragged": rng.random() < .5, "od": rng.random() < .3 and ver >= 50,
         "again": rng.random() < .5, "others": [], "at": 0, "pad": [0, 0], "seed": rng.getrandbits(30)}
    s.update(kw)
    return s


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("RunsMC", None if not ctx.thorough else "RunsMC_deep", tag="S")
    if len(docs) > 60000:
        docs = rng.sample(docs, 60000)
    elif not ctx.thorough:
        docs = rng.sample(docs, min(len(docs), 2500))
    table = [[], [[1, 2]], [[0, 3], [2, 1]]]
    ctx.validate("model-behaviours", "TraceRuns", [scn(rng, 80, d, table, opt={"fmt": rng.random() < .9, "runs": table}) for d in docs], run)
    out = []
    for _ in range(ctx.n(2500, 30000)):
        ver = rng.choice([80, 80, 80, 70, 50])
        table = [runs(rng, 80) for _ in range(rng.randrange(1, 8))] if ver >= 80 else []
        others = [events(rng, ver, rng.randrange(5), table) for _ in range(rng.choice([0, 0, 1, 2]))]
        out.append(scn(rng, ver, events(rng, ver, rng.choice([1, 2, 4, 9]), table), table, others=others, at=rng.randrange(len(others) + 1)))
    for s in out[:ctx.n(10, 60)]:
        if s["ver"] >= 80:
            s["pad"] = [rng.randrange(len(s["opt"]["runs"]) + 1), rng.choice([256, 32768, 65534, 65535, 65536, 65537, 70000])]
    ctx.validate("random", "TraceRuns", out, run)
