"""C26: options, messages and independence of workbooks (spec: Options over Grid,
OptionsMC, TraceOptions)."""
import contextlib, io, json, os, random, shutil, subprocess, sys, tempfile
import biff, core, observe, ole, rich, sheetev, xlrd

BOOK_FMT = ("font_list", "xf_list", "format_list", "format_map", "style_name_map", "colour_map", "palette_record")
SHEET_FMT = ("colinfo_map", "rowinfo_map", "merged_cells", "rich_text_runlist_map", "gcw", "horizontal_page_breaks", "vertical_page_breaks")
SHEET_OWN = ("nrows", "ncols", "formatting_info", "ragged_rows")


def content(b, mislabel=False):
    """The file; mislabelled: naming another code page than the one its text is in."""
    if b.get("kind") == "4w":
        import streamrun
        d = four_w(b)
    elif b.get("kind") == "names":
        import nameev
        d = nameev.stream(named(b))
    else:
        bk = rich.book(b["seed"], b["ver"], b.get("types"))
        if mislabel and b["ver"] < 80:
            bk["globals"] = [biff.rec(0x42, biff.P("<H", b["seed"] % 2 and 1251 or 850)) if g and g[:2] == b"\x42\x00" else g for g in bk["globals"]]
        d = rich.stream(bk)
    return ole.simple(b["ole"], d, b["seed"]) if b.get("ole") else d


def named(b):
    """A workbook whose header is mostly defined names with formulas of all kinds."""
    from props import c13
    rng = random.Random("names/%r" % b["seed"])
    while True:
        s = c13.dag(rng)
        if any(t["t"] in ("func", "funcvar") and t["f"] >= 3000 for d in s["defs"] for t in d["toks"]):
            continue                   # no such functions
        if s["ver"] == 80 and any("x" in t and not 0 <= t["x"] < len(s["refs"]) for d in s["defs"] for t in d["toks"]):
            continue                   # no such sheets
        if max(depth(s["defs"], i) for i in range(len(s["defs"]))) <= 5:   # beyond that the reader tells what it does, at any verbosity
            return s


def depth(defs, i, d=0):
    if d > 6:
        return d
    return max([d] + [depth(defs, t["i"] - 1, d + 1) for t in defs[i]["toks"] if t["t"] in ("name", "namex") and 1 <= t.get("i", 0) <= len(defs)])


def four_w(b):
    rng = random.Random("4w/%r" % b["seed"])
    sheets = []
    for i in range(b["n4"]):
        bk = rich.book(rng.getrandbits(30), 40)
        # a workbook has one palette; the rest of the styles go with each sheet
        gl = [g for g in bk["globals"] if g is not None and not (i and g[:2] == b"\x92\x00")]
        sheets.append({"name": "S%d" % i, "recs": gl + bk["sheets"][0]["groups"]})
    return biff.build4w([biff.rec(0x42, biff.P("<H", 1252))], sheets)


def see_sheet(sh, full=False):
    d = observe.sheet_doc(sh, skip=("grid",))
    o = sheetev.project(sh)
    xf = [[r, c, sh.cell_xf_index(r, c)] for r, c, t, v in o["cells"]] if sh.formatting_info else []
    s = {"cells": o["cells"], "nrows": o["nrows"], "ncols": o["ncols"], "rl": o["rl"],
         "core": observe.digest([o["holes"], {k: v for k, v in d.items() if k not in SHEET_FMT + SHEET_OWN}]),
         "fmtd": observe.digest([xf, {k: d[k] for k in SHEET_FMT}]) if sh.formatting_info else ""}
    if full:
        s["merged"] = [list(m) for m in sh.merged_cells]
    return s


def see_book(bk, fmt, enc, both=False):
    d = observe.book_doc(bk, sheets=False)
    core_ = {k: v for k, v in d.items() if k not in BOOK_FMT}
    coreE = {k: v for k, v in core_.items() if k not in ("codepage", "encoding")}
    o = {"core": observe.digest(coreE if enc else core_), "n": core.norm(bk.nsheets),
         "fmtd": observe.digest({k: d[k] for k in BOOK_FMT}) if fmt else ""}
    if both:
        o["coreE"] = observe.digest(coreE)
    return o


def base(b):
    bk = xlrd.open_workbook(file_contents=content(b), formatting_info=True, ragged_rows=True, logfile=sheetev._Null())
    o = see_book(bk, True, False, True)
    o["sheets"] = [see_sheet(s, True) for s in bk.sheets()]
    bk = xlrd.open_workbook(file_contents=content(b), ragged_rows=True, logfile=sheetev._Null())
    for s, e in zip(bk.sheets(), o["sheets"]):
        e["plain"] = sheetev.project(s)["cells"]
    o["ver"], o["cp"] = 0, False
    return o


def run(s):
    d = tempfile.mkdtemp(prefix="opt_")
    try:
        data = [{e: content(b, e) for e in (False, True)} for b in s["books"]]
        if s.get("fresh"):
            p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__)], input=json.dumps(s["books"]), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, universal_newlines=True, timeout=120,
                               env=dict(os.environ, PYTHONPATH=os.pathsep.join([core.REPO, os.path.join(core.VERIF, "harness")])))
            if p.returncode:
                return {"err": "base", "msg": p.stderr[-300:]}
            bs = json.loads(p.stdout)
        else:
            bs = [base(b) for b in s["books"]]
        out, hs = [], []
        for q in s["steps"]:
            so = io.StringIO()
            try:
                with contextlib.redirect_stdout(so), contextlib.redirect_stderr(so):
                    if q["q"] == "open":
                        o, k = q["o"], q["w"] - 1
                        lg = io.StringIO()
                        kw = dict(logfile=lg, verbosity=o["verb"], formatting_info=o["fmt"], ragged_rows=o["ragged"], on_demand=o["od"],
                                  use_mmap=o["mmap"], ignore_workbook_corruption=o["iwc"])
                        if not len(hs) % 2:  # what is not said has its documented default
                            for a, v in (("verbosity", 0), ("formatting_info", False), ("ragged_rows", False), ("on_demand", False),
                                         ("use_mmap", True), ("ignore_workbook_corruption", False)):
                                if kw[a] == v:
                                    del kw[a]
                        if o["enc"]:
                            kw["encoding_override"] = s["books"][k]["enc"]
                        if o["file"]:
                            p = os.path.join(d, "%d%d.xls" % (k, o["enc"]))
                            if not os.path.exists(p):
                                with open(p, "wb") as f:
                                    f.write(data[k][o["enc"]])
                            bk = xlrd.open_workbook(p, **kw)
                        else:
                            bk = xlrd.open_workbook(file_contents=data[k][o["enc"]], **kw)
                        hs.append({"bk": bk, "o": o, "lg": lg, "sh": {}})
                        h = hs[-1]
                        ob = see_book(bk, o["fmt"], o["enc"])
                        if not o["od"] or s["books"][k]["ver"] <= 45:
                            h["sh"] = dict(enumerate(bk.sheets()))
                    else:
                        h = hs[q["h"] - 1]
                        o = h["o"]
                        if q["q"] == "sheet":
                            if q["i"] not in h["sh"]:
                                h["sh"][q["i"]] = h["bk"].sheet_by_index(q["i"])
                            ob = see_sheet(h["sh"][q["i"]])
                        elif q["q"] == "book":
                            ob = see_book(h["bk"], o["fmt"], o["enc"])
                        else:
                            h["bk"].release_resources()
                            ob = {}
                ob["std"], ob["log"] = len(so.getvalue()), len(h["lg"].getvalue())
                if ob["log"]:
                    ob["said"] = h["lg"].getvalue()[:200]
            except Exception as e:
                ob = {"err": type(e).__name__, "msg": str(e)[:200]}
                out.append(ob)
                break
            out.append(ob)
        return {"base": bs, "steps": out + [{"err": "not run"}] * (len(s["steps"]) - len(out))}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}
    finally:
        for h in hs if "hs" in dir() else []:
            h["bk"].release_resources()
        shutil.rmtree(d, ignore_errors=True)


STAGES = {k: (run, "TraceOptions") for k in ("model-behaviours", "options", "histories")}


def opts(rng, b, **kw):
    f = rng.random() < .5
    o = {"verb": rng.choice([0, 0, 0, 1, 2, 3, 4, 7]), "fmt": rng.random() < .5, "ragged": rng.random() < .5, "od": rng.random() < .5,
         "mmap": f and rng.random() < .6, "file": f, "enc": rng.random() < .2, "iwc": rng.random() < .2}
    o.update(kw)
    o["enc"] = bool(o["enc"] and b["enc"])
    return o


def rand_book(rng, n=None):
    v = rng.choice([20, 21, 30, 40, 45, 50, 70, 70, 80, 80, 80, 80]) if n is None else rng.choice([50, 70, 80, 80])
    b = {"seed": rng.getrandbits(30), "ver": v, "cp": True}
    if v == 45:
        b.update(kind="4w", n4=rng.choice([1, 1, 2, 3]))
    if n:
        b["types"] = [0] * n
    if not n and rng.random() < .12:
        b["kind"] = "names"
        b["ver"] = named(b)["ver"]
    if rng.random() < .4:
        b["ole"] = rng.choice(["Workbook", "Book"])
    if b.get("kind") == "names":
        b["enc"] = ""
        return b
    b["enc"] = "" if v == 45 else own_encoding(b)
    return b


def own_encoding(b):
    """The encoding the workbook names itself: supplying it again changes nothing."""
    if b["ver"] >= 80:
        return random.Random(b["seed"]).choice(["cp1252", "cp1251", "mac_roman"])
    for g in rich.book(b["seed"], b["ver"], b.get("types"))["globals"]:
        if g and g[:2] == b"\x42\x00":
            n = g[4] | g[5] << 8
            return {10000: "mac_roman"}.get(n, "cp%d" % n)


def sheets_of(b):
    if b["ver"] == 45:
        return b["n4"]
    if b.get("kind") == "names":
        return sum(1 for x in named(b)["sheets"] if x["t"] == 0)
    if "types" in b:
        return len(b["types"])
    return sum(1 for s in rich.book(b["seed"], b["ver"])["sheets"] if s["type"] == 0)


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("OptionsMC", None if ctx.tier == "quick" else "OptionsMC_deep", tag="S")
    if len(docs) > ctx.n(400, 6000):
        docs = rng.sample(docs, ctx.n(400, 6000))
    scns = []
    for h in docs:
        bs = [rand_book(rng, 2), rand_book(rng, 2)]
        st = []
        for q in h:
            q = dict(q)
            if q["q"] == "open":
                q = {"q": "open", "w": q["w"], "o": opts(rng, bs[q["w"] - 1], fmt=q["fmt"], od=q["od"], verb=0)}
            st.append(q)
        scns.append({"books": bs, "steps": st, "fresh": rng.random() < .2})
    ctx.validate("model-behaviours", "TraceOptions", scns, run)
    # one workbook under many option sets
    scns = []
    for _ in range(ctx.n(160, 2000)):
        b = rand_book(rng)
        n, st, k = sheets_of(b), [], 0
        for _ in range(8):
            st.append({"q": "open", "w": 1, "o": opts(rng, b)})
            k += 1
            st += [{"q": "sheet", "h": k, "i": i} for i in rng.sample(range(n), n)] + [{"q": "book", "h": k}]
        scns.append({"books": [b], "steps": st, "fresh": rng.random() < .2})
    ctx.validate("options", "TraceOptions", scns, run)
    scns = []
    for _ in range(ctx.n(160, 2000)):
        bs = [rand_book(rng) for _ in range(rng.choice([2, 3, 4]))]
        ns = [sheets_of(b) for b in bs]
        st, hs = [], []
        for _ in range(rng.randrange(8, 30)):
            k = rng.random()
            if k < .35 or not hs:
                w = rng.randrange(len(bs))
                o = opts(rng, bs[w])
                hs.append([w, o["od"] and bs[w]["ver"] > 45, set(), False])
                st.append({"q": "open", "w": w + 1, "o": o})
            else:
                i = rng.randrange(len(hs))
                h = hs[i]
                if k < .8:
                    j = rng.randrange(ns[h[0]])
                    if h[3] and h[1] and j not in h[2]:
                        continue
                    h[2].add(j)
                    st.append({"q": "sheet", "h": i + 1, "i": j})
                elif k < .9:
                    st.append({"q": "book", "h": i + 1})
                else:
                    h[3] = True
                    st.append({"q": "close", "h": i + 1})
        scns.append({"books": bs, "steps": st, "fresh": rng.random() < .3})
    ctx.validate("histories", "TraceOptions", scns, run)


if __name__ == "__main__":
    with contextlib.redirect_stdout(sys.stderr):
        r = [base(b) for b in json.load(sys.stdin)]
    json.dump(r, sys.stdout)
