"""C07: text encodings (spec: Encoding, EncodingMC, TraceEncoding)."""
import core, biff, sheetev
from biff import rec, P

KINDS = {21: ["user", "font", "format", "label", "fstr"], 30: ["user", "font", "format", "style", "label", "fstr", "note"]}
KINDS[40] = KINDS[30]
KINDS[50] = KINDS[30] + ["sheet", "rstring", "name", "nstr"]
KINDS[70] = KINDS[50]
KINDS[80] = ["user", "font", "format", "style", "sheet", "label", "rstring", "fstr", "name", "nstr"]


def body(ver, e):
    if ver >= 80 and e.get("att"):        # formatting runs and phonetic data travel with the text
        rt, sz = e["att"]
        b = biff.flagged(e["u"], e["wide"])
        return (P("<B", b[0] | (8 if rt else 0) | (4 if sz else 0)) + (P("<H", rt) if rt else b"") + (P("<I", sz) if sz else b"") +
                b[1:] + b"\x01\x00\x02\x00" * rt + b"\x58" * sz)
    return biff.flagged(e["u"], e["wide"]) if ver >= 80 else bytes(e["raw"])


def n_of(ver, e):
    return len(e["u"]) if ver >= 80 else len(e["raw"])


def counted(ver, e, two=False):
    return P("<H" if two else "<B", n_of(ver, e)) + body(ver, e)


def run(s):
    import xlrd
    ver = s["ver"]
    glob, xfs, sheet, post = [], [], [biff.dim_rec(ver, 0, 1, 0, 1)], []
    name = None
    row = 0
    where = []
    nfont = nfmt = nname = 0
    snames = []
    for e in s["ev"]:
        if e["op"] == "codepage":
            glob.append(rec(0x42, P("<H", e["page"])))
            continue
        k = e["k"]
        b = body(ver, e)
        if k == "user":
            pad = e["pad"]
            if ver >= 80:
                glob.append(rec(0x5C, P("<H", len(e["u"])) + b + b" " * (pad * (1 + b[0]) if b[0] == 0 else 0)))
            else:
                glob.append(rec(0x5C, P("<B", n_of(ver, e) + pad) + b + b" " * pad))
            where.append(("user",))
        elif k == "font":
            h = P("<HHHHHBBBB", 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0) if ver >= 50 else P("<HHH", 200, 0, 0x7FFF) if ver >= 30 else P("<HH", 200, 0)
            glob.append(rec(0x0231 if 30 <= ver < 50 else 0x31, h + counted(ver, e)))
            where.append(("font", nfont if nfont < 4 else nfont + 1))
            nfont += 1
        elif k == "format":
            key = 200 + nfmt
            h = P("<H", key) if ver >= 40 else b""
            glob.append(rec(0x041E if ver >= 40 else 0x1E, h + counted(ver, e, ver >= 80)))
            where.append(("format", nfmt))
            nfmt += 1
        elif k == "style":
            post.append(rec(0x293, P("<H", 0) + counted(ver, e, ver >= 80)))
            where.append(("style",))
        elif k == "sheet":
            where.append(("sheet", len(snames)))
            snames.append(counted(ver, e))
        elif k == "name":
            post.append(biff.name_rec(ver, b, b"\x1e\x01\x00"))
            where.append(("name", nname))
            nname += 1
        elif k == "nstr":
            post.append(biff.name_rec(ver, biff.flagged([0x7A]) if ver >= 80 else b"z", b"\x17" + counted(ver, e)))
            where.append(("nstr", nname))
            nname += 1
        elif k == "note":
            raw = bytes(e["raw"])
            cut = [0] + e["cuts"] + [len(raw)]
            parts = [raw[a:z] for a, z in zip(cut, cut[1:])]
            sheet.append(rec(0x1C, P("<HHH", row, 3, len(raw)) + parts[0]))
            for p in parts[1:]:
                sheet.append(rec(0x1C, P("<HHH", 0xFFFF, 0, len(p)) + p))
            where.append(("note", row))
            row += 1
        else:
            if k == "label" and ver < 30:
                sheet.append(rec(0x0004, P("<HHBBB", row, 0, 0, 0, 0) + counted(ver, e)))
            elif k == "label":
                sheet.append(rec(0x0204, P("<HHH", row, 0, 0) + counted(ver, e, True)))
            elif k == "rstring":
                sheet.append(rec(0x00D6, P("<HHH", row, 0, 0) + counted(ver, e, True) + (P("<H", 0) if ver >= 80 else b"\0")))
            else:
                ev = {"op": "x", "r": row, "c": 0, "xf": 0}
                sheet.append(sheetev.fml(ver, ev, P("<BBBBHH", 0, 0, 0, 0, 0, 0xFFFF)))
                sheet.append(rec(0x0207 if ver >= 30 else 0x0007, counted(ver, e, ver >= 30)))
            where.append(("cell", row))
            row += 1
    xfs = [] if ver == 20 else [biff.xf_rec(ver, 0, 0, i < 15) for i in range(16)]
    g = glob + xfs + post
    if not snames:
        snames = [biff.flagged([83]) if ver >= 80 else b"S"]
        snames = [P("<B", 1) + snames[0]]
    sheets = [{"name": "", "rawname": n, "recs": sheet if i == 0 else []} for i, n in enumerate(snames)]
    d = biff.build(ver, g, sheets)
    try:
        b = xlrd.open_workbook(file_contents=d, formatting_info=True, encoding_override=s["ov"] or None, logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        out = []
        for w in where:
            if w[0] == "user":
                t = b.user_name
            elif w[0] == "font":
                t = b.font_list[w[1]].name
            elif w[0] == "format":
                t = b.format_list[w[1]].format_str
            elif w[0] == "style":
                t = [k for k in b.style_name_map][0]
            elif w[0] == "sheet":
                t = b.sheet_names()[w[1]]
                t = t if b.sheet_by_name(t).name == t else "?"
            elif w[0] == "name":
                t = b.name_obj_list[w[1]].name
            elif w[0] == "nstr":
                t = b.name_obj_list[w[1]].result.value
            elif w[0] == "note":
                t = sh.cell_note_map[w[1], 3].text
            else:
                t = sh.cell_value(w[1], 0)
            out.append(core.units(t))
        return {"texts": out, "enc": core.norm(b.encoding), "page": core.norm(b.codepage)}
    except Exception as ex:
        return {"err": type(ex).__name__, "msg": str(ex)[:200]}


STAGES = {k: (run, "TraceEncoding") for k in ("model-headers", "random")}


def codec(p):
    return {1200: "utf_16_le", 10000: "mac_roman", 10006: "mac_greek", 10007: "mac_cyrillic", 10029: "mac_latin2", 10079: "mac_iceland",
            10081: "mac_turkish", 32768: "mac_roman", 32769: "cp1252"}.get(p, "cp%d" % p)


_POOL = {}


def pool(c):
    """Characters codec c can write."""
    if c not in _POOL:
        out = []
        for u in list(range(0x21, 0x180)) + list(range(0x370, 0x460)) + list(range(0x5D0, 0x5EB)) + list(range(0x0E01, 0x0E3B)) + \
                list(range(0x3041, 0x30FF, 5)) + list(range(0x4E00, 0x9000, 331)) + list(range(0xAC00, 0xD700, 501)) + [0x20AC, 0x2019, 0x2026]:
            try:
                if chr(u).encode(c).decode(c) == chr(u):
                    out.append(chr(u))
            except UnicodeError:
                pass
        _POOL[c] = out
    return _POOL[c]


def text(rng, ver, k, i, src, cands):
    if ver >= 80:
        n = rng.choice([1, 2, 5, 31])
        u = [rng.choice([0x41, 0xE9, 0x9A, 0xFF] if rng.random() < .5 else [0x42, 0x5B8B, 0x100, 0x20AC]) for _ in range(n)]
        u = ([0x30 + i % 10, 0x61 + i // 10] + u)[:31] + ([0x7A] if k == "user" else [])
        e = {"op": "text", "k": k, "u": u, "wide": any(x > 255 for x in u) or rng.random() < .3, "pad": rng.choice([0, 1, 9])}
        if k in ("font", "format", "style", "sheet", "label", "nstr") and rng.random() < .25:
            e["att"] = rng.choice([[1, 0], [0, 4], [2, 10], [0, 300], [100, 0]]) if k != "sheet" else rng.choice([[1, 0], [0, 4], [2, 10]])
        return e
    for _ in range(50):
        t = "%d%s" % (i, "".join(rng.choice(pool(src)) for _ in range(rng.choice([1, 2, 4, 12]))))
        if k == "user":
            t += "z"              # trailing blanks are padding
        raw = t.encode(src)
        try:
            under = {c: core.units(raw.decode(c)) for c in cands}
            break
        except UnicodeError:
            pass
    else:
        raw = ("%dplain" % i).encode()
        under = {c: core.units(raw.decode(c)) for c in cands}
    e = {"op": "text", "k": k, "raw": list(raw), "under": under, "pad": rng.choice([0, 1, 9])}
    e["cuts"] = sorted(rng.sample(range(1, len(raw)), min(len(raw) - 1, rng.choice([0, 1, 2]))))
    return e


def scenario(rng, doc):
    ver, ov, page = doc["ver"], doc["ov"], doc["page"]
    cands = {"iso-8859-1"} | ({ov} if ov else set()) | ({codec(page)} if page and ver < 80 else set())
    cands.discard("utf_16_le")
    main = ov or (codec(page) if page else "iso-8859-1")
    ev, i = [], 0
    for o in doc["order"]:
        if o == "codepage":
            ev.append({"op": "codepage", "page": page})
            continue
        ks = ["user"] if o == "user" else []
        if o == "other" and not doc.get("bare"):
            ks = [k for k in KINDS[ver] if k != "user" and rng.random() < .75]
            ks += [k for k in ("font", "format", "label", "name") if k in KINDS[ver] and rng.random() < .3]
            if rng.random() < .15:
                ks = rng.sample(KINDS[ver][1:], rng.choice([1, 1, 2]))
        for k in ks:
            if k == "user" and doc.get("nouser"):
                continue
            ev.append(text(rng, ver, k, i, main if rng.random() < .8 else rng.choice(sorted(cands)), cands))
            i += 1
    return {"ver": ver, "ov": ov, "ev": ev}


PAGES = [0, 367, 437, 720, 737, 775, 850, 852, 855, 857, 858, 860, 861, 862, 863, 864, 865, 866, 869, 874, 932, 936, 949, 950, 1250, 1251, 1252,
         1253, 1254, 1255, 1256, 1257, 1258, 1361, 10000, 10006, 10007, 10029, 10079, 10081, 32768, 32769]
OVS = ["", "", "koi8_r", "utf_8", "cp1251", "cp932", "latin_1", "mac_roman", "gb18030", "cp437", "big5", "shift_jis", "euc_kr", "ascii"]


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("EncodingMC", tag="S")
    ctx.validate("model-headers", "TraceEncoding", [scenario(rng, d) for d in docs], run)
    out = []
    for _ in range(ctx.n(3000, 30000)):
        ver = rng.choice([80, 70, 70, 50, 40, 30, 21])
        page = (rng.choice(PAGES) if rng.random() < .8 else 0) if ver < 80 else rng.choice([0, 1200, 1252])
        base = ["user", "other"]
        if page:
            base.insert(rng.choice([0, 1]), "codepage")
        out.append(scenario(rng, {"ver": ver, "ov": rng.choice(OVS), "page": page, "order": base, "nouser": rng.random() < .3,
                                  "bare": rng.random() < .05}))
    ctx.validate("random", "TraceEncoding", out, run)
