"""C20: kinds of files and ways of supplying them (spec: FileKind, FileKindMC,
TraceFileKind)."""
import io, mmap, os, random, shutil, tempfile, zipfile
import biff, ole, observe, rich, sheetev, streams, xlrd
from core import units, unit_str

ROUTES = ["bytes", "path", "path-nommap", "home", "home-nommap", "relative", "mmap", "both"]


def zip_bytes(s):
    b = io.BytesIO()
    rng = random.Random(s["seed"])
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for u in s["names"]:
            i = zipfile.ZipInfo("x")
            i.filename = unit_str(u)
            z.writestr(i, bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 300]))))
        if s.get("comment"):
            z.comment = b"c" * s["comment"]
    return b.getvalue()


def older(s):
    """The same workbook's stream for older readers (other contents, to tell them apart)."""
    return rich.stream(rich.book(s["seed"] + 1, s["oldver"]))


def workbook(s):
    """The workbook stream; s["pad"] bytes of records nobody reads in its header,
    so that worksheets lie far from the start."""
    b = rich.book(s["seed"], s["ver"])
    rng = random.Random("pad/%r" % s["seed"])
    g, n = [], s.get("pad", 0)
    while n > 0:
        g.append(streams.noise(rng, s["ver"]) if rng.random() < .5 else biff.rec(0x00EF, bytes(rng.randrange(256) for _ in range(min(n, 2000)))))
        n -= len(g[-1])
    b["globals"][1:1] = g
    return rich.stream(b)


def data(s):
    rng = random.Random("kind/%r" % s["seed"])
    if s["start"] == "zip":
        return zip_bytes(s)
    if s["book"]:
        d = workbook(s)
        if s["start"] == "xls":
            if s["box"] == "mini":
                return ole.simple("Book", d, s["seed"], .5) if len(d) < 4096 else ole.simple("Workbook", d, s["seed"], 1)
            if s["box"] == "both":
                have = {"Workbook": d, "Book": older(s)}
                fs = [(n, have[n]) for n in s["inside"]] + [("\x05SummaryInformation", bytes(200)), ("Other", older(s))][:rng.randrange(3)]
                rng.shuffle(fs)
                return ole.pack(rng, fs, frag=rng.choice([0, .5, 1]))
            return ole.simple(rng.choice(["Workbook", "Book"]), d, s["seed"], 0 if s["box"] == "whole" else 1)
        return d
    junk = bytes(rng.randrange(256) for _ in range(s["n"]))
    if s["start"] == "xls":
        return ole.SIG + junk
    k = rng.randrange(6)
    sig = [b"PK\3", b"PK\5\6", ole.SIG[:7], ole.SIG[:7] + b"\xe2", b"\0PK\3\4", b"\0" + ole.SIG][k]
    return sig + junk


def run(s):
    d = tempfile.mkdtemp(prefix="fk_")
    home, cwd = os.environ.get("HOME"), os.getcwd()
    try:
        b = data(s)
        name = s.get("name", "a b.xls")
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(b)
        os.environ["HOME"] = d
        os.chdir(d)
        o = {"kinds": [], "open": [], "plain": ""}
        o["kinds"] = [xlrd.inspect_format(p), xlrd.inspect_format(content=b), xlrd.inspect_format("~/" + name),
                      xlrd.inspect_format(path=name), xlrd.inspect_format(p, b)]
        o["kinds"] = ["none" if k is None else k for k in o["kinds"]]
        kw = dict(logfile=sheetev._Null(), formatting_info=True)
        dig = lambda **k: observe.digest(observe.book_doc(xlrd.open_workbook(**dict(kw, **k))))
        if s["book"]:
            o["plain"] = dig(file_contents=workbook(s))
            if s["inside"]:
                o["old"] = dig(file_contents=older(s))
        for r in s["routes"]:
            m = None
            try:
                if r == "bytes":
                    x = dig(file_contents=b)
                elif r == "path":
                    x = dig(filename=p)
                elif r == "path-nommap":
                    x = dig(filename=p, use_mmap=False)
                elif r == "home":
                    x = dig(filename="~/" + name)
                elif r == "home-nommap":
                    x = dig(filename=os.path.join("~", name), use_mmap=False)
                elif r == "relative":
                    x = dig(filename=name)
                elif r == "both":
                    x = dig(filename="no such file.xlsx", file_contents=b)
                else:
                    with open(p, "rb") as f:
                        m = mmap.mmap(f.fileno(), len(b), access=mmap.ACCESS_READ)
                    x = dig(file_contents=m)
            except xlrd.XLRDError as e:
                t = str(e).lower()
                k = [w for w in ("xlsx", "xlsb", "ods", "zip") if w in t]
                x = "refused" + (" " + k[0] if k else "")
            except Exception as e:
                x = "other"
                o.setdefault("msg", "%s: %s" % (type(e).__name__, str(e)[:150]))
            o["open"].append(x)
        return o
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        shutil.rmtree(d, ignore_errors=True)


STAGES = {k: (run, "TraceFileKind") for k in ("model-behaviours", "archives", "workbooks", "junk")}
TELLING = ["xl/workbook.xml", "xl/workbook.bin", "content.xml"]


def style(rng, w):
    w = "".join(c.upper() if rng.random() < .3 else c for c in w) if rng.random() < .5 else w
    return w.replace("/", "\\") if rng.random() < .4 else w


# members which archives of all kinds carry, and which tell nothing
OTHERS = ["mimetype", "META-INF/manifest.xml", "META-INF/container.xml", "meta.xml", "styles.xml", "settings.xml", "[Content_Types].xml", "_rels/.rels", "xl/sharedStrings.xml", "xl/styles.xml",
          "xl/worksheets/sheet1.xml", "xl/worksheets/sheet1.bin", "docProps/app.xml", "word/document.xml", "ppt/presentation.xml", "xl", "xl/", "content", "workbook.xml", "workbook.bin", "index.html",
          "Workbook", "Book", "doc.kml", "OEBPS/content.opf"]


def rand_name(rng):
    k = rng.random()
    if k < .25:
        return style(rng, rng.choice(TELLING))
    if k < .35:
        return rng.choice(OTHERS)
    if k < .55:
        w = rng.choice(TELLING)
        return rng.choice(["x" + w, w + "x", w + ".rels", "docs/" + w, w[:-1], "./" + w, w.replace("xml", "xm1"), w.replace("/", "_"), w.replace("/", "//"), w + " "])
    return "".join(rng.choice("abcXYZ/._-\u00e9 ") for _ in range(rng.randrange(1, 20)))


def base(rng, **kw):
    s = {"seed": rng.getrandbits(30), "book": False, "start": "zip", "names": [], "inside": [], "routes": rng.sample(ROUTES, 4)}
    s.update(kw)
    return s


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("FileKindMC", tag="S")
    ctx.validate("model-behaviours", "TraceFileKind", [base(rng, names=d["names"]) for d in docs if d["names"]], run)
    scns = []
    for _ in range(ctx.n(600, 6000)):
        ns = []
        for _ in range(rng.choice([1, 2, 5, 30])):
            w = rand_name(rng)
            if w not in ns:
                ns.append(w)
        scns.append(base(rng, names=[units(w) for w in ns], comment=rng.choice([0, 0, 40])))
    ctx.validate("archives", "TraceFileKind", scns, run)
    scns = []
    for _ in range(ctx.n(250, 3000)):
        st = rng.choice(["xls", "xls", "none"])
        scns.append(base(rng, start=st, book=True, ver=rng.choice([80, 80, 70, 50, 40, 30, 20]), pad=rng.choice([0, 0, 5000, 20000, 40000]),
                         box=rng.choice(["whole", "pieces", "mini"]), routes=ROUTES,
                         name=rng.choice(["a.xls", "b c.xls", "\u00e9t\u00e9.xlsx", "~x.xls", "noext"])))
    for _ in range(ctx.n(100, 1200)):
        scns.append(base(rng, start="xls", book=True, ver=80, oldver=rng.choice([50, 70]), box="both", routes=rng.sample(ROUTES, 3),
                         inside=rng.choice([["Workbook", "Book"], ["Book", "Workbook"], ["Book"]])))
    ctx.validate("workbooks", "TraceFileKind", scns, run)
    ctx.validate("junk", "TraceFileKind", [base(rng, start=rng.choice(["xls", "none"]), n=rng.choice([0, 1, 5, 100, 2000])) for _ in range(ctx.n(150, 1500))], run)
