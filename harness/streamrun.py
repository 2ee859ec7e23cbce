"""Opening streams made by streams.py and recording what is reported
(judged by TraceStream)."""
import os, random, shutil, tempfile, hashlib
import biff, ole, rich, observe, sheetev, streams, xlrd
from biff import rec, P
from core import norm

NUM = {20: 0x0003, 30: 0x0203, 40: 0x0203, 45: 0x0203, 50: 0x0203, 70: 0x0203, 80: 0x0203}


def number(ver, r, v):
    if ver == 20:
        return rec(3, P("<HH3sd", r, 0, bytes(3), v))
    return rec(0x203, P("<HHHd", r, 0, 0, v))


def styles(ver):
    return b"".join(biff.base_styles(ver, [0] * 16))


# ------------------------------------------------------------------- plain
def realise(rng, ver, items, header):
    """Abstract items (from the model) to bytes; used items are numbers, or
    fonts in the header of version 5 and later."""
    out = []
    for k, i, _ in items:
        if k == "used":
            b = biff.font_rec(ver, "n%d" % i) if header and ver >= 50 else number(ver, i, float(i))
        elif k == "noise":
            b = streams.noise(rng, ver)
        elif k == "pass":
            b = streams.filepass(rng, ver)
        else:
            b = biff.bof(ver, 0x20) if k == "bof" else biff.EOF
        out.append([k, i, b])
    return out


def plain_stream(s):
    """s: {ver, items, hdr, seed}"""
    rng = random.Random("plain/%r" % s["seed"])
    ver, it = s["ver"], realise(random.Random(s["seed"]), s["ver"], s["items"], s["hdr"])
    sh = [{"name": "Sheet1", "vis": 0, "type": 0}]
    pre = ["noise", 0, (biff.dim_rec(ver, 0, 9, 0, 1) if not s["hdr"] or ver < 50 else b"") + (styles(ver) if ver <= 45 else b"")]
    if ver < 50:
        return streams.assemble(ver, [pre] + it, sh, [])
    if s["hdr"]:
        one = [["noise", 0, biff.dim_rec(ver, 0, 9, 0, 1)], ["used", 1, number(ver, 1, 1.0)], ["eof", 0, biff.EOF]]
        return streams.assemble(ver, [["noise", 0, None]] + it, sh, [one])
    return streams.assemble(ver, [["noise", 0, styles(ver)], ["noise", 0, None], ["eof", 0, biff.EOF]], sh, [[pre] + it])


def items_4w(s):
    """A version 4 workbook woven with noise; s: {seed, p, put}."""
    rng = random.Random("4w/%r" % s["seed"])
    n = rng.randrange(1, 4)
    names = ["S%d" % k for k in range(n)]
    subs = []
    for k in range(n):
        g = [["noise", 0, biff.dim_rec(45, 0, 9, 0, 1) + styles(45)]]
        sub = streams.weave(rng, 45, [number(45, i, float(i + 1)) for i in range(rng.randrange(6))], s["p"], .3, 2)
        subs.append(g + sub)
    where = rng.randrange(n + 1) if s.get("put") else -1
    if where > 0:
        sub = subs[where - 1]
        top, d = [], 0
        for i, it in enumerate(sub):
            if d == 0:
                top.append(i)
            d += {"bof": 1, "eof": -1}.get(it[0], 0)
            if d < 0:
                break
        sub.insert(rng.choice(top), ["pass", 0, streams.filepass(rng, 45)])
    head = []
    while rng.random() < s["p"]:
        head.append(["noise", 0, streams.noise(rng, 45)])
    b0 = biff.bof(45, 0x100)
    at = len(b0) + sum(len(h[2]) for h in head)
    ent = b"".join(rec(0x85, biff.name8(45, x)) for x in names)
    so = rec(0x8E, P("<i", at + 8 + len(ent)))
    head.append(["noise", 0, so + ent])
    at += len(so) + len(ent)
    starts = []
    for k in range(n):
        while rng.random() < s["p"] / 2:
            head.append(["noise", 0, streams.noise(rng, 45)])
            at += len(head[-1][2])
        body = biff.bof(45, 0x10) + b"".join(i[2] for i in subs[k])
        h = rec(0x8F, P("<i", len(body)) + biff.name8(45, names[k]))
        starts.append(at + len(h) + len(biff.bof(45, 0x10)))
        head.append(["noise", 0, h + body])
        at += len(h) + len(body)
    if where == 0:
        head.insert(rng.randrange(len(head) + 1), ["pass", 0, streams.filepass(rng, 45)])
        starts = [0] * n          # never looked at
    head.append(["eof", 0, biff.EOF])
    data = b0 + b"".join(h[2] for h in head)
    size = lambda l: [[i[0], i[1], len(i[2])] for i in l]
    return data, [len(b0)] + starts, [size(head)] + [size(x) for x in subs]


# ---------------------------------------------------------------- scenarios
def complete(s, parts):
    """Adds what the specification needs to know about the stream."""
    data, start, subs = parts
    s.update(start=start, subs=subs, size=len(data))
    return s, data


def make(s):
    """(stream bytes, whole) for a scenario."""
    if s["kind"] == "plain":
        return plain_stream(s)[0]
    if s["kind"] == "4w":
        return items_4w(s)[0]
    if "codes" in s:
        return streams.sweep_items(s["seed"], s["ver"], *s["codes"])[1][0]
    return streams.rich_items(s["seed"], s["ver"], s["p"], s["nest"], s["deep"], None, s.get("put"))[1][0]


def base(s):
    if "codes" in s:
        b = rich.book(s["seed"], s["ver"], [0])
        return rich.stream(b)
    b, parts, _ = streams.rich_items(s["seed"], s["ver"], 0)
    return parts[0]


def docs(bk, s, reports):
    """(head, [sheet]) of an open workbook."""
    if s["kind"] == "plain":
        cells = lambda sh: [norm(int(x)) for x in (sh.cell_value(r, 0) for r in range(sh.nrows)) if isinstance(x, float)]
        if s["ver"] < 50:
            return cells(bk.sheet_by_index(0)), []
        head = [int(f.name[1:]) for f in bk.font_list if f.name[:1] == "n"] if s["hdr"] else []
        return head, [reports(lambda k=k: cells(bk.sheet_by_index(k))) for k in range(bk.nsheets)]
    if s["kind"] == "4w":
        cells = lambda sh: [norm(int(x)) for x in (sh.cell_value(r, 0) for r in range(sh.nrows)) if isinstance(x, float)]
        return [], [reports(lambda k=k: cells(bk.sheet_by_index(k))) for k in range(bk.nsheets)]
    head = observe.book_doc(bk, sheets=False)
    if s["ver"] < 50:
        head["sheet"] = observe.sheet_doc(bk.sheet_by_index(0))
        return observe.digest(head), []
    return observe.digest(head), [reports(lambda k=k: observe.digest(observe.sheet_doc(bk.sheet_by_index(k)))) for k in range(bk.nsheets)]


def handles(path):
    fds = maps = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + f).startswith(path):
                fds += 1
        except OSError:
            pass
    with open("/proc/self/maps") as f:
        maps = sum(path in l for l in f)
    return fds, maps


def run(s):
    want = None
    if s["kind"] == "rich":
        kw = dict(formatting_info=s["fmt"], logfile=sheetev._Null())
        bk = xlrd.open_workbook(file_contents=base(s), **kw)
        want = docs(bk, s, lambda f: f())
    data = make(s)
    whole = data
    data = data[:s["size"]] + bytes(s.get("zero", 0))
    if s.get("ole"):
        data = ole.simple(s["ole"], data, s["seed"], s.get("frag", .5), whole[s["size"]:])
    kw = dict(formatting_info=s["fmt"], on_demand=s["lazy"], logfile=sheetev._Null())
    if s.get("verb"):
        kw["verbosity"] = s["verb"]

    def reports(f):
        try:
            return f()
        except Exception as e:
            return "raises"
    via = s.get("via", "contents")
    d = None
    o = {}
    try:
        if via == "contents":
            kw["file_contents"] = data
        else:
            d = tempfile.mkdtemp(prefix="st_")
            path = os.path.join(d, "f.xls")
            with open(path, "wb") as f:
                f.write(data)
            before = (os.stat(path).st_mtime_ns, hashlib.sha1(data).hexdigest())
            kw.update(filename=path, use_mmap=via == "mmap")
        bk = err = None
        try:
            bk = xlrd.open_workbook(**kw)
            o["open"] = "ok"
        except Exception as e:
            err = e          # kept alive, as a caller's handler would
            x = isinstance(e, xlrd.XLRDError)
            o["open"] = ("encrypted" if "encrypted" in str(e) else "refused") if x else "fails"
            o["msg"] = "%s: %s" % (type(e).__name__, str(e)[:120])
        if bk is not None:
            h = docs(bk, s, reports)
            if want is not None:
                h = (0 if h[0] == want[0] else "differs",
                     [0 if x == y else x if x == "raises" else "differs" for x, y in zip(h[1], want[1])] + ["surplus"] * (len(h[1]) - len(want[1])))
            o["head"], o["subs"] = h
            bk.release_resources()
        if d:
            o["fds"], o["maps"] = handles(d)
            with open(path, "rb") as f:
                o["file"] = (os.stat(path).st_mtime_ns, hashlib.sha1(f.read()).hexdigest()) == before and os.listdir(d) == ["f.xls"]
        err = None
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return o


def used(sub):
    """Number of used items of a substream walked whole."""
    n = d = 0
    for k, _, _ in sub:
        if k == "eof" and d == 0:
            break
        n += k == "used" and d == 0
        d += {"bof": 1, "eof": -1}.get(k, 0)
    return n


def closed(items):
    """Does the walk of these items reach the closing EOF?"""
    d = 0
    for k, _, _ in items:
        d += {"bof": 1, "eof": -1}.get(k, 0)
        if d < 0:
            return True
    return False


def scenario(rng, kind, ver, seed=None, **kw):
    s = {"kind": kind, "ver": ver, "seed": rng.getrandbits(30) if seed is None else seed, "fmt": rng.random() < .7, "lazy": rng.random() < .5 and ver >= 50,
         "p": 0, "nest": 0, "deep": 2}
    s.update(kw)
    if kind == "plain":
        if s["hdr"] and ver >= 50:
            s["fmt"] = True          # the header's markers are fonts
        parts = plain_stream(s)
        types = [0]
    elif kind == "4w":
        s["ver"], s["lazy"] = 45, False
        parts = items_4w(s)
        types = [0] * 3
    elif "codes" in s:
        b, parts = streams.sweep_items(s["seed"], ver, *s["codes"])
        types = [0]
    else:
        b, parts, _ = streams.rich_items(s["seed"], ver, s["p"], s["nest"], s["deep"], None, s.get("put"))
        types = [x["type"] for x in b["sheets"]]
    s.update(start=parts[1], subs=parts[2], size=len(parts[0]), types=types, embed=kind == "4w", n=[used(x) for x in parts[2]])
    return s
