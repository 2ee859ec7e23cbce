"""C23: cut streams, failing opens, handles (spec: Stream, Handles and their
MC and Trace modules)."""
import hashlib, io, os, random, shutil, tempfile, zipfile
import biff, ole, rich, sheetev, streams, streamrun, xlrd
from biff import rec, P
from streamrun import closed, handles, scenario

VERS = [80, 80, 80, 70, 50, 40, 30, 20]
run = streamrun.run


# ------------------------------------------------------------------ handles
class Angry:
    """A log that cannot be written to."""
    def write(self, x):
        raise IOError("log is full")

    def flush(self):
        pass


def content(s):
    """File bytes for a scenario of Handles, and the extra open options."""
    rng = random.Random("handles/%r" % s["seed"])
    kw, f, ver = {}, s["fails"], s["ver"]
    if f == "inspect":
        k = rng.choice(["zip", "xlsx", "xlsb", "ods", "badzip", "dir", "missing"] if s["route"] != "contents" else ["zip", "xlsx", "ods", "badzip"])
        if k in ("dir", "missing"):
            return k, kw
        if k == "badzip":
            return b"PK\x03\x04" + bytes(rng.randrange(256) for _ in range(rng.randrange(200))), kw
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            z.writestr({"zip": "a.txt", "xlsx": "xl/workbook.xml", "xlsb": "xl/workbook.bin", "ods": "content.xml"}[k], "x" * rng.randrange(3000))
        return b.getvalue(), kw
    if f == "obtain":
        return b"", kw
    put = ""
    b, parts, _ = streams.rich_items(s["seed"], ver, .1, .2, 1, [0, 0] if ver >= 50 else None)
    d = parts[0]
    if f == "header":
        k = rng.randrange(6)
        if k == 0:
            d = d[:rng.randrange(1, parts[1][0] + 4)]
        elif k == 1:
            d = streams.rich_items(s["seed"], ver, .1, 0, 1, [0, 0] if ver >= 50 else None, "pass")[1][0]
        elif k == 2:
            d = rng.choice([b"\xff\xfe", b"ab", b"\x09\x07"]) + d[2:]
        elif k == 3:
            e = parts[1][0] + sum(x[2] for x in parts[2][0]) - 4
            n = [i for i, x in enumerate(parts[2][0]) if x[0] == "eof"]
            d = d[:parts[1][0] + rng.randrange(sum(x[2] for x in parts[2][0][:n[-1] + 1]) - 1)] if len(n) == 1 else d[:6]
        elif k == 4:
            kw.update(verbosity=3, logfile=Angry())
        else:
            kw.update(encoding_override="no-such-encoding")
            if ver >= 80:
                d = d[:10]
    elif f == "sheets":
        if ver < 50:
            d = d[:-4] if parts[2][0][-1][0] == "eof" else d[:parts[1][0] + 2]
        else:
            last = max(parts[1][1:])
            d = d[:last + rng.choice([0, 0, 1, 2, 3])]
    if s["box"] != "bare":
        name = rng.choice(["Workbook", "Book"])
        if f == "locate" and rng.random() < .5:
            name = "WordDocument"
        if s["box"] == "whole" or f == "locate":
            d = d + bytes(max(0, 4096 - len(d))) if f not in ("sheets", "header") else d
        d = ole.simple(name, d, s["seed"], 0 if s["box"] == "whole" else 1)
        if f == "locate" and name != "WordDocument":
            k = rng.randrange(3)
            if k == 0:
                d = d[:rng.randrange(8, 512)]
            elif k == 1:
                d = d[:48] + P("<i", rng.choice([-2, -1, 1 << 24])) + d[52:]
            else:
                d = d[:28] + b"\xff\xfe" + d[30:]
    return d, kw


def run_handles(s):
    d = tempfile.mkdtemp(prefix="hd_")
    try:
        data, kw = content(s)
        path = os.path.join(d, "f.xls")
        before = None
        if data == "dir":
            os.mkdir(path)
        elif data != "missing":
            with open(path, "wb") as f:
                f.write(data)
            before = os.stat(path).st_mtime_ns
        kw.setdefault("logfile", sheetev._Null())
        kw.update(on_demand=s["lazy"], formatting_info=s["fmt"])
        if s["route"] == "contents":
            kw["file_contents"] = data
        else:
            kw.update(filename=path, use_mmap=s["route"] == "mmap")
        bk, o, late = None, {"late": False}, None
        try:
            bk = xlrd.open_workbook(**kw)
        except Exception as e:
            late = e
            o["msg"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        o["ok"] = bk is not None
        o["fds"], o["maps"] = handles(d)
        if bk is not None:
            if s["lazy"]:
                for k in range(bk.nsheets):
                    try:
                        bk.sheet_by_index(k)
                    except Exception as e:
                        late = e
                        o["late"] = True
            bk.release_resources()
        o["fds2"], o["maps2"] = handles(d)
        o["file"] = True
        if before is not None:
            with open(path, "rb") as f:
                o["file"] = f.read() == data and os.stat(path).st_mtime_ns == before and os.listdir(d) == ["f.xls"]
        late = None
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


STAGES = {k: (run, "TraceStream") for k in ("model-behaviours", "cut", "cut-everywhere", "zeroed")}
STAGES["handles"] = (run_handles, "TraceHandles")


# --------------------------------------------------------------------- cuts
def opts(rng):
    return dict(via=rng.choice(["contents", "path", "mmap"]), ole=rng.choice([0, "Workbook", "Book"]), frag=rng.choice([0, 0, .5]))


def cut(rng, s, n=None):
    """Cuts the stream of a scenario somewhere."""
    ends = []
    for st, sub in zip(s["start"], s["subs"]):
        p = st
        for k, _, z in sub:
            ends += [p, p + 1, p + 3, p + 4, p + z - 1] if k in ("eof", "bof") else [p, p + rng.randrange(z)] if z else [p]
            p += z
        ends += [p, p - 1, p - 2, p - 4]
    e = n if n is not None else rng.choice(ends) if rng.random() < .7 else rng.randrange(s["size"]) if rng.random() < .8 else s["size"] - rng.randrange(6)
    s["size"] = max(1, min(s["size"], e))
    return s


def lost(rng, s):
    """The tail of the stream was never written: zeros instead."""
    at = []
    for st, sub in zip(s["start"], s["subs"]):
        p = st
        for k, _, z in sub:
            at += [p] + ([p + 4 + rng.randrange(z - 4)] if z > 4 else [])
            p += z
    s["size"], size = rng.choice(at), s["size"]
    s["zero"] = rng.choice([size - s["size"], rng.randrange(600), 4096])
    return s


def check(ctx):
    rng = ctx.rng
    scns = []
    for h in (0, 1):
        docs = ctx.model_check("StreamMC", "StreamMC_%d" % h, tag="S")
        rng.shuffle(docs)
        for d in docs[:ctx.n(1200, 6000)]:
            ver = rng.choice([80, 70, 50] if h == 0 else VERS)
            s = scenario(rng, "plain", ver, items=d["items"], hdr=h, **opts(rng))
            sub = s["subs"][1 if h == 0 else 0]
            st = s["start"][1 if h == 0 else 0]
            k = len(sub) - len(d["items"]) + (d["cut"] if d["cut"] >= 0 else len(d["items"]))
            if h == 1 and ver >= 50 and d["cut"] == -1 and closed(d["items"]):
                scns.append(s)       # whole, with its sheet
                continue
            e = st + sum(x[2] for x in sub[:k])
            if d["cut"] >= 0 and k < len(sub):
                e += rng.randrange(sub[k][2])
            scns.append(cut(rng, s, e))
    ctx.validate("model-behaviours", "TraceStream", scns, run)
    scns = [cut(rng, scenario(rng, "rich", rng.choice(VERS), p=rng.choice([0, .1, .3]), nest=rng.choice([0, .3]), **opts(rng)))
            for _ in range(ctx.n(1500, 15000))]
    ctx.validate("cut", "TraceStream", scns, run)
    scns = []
    for v in [80, 70, 50, 40, 30, 20] * ctx.n(1, 4):
        s = scenario(rng, "rich", v, p=0, **opts(rng))
        while s["size"] > 6000:
            s = scenario(rng, "rich", v, p=0, **opts(rng))
        step = max(1, s["size"] // ctx.n(120, 1500))
        for e in range(1 + rng.randrange(step), s["size"], step):
            t = dict(s, via=rng.choice(["contents", "mmap"]))
            scns.append(cut(rng, t, e))
    ctx.validate("cut-everywhere", "TraceStream", scns, run)
    scns = [lost(rng, scenario(rng, "rich", rng.choice(VERS), p=rng.choice([0, .1]), **opts(rng))) for _ in range(ctx.n(400, 4000))]
    ctx.validate("zeroed", "TraceStream", scns, run)
    docs = ctx.model_check("HandlesMC", tag="S")
    scns = [dict(d, ver=rng.choice([80, 80, 70, 50]) if d["lazy"] else rng.choice(VERS), seed=rng.getrandbits(30), fmt=rng.random() < .5)
            for d in docs for _ in range(ctx.n(12, 120))]
    ctx.validate("handles", "TraceHandles", scns, run_handles)
