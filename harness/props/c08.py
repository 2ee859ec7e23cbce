"""C08: on-demand loading, unloading, releasing (spec: Lifecycle, LifecycleMC, TraceLifecycle)."""
import os, mmap, tempfile, itertools
import core, biff, rich, observe, ole, sheetev, xlrd

_N = itertools.count()


def make(s):
    """Streams of the workbook with and without its unreadable sheets."""
    b = rich.book(s["seed"], s["ver"], [0] * s["opt"]["n"] if s["ver"] >= 50 else None)
    for sh, nm in zip(b["sheets"], s["opt"]["names"]):
        sh["name"] = nm
    good = rich.stream(b, s.get("order"))
    for i in s["opt"]["bad"]:
        sh = b["sheets"][i - 1]
        k = s["damage"]
        if k == "short":
            sh["groups"] = sh["groups"] + [biff.rec(0x0203, b"\0\0\0")]
        elif k == "bof":
            sh["raw"] = biff.rec(0x0208, bytes(16)) + biff.EOF
        else:
            sh["offset"] = 1 << 24
    return good, rich.stream(b, s.get("order"))


def run(s):
    good, data = make(s)
    n = s["opt"]["n"]
    path = None
    try:
        kw = dict(formatting_info=s["fmt"], ragged_rows=s["ragged"], logfile=sheetev._Null())
        e = xlrd.open_workbook(file_contents=good, **kw)
        ref = [observe.digest(observe.sheet_doc(e.sheet_by_index(i))) for i in range(n)]
        bref = observe.digest(observe.book_doc(e, sheets=False))
        if s["how"] == "bytes":
            src = dict(file_contents=data)
        elif s["how"] == "container":
            src = dict(file_contents=ole.simple("Workbook", data))
        else:
            path = os.path.join(s["tmp"], "w%d_%d" % (os.getpid(), next(_N)))
            with open(path, "wb") as f:
                f.write(ole.simple("Workbook", data) if "ole" in s["how"] else data)
            src = dict(filename=path, use_mmap="mmap" in s["how"])
        bk = xlrd.open_workbook(on_demand=s["od"], **dict(kw, **src))
    except Exception as ex:
        return {"err": type(ex).__name__, "msg": str(ex)[:200]}
    finally:
        if path:
            os.unlink(path)
    held, its, a = [], [], []

    def mine(got):
        """The list handed out is the caller's own: what the caller does with it changes nothing."""
        keep = list(got)
        got.reverse()
        del got[len(got) // 2:]
        return keep

    def doc(sh):
        held.append(sh)
        return observe.digest(observe.sheet_doc(sh))

    def one(q):
        f = q["f"]
        arg = None
        if "t" in q:
            arg = q["i"] if q["t"] == "i" else q["s"]
        if f == "get":
            if q.get("item"):
                return doc(bk[arg])
            return doc((bk.sheet_by_index if q["t"] == "i" else bk.sheet_by_name)(arg))
        if f == "sheets":
            return [doc(x) for x in mine(bk.sheets())]
        if f == "list":
            return [doc(x) for x in list(bk)]
        if f == "iter":
            its.append(iter(bk))
            return "ok"
        if f == "next":
            try:
                return doc(next(its[q["k"] - 1]))
            except StopIteration:
                return "stop"
        if f == "loaded":
            v = bk.sheet_loaded(arg)
            return v if isinstance(v, bool) else core.norm(v)
        if f == "unload":
            bk.unload_sheet(arg)
            return "ok"
        if f == "release":
            bk.release_resources()
            return "ok"
        if f == "enter":
            return "ok" if bk.__enter__() is bk else "other"
        if f == "leave":
            with bk as x:
                pass
            return "ok" if x is bk else "other"
        if f == "leave_by_error":
            try:
                with bk:
                    raise KeyError("mine")
            except KeyError:
                return "ok"
            return "swallowed"
        if f == "names":
            return mine(bk.sheet_names())
        if f == "nsheets":
            return core.norm(bk.nsheets)
        if f == "book":
            return observe.digest(observe.book_doc(bk, sheets=False))
        if f == "look":
            return observe.digest(observe.sheet_doc(held[q["k"] - 1])) if q["k"] <= len(held) else "never got it"
        raise core.MachineryError(f)
    for q in s["q"]:
        try:
            a.append(one(q))
        except core.MachineryError:
            raise
        except xlrd.XLRDError:
            a.append("refused")
        except Exception:
            a.append("fails")
    bk.release_resources()
    return {"a": a, "ref": ref, "book": bref}


STAGES = {k: (run, "TraceLifecycle") for k in ("model-behaviours", "random")}


def scn(rng, q, n, names, od=True, bad=(), ver=None):
    ver = ver or rng.choice([80, 80, 70, 50])
    order = list(range(n))
    if rng.random() < .3:
        rng.shuffle(order)
    return {"seed": "c08/%d" % rng.randrange(10 ** 9), "ver": ver, "fmt": rng.random() < .5, "ragged": rng.random() < .3, "od": od,
            "how": rng.choice(["bytes", "bytes", "container", "path-mmap", "path-read", "ole-mmap", "ole-read"]), "order": order,
            "damage": rng.choice(["short", "bof", "offset"]),
            "opt": {"n": n, "names": names, "lazy": od and ver >= 50, "bad": list(bad)}, "q": q}


def randq(rng, n, names, lazy, bad):
    """Random requests; held sheets are tracked only well enough to look at them."""
    q, its, held = [], 0, 0
    loaded, rel = set(range(n)) if not lazy else set(), not lazy
    pos = {}

    def tgt():
        if rng.random() < .1:
            return {"t": "i", "i": n + rng.randrange(3)} if rng.random() < .5 else {"t": "s", "s": "nobody"}
        i = rng.randrange(n)
        return {"t": "i", "i": i} if rng.random() < .5 else {"t": "s", "s": names[i]}

    def ix(t):
        if t["t"] == "i":
            return t["i"] if t["i"] < n else None
        return names.index(t["s"]) if t["s"] in names else None

    def fetch(i):
        if i in loaded:
            return True
        if rel or i + 1 in bad:
            return False
        loaded.add(i)
        return True
    for _ in range(rng.choice([3, 8, 20])):
        k = rng.random()
        if k < .3:
            t = tgt()
            q.append(dict(t, f="get", item=rng.randrange(2)))
            held += ix(t) is not None and fetch(ix(t))
        elif k < .4:
            q.append({"f": rng.choice(["sheets", "list"])})
            ok = all([fetch(i) for i in range(n)]) if not bad and not rel else set(range(n)) <= loaded
            if bad and not rel:
                for i in range(n):
                    if not fetch(i):
                        break
                ok = set(range(n)) <= loaded
            held += n if ok else 0
        elif k < .45:
            its += 1
            pos[its] = 0
            q.append({"f": "iter"})
        elif k < .55 and its:
            j = rng.randrange(1, its + 1)
            q.append({"f": "next", "k": j})
            if 0 <= pos[j] < n:
                if fetch(pos[j]):
                    held += 1
                    pos[j] += 1
                else:
                    pos[j] = -1
        elif k < .65:
            q.append(dict(tgt(), f="loaded"))
        elif k < .77:
            t = tgt()
            q.append(dict(t, f="unload"))
            if ix(t) is not None:
                loaded.discard(ix(t))
        elif k < .8:
            q.append({"f": rng.choice(["release", "leave", "leave_by_error"])})
            rel = True
        elif k < .84:
            q.append({"f": rng.choice(["enter", "names", "nsheets", "book"])})
        elif held:
            q.append({"f": "look", "k": rng.randrange(1, held + 1)})
    return q


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("LifecycleMC", "LifecycleMC_deep" if ctx.thorough else "LifecycleMC", tag="S")
    if not ctx.thorough and len(docs) > 4000:
        docs = rng.sample(docs, 4000)
    with tempfile.TemporaryDirectory(prefix="c08_") as tmp:
        sc = []
        for d in docs:
            s = scn(rng, d["q"], 2, ["a", "b"], d["opt"]["lazy"], d["opt"]["bad"])
            sc.append(dict(s, tmp=tmp))
        ctx.validate("model-behaviours", "TraceLifecycle", sc, run)
        sc = []
        for _ in range(ctx.n(2500, 30000)):
            ver = rng.choice([80, 80, 80, 70, 50, 40, 21])
            n = rng.choice([1, 2, 3, 5]) if ver >= 50 else 1
            names = rng.sample(rich.SHEETS, n) if ver >= 50 else ["Sheet 1"]
            od = rng.random() < .8
            bad = sorted(rng.sample(range(1, n + 1), 1)) if od and ver >= 50 and rng.random() < .3 else []
            s = scn(rng, randq(rng, n, names, od and ver >= 50, bad), n, names, od, bad, ver)
            sc.append(dict(s, tmp=tmp))
        ctx.validate("random", "TraceLifecycle", sc, run)
