"""C01: well-formed containers (spec: Container, TraceContainer)."""
import ole
from oleshared import run, U, workbook

OTHER = ["\x05SummaryInformation", "\x05DocumentSummaryInformation", "\x01CompObj", "Ctls", "MBD0001", "PivotTable", "_VBA",
         "User Names", "Revision Log", "workbook2", "Book1", "WorkBoo", "W", "B", "Workbook ", " Workbook", "Book ", "\x01Book",
         "Book\n", "Workbook.xls"]


def vary(rng, name):
    return rng.choice([name, name, name.lower(), name.upper(), "".join(rng.choice([c.lower(), c.upper()]) for c in name)])


def one(rng, big=False, kind=None):
    kind = kind or rng.choice(["plain"] * 6 + ["mini"] * 3 + ["xsat", "dir", "ssz", "big"])
    ssz, sssz, mincut = 9, 6, 4096
    kw = {}
    if kind == "ssz":
        ssz = rng.choice([12, 12, 7, 8, 10, 11])
        sssz = rng.choice([6, 6, 4, 5, 7])
    if kind == "mini":
        sssz = rng.choice([6, 6, 6, 5, 7, 9])
    if rng.random() < .25:
        mincut = rng.choice([1, 64, 512, 1000, 8192])
    ss = 1 << ssz
    sizes = [mincut, mincut + 1, mincut - 1, 4096, 5000, 512 * 9, 4096 * 2 + 1, 20000] if kind != "mini" else \
        [0, 1, 63, 64, 65, 512, 700, 1500, mincut - 1]
    main = rng.choice(["Workbook", "Book"])
    z = rng.choice(sizes)
    if kind == "big":
        z = rng.choice([100000, 300000])
    if kind == "mini":
        z = min(z, mincut - 1)
    streams = [([U(vary(rng, main))], z)]
    if rng.random() < .1:
        streams.append(([U(vary(rng, "Book" if main == "Workbook" else "Workbook"))], rng.choice(sizes)))
    storages = []
    names = rng.sample(OTHER, rng.randrange(0, 6))
    for nm in names:
        if rng.random() < .25:
            st = [U(nm)]
            storages.append(st)
            for k in range(rng.randrange(0, 4)):
                streams.append((st + [U(rng.choice(["Workbook", "Book", "a", "\x01Ole", "dir"]) + str(k) * (k > 0))],
                                rng.choice([0, 10, 64, 600, mincut, 5000])))
        else:
            streams.append(([U(nm)], rng.choice([0, 10, 64, 100, 600, mincut, 5000])))
    if kind == "dir":
        n = rng.choice([60, 252, 300, 700])
        st = []
        if rng.random() < .5:
            st = [U("lots")]
            storages.append(st)
        for i in range(n):
            streams.append((st + [U("s%d" % i)], 0))
        kw["shape"] = rng.choice(["bst", "balanced", "right", "left"])
    else:
        kw["shape"] = rng.choice(["bst", "bst", "balanced", "right"])
    # deep path
    if rng.random() < .15:
        p = []
        for k in range(rng.choice([2, 5])):
            p = p + [U("st%d" % k)]
            storages.append(list(p))
        streams.append((p + [U("Workbook")], rng.choice(sizes)))
    if kind == "xsat":
        # over-allocated tables force extension sectors without a huge file
        if ssz == 9:
            kw["extra_sat"] = rng.choice([105, 108, 109, 130, 236, 240])
    c = ole.well_formed(rng, streams, ssz, sssz, mincut, frag=rng.choice([0, .5, 1]), free=rng.choice([0, 0, 1, 5]),
                        storages=storages, dirpad=rng.choice([0, 0, 3]), msatx_none=rng.choice([-2, -2, -1, 0]),
                        tail=rng.choice([0, 0, 0, 0, 100, ss - 1]), minifree=rng.choice([0, 0, 2]),
                        hi=rng.random() < .3, first=rng.choice([None, None, "x", "sat", "dir", "ssat", "box"]),
                        msatx_end=rng.choice([-2, -2, -1]), holes=rng.choice([0, 0, 1, 3, 110]), **kw)
    q = []
    order = streams[:1] + rng.sample(streams[1:], min(len(streams) - 1, rng.randrange(0, 4)))
    for i, (p, _z) in enumerate(order):
        path = [[ord(ch) for ch in vary(rng, "".join(map(chr, x)))] for x in p]
        q.append({"path": path, "api": "locate" if i == 0 or rng.random() < .5 else "get", "ignore": rng.random() < .3,
                  "same": rng.random() < .5})
    q.append({"path": [U("nosuchname")], "api": "locate", "ignore": False})
    q.append({"path": [U("Workbo")], "api": "get", "ignore": False})
    for x in q:
        if x.get("same"):
            x["ignore"] = q[0]["ignore"]
    return {"c": c, "q": q, "must_be_data": True}


def entries(c):
    """(regular chain or mini chain) of the first stream, read from the tables."""
    nent = (1 << c["ssz"]) // 4
    m = list(c["msat"])
    s = c["msatx"] if c["nmsatx"] else -2
    while s >= 0 and len(m) < 5000:
        v = c["ints"][str(s)]
        m += [x for x in v[:nent - 1] if x >= 0]
        s = v[nent - 1]
    sat = []
    for x in m:
        v = c["ints"][str(x)]
        sat += v + [-1] * (nent - len(v))

    def walk(t, s):
        l = []
        while s >= 0 and len(l) < 5000:
            l.append(s)
            s = t[s]
        return l
    ents = [e for s in walk(sat, c["dir"]) for e in c["dirs"][str(s)]]
    ssat = []
    for x in walk(sat, c["ssat"]):
        v = c["ints"][str(x)]
        ssat += v + [-1] * (nent - len(v))
    return sat, ssat, walk, ents


def end_to_end(rng):
    """A real workbook inside: the cells are what the bare stream gives."""
    n = rng.choice([0, 1, 40, 150, 154, 400, 1500])
    size = len(workbook(n))
    ssz = rng.choice([9, 9, 12])
    mincut = 4096
    name = vary(rng, rng.choice(["Workbook", "Book"]))
    streams = [([U(name)], size)] + [([U(x)], rng.choice([0, 100, 5000])) for x in rng.sample(OTHER, rng.randrange(0, 4))]
    if name.lower() == "workbook" and rng.random() < .3:
        streams.append(([U(vary(rng, "Book"))], 5000))
    c = ole.well_formed(rng, streams, ssz, 6, mincut, frag=rng.choice([0, .5, 1]), free=rng.choice([0, 3]),
                        tail=rng.choice([0, 0, 200]), extra_sat=rng.choice([0, 0, 0, 0, 120]))
    sat, ssat, walk, ents = entries(c)
    e = [x for x in ents if x["n"] == U(name)][0]
    wb = {"n": n}
    if size >= mincut:
        wb["chain"] = walk(sat, e["s"])
    else:
        wb["mini"] = walk(ssat, e["s"])
        wb["box"] = walk(sat, ents[0]["s"])
    return {"c": c, "wb": wb, "must_be_data": True,
            "q": [{"path": [U(name)], "api": "open", "ignore": False}]}


def long_chains(rng):
    """Degenerate sibling lists much longer than any recursion limit."""
    n = rng.choice([1200, 2500])
    streams = [([U("Workbook")], 5000)] + [([U("s%d" % i)], 0) for i in range(n)]
    c = ole.well_formed(rng, streams, frag=.5, shape=rng.choice(["right", "left"]))
    return {"c": c, "q": [{"path": [U("WorkBook")], "api": "locate", "ignore": False}], "must_be_data": True}


def huge(rng, ssz):
    """Two or more extension sectors of the master table in real use: the
    streams lie in sectors beyond the first 237 (141) allocation sectors."""
    z = 60000 if ssz == 9 else rng.choice([600000, 700000])
    streams = [([U(vary(rng, "Workbook"))], z), ([U("other")], 30000), ([U("m")], 100)]
    c = ole.well_formed(rng, streams, ssz, 6, 4096, frag=1, free=rng.choice([31000, 47000]) if ssz == 9 else 0,
                        shape="balanced", first=rng.choice(["x", "x", "sat"]), msatx_end=rng.choice([-2, -1]))
    return {"c": c, "must_be_data": True,
            "q": [{"path": p, "api": a, "ignore": False, "same": True}
                  for p, a in (([U("workbook")], "locate"), ([U("Other")], "get"), ([U("M")], "locate"))]}


STAGES = {k: (run, "TraceContainer") for k in ("random", "tables", "huge", "workbook", "degenerate-tree")}


def check(ctx):
    rng = ctx.rng
    ctx.validate("random", "TraceContainer", [one(rng, kind=rng.choice(["plain", "plain", "mini", "mini", "ssz", "dir"]))
                                              for _ in range(ctx.n(1200, 10000))], run, limit=30, chunk=600)
    ctx.validate("tables", "TraceContainer", [one(rng, kind="xsat") for _ in range(ctx.n(20, 150))] +
                 [one(rng, kind="big") for _ in range(ctx.n(10, 100))], run, limit=60, chunk=100)
    ctx.validate("huge", "TraceContainer", [huge(rng, 9) for _ in range(ctx.n(1, 8))] + [huge(rng, 7) for _ in range(ctx.n(2, 30))],
                 run, limit=120, chunk=8, sample=0)
    ctx.validate("workbook", "TraceContainer", [end_to_end(rng) for _ in range(ctx.n(100, 1000))], run, limit=30, chunk=300)
    ctx.validate("degenerate-tree", "TraceContainer", [long_chains(rng) for _ in range(ctx.n(2, 10))], run, limit=30)
