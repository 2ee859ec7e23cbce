"""C02: damaged containers (spec: Container, ContainerMC, TraceContainer)."""
import copy
import ole
from ole import EMPTY
from oleshared import run, U, fill_dup
from props import c01

WB = [U("Workbook")]


def ent(n, t, c=-1, s=-2, z=0, l=-1, r=-1):
    return {"n": U(n) if isinstance(n, str) else n, "t": t, "l": l, "r": r, "c": c, "s": s, "z": z}


def from_model(d, mini):
    """A container around one allocation function of ContainerMC."""
    n = len(d["f"])
    c = {"sig": True, "bom": True, "cut": 0, "ssz": 9, "sssz": 6, "usz": 6, "hssz": 9, "hsssz": 6, "nsecs": n + 2, "tail": 0,
         "dir": 1, "mincut": 1, "ssat": -2, "nssat": 0, "msatx": -2, "nmsatx": 0, "nsat": 1, "msat": [0], "dup": {}}
    if mini:
        c["mincut"] = 4096
        c["ints"] = {"0": [-3, -2, -2, -2], "3": d["f"]}
        c["nsecs"] = 4
        c["ssat"], c["nssat"] = 3, 1
        root = ent("Root Entry", 5, 1, 2, n * 64)
    else:
        c["ints"] = {"0": [-3, -2] + d["f"]}
        root = ent("Root Entry", 5, 1)
    c["dirs"] = {"1": [root, ent("Workbook", 2, s=d["start"], z=d["size"])] + [dict(EMPTY)] * 2}
    return fill_dup({"c": c, "q": [{"path": WB, "api": "locate", "ignore": d["ign"]}], "must_be_data": False})


def small(rng):
    kind = rng.choice(["plain", "plain", "mini", "xsat"])
    mincut = rng.choice([4096, 512, 300])
    z = rng.choice([mincut, mincut + 700, mincut * 2]) if kind != "mini" else rng.choice([0, 1, 64, 200, mincut - 1, 255])
    streams = [(WB, z)] + [([U(x)], rng.choice([0, 64, 200, 299, mincut, mincut + 600])) for x in rng.sample(["a", "Book", "zz"], rng.randrange(0, 3))]
    storages = [[U("st")]] if rng.random() < .3 else []
    kw = {"extra_sat": rng.choice([109, 110, 112])} if kind == "xsat" else {}
    c = ole.well_formed(rng, streams, 9, 6, mincut, frag=rng.choice([0, .5, 1]), free=rng.choice([0, 1]), storages=storages,
                        minifree=rng.choice([0, 1]), **kw)
    return c


def near(rng, c, v=None):
    n = c["nsecs"]
    return rng.choice([rng.randrange(n)] * 5 + [-1, -2, -2, -3, -4, -5, n, n - 1, n + 1, n + 200, 2**31 - 1, -2**31] + ([v] if v is not None else []))


def mutate(rng, c):
    k = rng.choice(["sat"] * 8 + ["ssat"] * 3 + ["hdr"] * 4 + ["ent"] * 5 + ["mark", "cut", "grow", "msat", "tree", "kill", "msx", "msx", "dirchain"])
    nent = 128
    sat, ssat, walk, ents = c01.entries(c)
    used = [i for i in range(min(len(sat), c["nsecs"])) if sat[i] != -1] or [0]
    if k in ("sat", "dirchain"):
        s = rng.choice(used)
        if k == "dirchain":
            s = rng.choice(walk(sat, c["dir"]))
        if s // nent < len(c["msat"]):
            v = c["ints"][str(c["msat"][s // nent])]
            while len(v) <= s % nent:
                v.append(-1)
            v[s % nent] = near(rng, c, s)
    elif k == "ssat":
        if c["ssat"] >= 0:
            v = c["ints"][str(c["ssat"])]
            if v:
                i = rng.randrange(len(v))
                v[i] = rng.choice([-1, -2, -3, i, i + 1, len(v), 127, 128, 2**31 - 1] + list(range(len(v))))
    elif k == "hdr":
        f = rng.choice(["dir", "ssat", "nssat", "msatx", "nmsatx", "nsat", "mincut", "hssz", "hsssz"])
        if f in ("nssat", "nmsatx", "nsat"):
            c[f] = rng.choice([0, 1, 2, c[f] + 1, 1000, -1])
        elif f == "mincut":
            c[f] = rng.choice([0, 1, 200, 4096, 100000])
        elif f == "hssz":
            c[f] = rng.choice([0, 1, 2, 8, 10, 12, 20, 21, 64])
        elif f == "hsssz":
            c[f] = rng.choice([0, 5, 7, 10, 64])
        else:
            c[f] = near(rng, c)
    elif k == "ent":
        e = rng.choice([x for x in ents if x["t"] in (2, 5)])
        if rng.random() < .6:
            e = [x for x in ents if x["n"] == U("Workbook")][0]
        if rng.random() < .5:
            e["s"] = near(rng, c)
        else:
            e["z"] = rng.choice([0, 1, 63, 64, 65, 299, 300, 511, 512, 513, 4095, 4096, e["z"] + 1, max(0, e["z"] - 1), e["z"] + 512,
                                 e["z"] + 64, max(0, e["z"] - 512), 2**31 - 1, -1, -2**31, 10**6])
    elif k == "tree":
        e = rng.choice(ents)
        f = rng.choice(["l", "r", "c", "t"])
        e[f] = rng.choice([-1, 0, 1, 2, 3, len(ents), 4]) if f != "t" else rng.choice([0, 1, 2, 3, 5])
    elif k == "mark":
        c[rng.choice(["sig", "bom"])] = False
    elif k == "cut":
        c["cut"] = 1 + rng.choice([8, 28, 30, 50, 76, 500, 511])
    elif k == "grow":
        c["tail"] = rng.choice([64, 128, 448])
    elif k == "kill" and c["nsecs"] > 1:
        drop = rng.choice([1, 1, 2, 3])
        t = rng.choice([0, 0, 64, 320])
        n = max(0, c["nsecs"] - drop)
        c["nsecs"], c["tail"] = n, t
        for d in ("ints", "dirs"):
            for s in list(c[d]):
                if int(s) >= n + (1 if t else 0):
                    del c[d][s]
    elif k == "msat":
        i = rng.randrange(len(c["msat"]))
        if rng.random() < .5:
            c["msat"][i] = near(rng, c)
        elif len(c["msat"]) < 109:
            c["msat"].append(near(rng, c))
    elif k == "msx" and c["nmsatx"] > 0 and c["msatx"] >= 0 and str(c["msatx"]) in c["ints"]:
        v = c["ints"][str(c["msatx"])]
        if len(v) == 128:
            v[127 if rng.random() < .6 else rng.randrange(0, 4)] = rng.choice([c["msatx"], near(rng, c), near(rng, c)])


def damaged(rng):
    while True:
        c = small(rng)
        ok = True
        for _ in range(rng.choice([1, 1, 1, 2])):
            try:
                mutate(rng, c)
            except (KeyError, IndexError):
                ok = False
                break
        if ok:
            break
    q = [{"path": WB, "api": "locate", "ignore": False}, {"path": WB, "api": "locate", "ignore": True}]
    return fill_dup({"c": c, "q": q, "must_be_data": False})


def master(rng):
    """Damage in the master table and its extension sectors."""
    c = ole.well_formed(rng, [(WB, rng.choice([4096, 9000])), ([U("a")], 100)], 9, 6, 4096, frag=rng.choice([0, .5, 1]),
                        extra_sat=rng.choice([109, 112, 236, 240]), first=rng.choice([None, "x", "x"]))
    xs, s = [], c["msatx"]
    while s >= 0:
        xs.append(s)
        s = c["ints"][str(s)][127]
    bad = rng.choice([-5, -6, -3, -100, -2**31, c["nsecs"], c["nsecs"] + 1, 2**31 - 1, xs[0], xs[0], rng.choice(xs), c["msat"][0], c["dir"],
                      rng.choice(c["msat"]), -1, -4, -2])
    k = rng.choice(["link", "link", "first", "entry", "entry", "head"])
    if k == "link":
        c["ints"][str(rng.choice(xs))][127] = bad
    elif k == "first":
        c["msatx"] = bad
    elif k == "entry":
        c["ints"][str(rng.choice(xs))][rng.randrange(0, 8)] = bad
    else:
        c["msat"][rng.choice([0, 1, 50, 108])] = bad
    q = [{"path": WB, "api": "locate", "ignore": i} for i in (False, True)]
    return fill_dup({"c": c, "q": q, "must_be_data": False})


def bad_tree(rng):
    """Directories whose links share, repeat or lose entries: must terminate."""
    n = rng.choice([3, 7, 11, 60, 199])
    ents = [ent("Root Entry", 5, rng.randrange(1, n + 1))]
    for i in range(1, n + 1):
        mode = rng.random()
        if mode < .5:                         # both links to the next entry: exponential if followed naively
            l = r = min(i + 1, n) if i < n else -1
        else:
            l, r = rng.choice([-1, i, 1, 0, n, n + 1]), rng.choice([-1, min(n, i + 1), rng.randrange(1, n + 1)])
        ents.append(ent("Workbook" if i == n else "s%d" % i, rng.choice([1, 2, 2]) if i < n else 2, rng.choice([-1, 1, n]), -2, 0, l, r))
    if rng.random() < .5:
        ents = ents[:1] + [ent("Workbook" if i == n else "s%d" % i, 2, -1, -2, 0, i + 1 if i < n else -1, i + 1 if i < n else -1) for i in range(1, n + 1)]
        ents[0]["c"] = 1
    while len(ents) % 4:
        ents.append(dict(EMPTY))
    ds = len(ents) // 4
    c = {"sig": True, "bom": True, "cut": 0, "ssz": 9, "sssz": 6, "usz": 6, "hssz": 9, "hsssz": 6, "nsecs": ds + 1, "tail": 0,
         "dir": 1, "mincut": 4096, "ssat": -2, "nssat": 0, "msatx": -2, "nmsatx": 0, "nsat": 1, "msat": [0], "dup": {},
         "ints": {"0": [-3] + list(range(2, ds + 1)) + [-2]}, "dirs": {str(1 + k): ents[4 * k:4 * k + 4] for k in range(ds)}}
    return {"c": c, "q": [{"path": WB, "api": "locate", "ignore": False}], "must_be_data": False}


STAGES = {k: (run, "TraceContainer") for k in ("model-behaviours", "model-mini", "model-deep", "damaged", "trees", "master")}


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("ContainerMC", tag="S")
    if not ctx.thorough:
        docs = rng.sample(docs, 5000)
    ctx.validate("model-behaviours", "TraceContainer", [from_model(d, False) for d in docs], run, chunk=8000)
    docs = ctx.model_check("ContainerMC", "ContainerMC_mini", tag="S")
    if not ctx.thorough:
        docs = rng.sample(docs, 2500)
    ctx.validate("model-mini", "TraceContainer", [from_model(d, True) for d in docs], run, chunk=8000)
    if ctx.thorough:
        docs = ctx.model_check("ContainerMC", "ContainerMC_deep", tag="S")
        ctx.validate("model-deep", "TraceContainer", [from_model(d, False) for d in rng.sample(docs, 30000)], run, chunk=8000)
    ctx.validate("damaged", "TraceContainer", [damaged(rng) for _ in range(ctx.n(2500, 30000))], run, chunk=2500, limit=20)
    ctx.validate("trees", "TraceContainer", [bad_tree(rng) for _ in range(ctx.n(150, 3000))], run, chunk=1500, limit=10)
    ctx.validate("master", "TraceContainer", [master(rng) for _ in range(ctx.n(120, 2000))], run, chunk=200, limit=20)
