"""C13: formulas of defined names (spec: NameFormula over CellNames and FuncDefs,
NameFormulaMC, TraceNames)."""
import os, random, re, struct
import core, nameev
from core import units

STAGES = {k: (nameev.run, "TraceNames") for k in ("formulas", "programs", "references", "deep_programs")}
SHEETS = ["Sheet1", "Sheet2", "Tab", "R1C1", "RC", "A1", "ab12", "_x", "1st", "My Sheet", "O'Brien", "a'b c", "x-y", "café", "中文", "a.b", "Q1-2020",
          "p q", "Total&Sum", "2", " lead", "trail ", "two  blanks"]
NAMES = ["alpha", "Beta", "Gamma_1", "été", "Зима", "x.y", "_u", "total", "名前"]
TEXTS = ["", "a", "b", "A", "ab", "Zed", "say \"hi\"", "x y", "été", "1", "12", "-3", "007", "1.5", "20%", "1/2", "Z9", "中", "a,b", "(x)", "'q'"]
# sheet names that may be shown with or without quotes: few of those at a time
EITHER = ("R1C1", "RC", "A1", "ab12", "café", "中文", "a.b")
SC = 64
BIFF_ERR = (0, 7, 15, 23, 29, 36, 42)


def functions():
    """The functions of the specification: (number, fewest, most arguments)."""
    t = open(os.path.join(core.SPEC, "FuncDefs.tla")).read()
    rows = t[t.index("FuncTable == <<") + 15:t.index("FuncKnown")]
    return [(i, int(m.group(1)), int(m.group(2))) for i, m in enumerate(re.finditer(r"<<>>|<<<<[\d, ]*>>, (\d+), (\d+)>>", rows)) if m.group(1)]


FUNCS = functions()
FIXED = [(f, lo) for f, lo, hi in FUNCS if lo == hi]
VAR = [(f, lo, hi) for f, lo, hi in FUNCS if f not in (1, 100)]


def T(t, **k):
    k["t"] = t
    return k


def num(x):
    n = x * SC
    if n == int(n) and abs(n) < 1 << 24:
        return T("num", n=int(n), tx=units(str(float(x))))
    return T("raw", w=list(struct.unpack("<4H", struct.pack("<d", x))), tx=units(str(x)))


def number(rng):
    k = rng.random()
    if k < .45:
        n = rng.choice([0, 1, 2, 3, 10, 100, 255, 9999, 65535, rng.randrange(20), rng.randrange(65536)])
        return T("int", n=n, tx=units(str(float(n))))
    if k < .9:
        return num(rng.choice([0.5, -1.0, -2.0, 0.25, 3.0, -0.5, 12.75, 1.0 / SC, 0.0, 1000.5, -7.0, 99999.0, 100000.0, -123456.0, 250000.0, 200000.5, rng.randrange(-640, 640) / SC]))
    return num(rng.choice([0.1, 1e300, -1e300, 1e-300, 123456789.25, 1e16, 2.0 ** 40, 3.14159]))


def text(rng, ver=80):
    return T("str", u=units(rng.choice(TEXTS if ver >= 80 else [x for x in TEXTS if x != "中"])), wide=rng.random() < .2)


class Gen:
    """One workbook: its sheets and reference table, and formulas over them."""

    def __init__(self, rng, plain=False):
        self.rng = rng
        self.ver = ver = rng.choice([50, 70, 80, 80, 80])
        pool = [x for x in SHEETS if ver >= 80 or x != "中文"]
        if rng.random() < .6:
            pool = [x for x in pool if x not in EITHER]
        rng.shuffle(pool)
        n = rng.choice([1, 2, 3, 3, 5])
        types = [rng.choice([0, 0, 0, 0, 2, 1, 6]) for _ in range(n)]
        types[rng.randrange(n)] = 0
        if plain:
            types = [0] * n
        self.sheets = [{"n": units(x), "t": t, "v": 0} for x, t in zip(pool, types)]
        self.sup, self.refs, self.ext = [], [], []
        nw = types.count(0)
        self.dim = [rng.choice([[0, 0]] + [[rng.randrange(1, 10), rng.randrange(1, 10)]] * 5) for _ in range(nw)]
        ws = [i for i, t in enumerate(types) if t == 0]
        self.ranges = []
        for _ in range(rng.choice([1, 2, 4])):
            a = rng.choice(ws)
            b = rng.choice([x for x in ws if x >= a])
            self.ranges.append((a, a) if rng.random() < .6 else (a, b))
        odd = [] if plain else [(0xFFFE, 0xFFFE), (0xFFFF, 0xFFFF), (0, n), (rng.randrange(n), rng.randrange(n))]
        if ver >= 80:
            self.sup = rng.choice([["own"], ["ext", "own"], ["own", "addin"], ["addin", "ext", "own", "ext"], ["dde", "own", "addin", "dde"]]) if not plain else ["own"]
            own = self.sup.index("own")
            self.refs = [[own, a, b] for a, b in self.ranges]
            self.good = list(range(len(self.refs)))
            for f, l in odd:
                if rng.random() < .5:
                    self.refs.append([own, f, l])
            for i, k in enumerate(self.sup):
                if k != "own":
                    self.refs.append([i, 0xFFFE, 0xFFFE] if k in ("addin", "dde") else [i, rng.randrange(n), rng.randrange(n)])
            perm = list(range(len(self.refs)))
            rng.shuffle(perm)
            self.refs, old = [self.refs[i] for i in perm], self.refs
            self.good = [i for i, p in enumerate(perm) if p in self.good]
        else:
            self.ext = [{"t": 4, "u": [0x20]}] + [{"t": 3, "u": self.sheets[i]["n"]} for i in range(n)] + [{"t": 1, "u": units("other.xls")}]
            self.good = None
        self.addin = [units(x) for x in ("MYFN", "EOMONTH", "Fünf", 'say"so', "数")[:rng.randrange(1, 6)]] if "addin" in self.sup else []
        rng.shuffle(self.addin)
        self.extnames = [units(x) for x in ("ExtName", "Other")[:rng.randrange(3)]]
        self.defs, self.depth = [], []

    # -- leaves
    def coords(self, rel):
        rng, v = self.rng, self.ver >= 80
        mr, mc = (65535, 255) if v else (16383, 255)
        fr, fc = (rng.randrange(2), rng.randrange(2)) if rel else (0, 0)
        if self.fix:
            fr, fc = self.fix
        lo = (-32768, 32767) if v else (-8192, 8191)

        def r(f):
            return rng.choice([0, -1, 1, lo[0], lo[1], rng.randrange(-50, 50)]) if f else rng.choice([0, 1, 9, mr, rng.randrange(mr + 1), rng.randrange(12), rng.randrange(12)])

        def c(f):
            return rng.choice([0, -1, 1, -128, 127, rng.randrange(-20, 20)]) if f else rng.choice([0, 1, 25, 26, mc, rng.randrange(mc + 1), rng.randrange(12), rng.randrange(12)])
        one = rng.random() < .35
        fr2, fc2 = (fr, fc) if one or self.fix or rng.random() < .8 or not rel else (rng.randrange(2), rng.randrange(2))
        r1, r2, c1, c2 = r(fr), r(fr2), c(fc), c(fc2)
        if one:
            r2, c2 = r1, c1
        if fr == fr2 and r2 < r1:
            r1, r2 = r2, r1
        if fc == fc2 and c2 < c1:
            c1, c2 = c2, c1
        return dict(one=one, r1=r1, r2=r2, c1=c1, c2=c2, rr1=fr, rr2=fr2, cr1=fc, cr2=fc2)

    def ref(self, odd=.03, rel=.15, near=None):
        rng = self.rng
        d = self.coords(rng.random() < rel)
        cls = 1 if rng.random() < .9 else rng.choice([2, 3])
        if rng.random() < odd:
            return T("ref", cls=cls, **d)
        if self.ver >= 80:
            x = rng.choice(self.good) if rng.random() > odd else rng.randrange(len(self.refs) + (rng.random() < .1))
            if near is not None and rng.random() < .85:
                x = near
            return T("ref3d", cls=cls, x=x, **d)
        f, l = rng.choice(self.ranges) if near is None else near
        x = -rng.randrange(1, len(self.ext) + 1)
        if rng.random() < odd:
            x, f, l = rng.choice([(1, 0, 0), (x, -1, -1), (x, 0, len(self.sheets)), (x, l, f), (x, -1, 0)])
        return T("ref3d", cls=cls, x=x, f=f, l=l, **d)

    def near(self):
        return self.rng.choice(self.good if self.ver >= 80 else self.ranges)

    def twins(self):
        """The same cells of two ranges of sheets, combined."""
        rng = self.rng
        a = self.ref(near=self.near(), odd=0, rel=.1)
        b = dict(a, **{k: v for k, v in self.ref(near=self.near(), odd=0, rel=0).items() if k in "xfl"})
        return [a, b, T(rng.choice(["isect", "isect", "list", "range"]))]

    def name(self):
        """A reference to a name already formed (numbered in order of forming)."""
        ok = [i for i, d in enumerate(self.depth) if d < 10]
        if not ok:
            return None
        i = self.rng.choice(ok[-6:] if self.rng.random() < .7 else ok)
        self.used = max(self.used, self.depth[i] + 1)
        return T("name", i=i, cls=self.rng.choice([1, 2, 3]))

    def namex(self):
        rng = self.rng
        if self.addin and rng.random() < .5:
            return T("namex", x=rng.choice([i for i, r in enumerate(self.refs) if self.sup[r[0]] == "addin"]), i=rng.randrange(len(self.addin)) + 1, fix=1, cls=1)
        t = self.name()
        if not t:
            return None
        x = rng.randrange(len(self.refs) + (rng.random() < .05)) if self.ver >= 80 else rng.choice([-1, -1, -1, -2, 1, 2, -len(self.ext), 0])
        return T("namex", x=x, i=t["i"], cls=rng.choice([1, 2]))

    # -- formulas, as token lists
    def leaf(self, want):
        rng, k = self.rng, self.rng.random()
        if want == "ref":
            return [self.ref()]
        if k < .12:
            t = self.name() if rng.random() < .8 else self.namex()
            if t:
                return [t]
        if want == "const" or k < .8:
            k = rng.random()
            if k < .6:
                return [number(rng)]
            if k < .8:
                return [text(rng, self.ver)]
            if k < .92:
                return [T("bool", n=rng.randrange(2))]
            return [T("err", n=rng.choice(BIFF_ERR))]
        if k < .97:
            return [self.ref()]
        return [rng.choice([T("errref", o=rng.choice([0x0A, 0x0B, 0x1C, 0x1D]), cls=1), T("array", cls=3)])]

    def expr(self, d, want="any"):
        rng = self.rng
        if d <= 0:
            return self.leaf(want)
        k = rng.random()
        if want == "ref" and rng.random() < .1:
            return self.twins()
        if want == "ref" or (want == "any" and k < .15):
            return self.refs_of(d)
        if k < .6:
            e = self.expr(d - 1, "const" if rng.random() < .85 else "any") + self.expr(rng.randrange(d), "const" if rng.random() < .85 else "any")
            e += [T("bin", o=rng.choice([3, 4, 5, 6, 7, 8] * 2 + list(range(9, 15))))]
        elif k < .76:
            e = self.expr(d - 1, want if rng.random() < .9 else "any") + [T("un", o=rng.choice([18, 19, 20]))]
        elif k < .97:
            e = self.call(d)
        else:
            e = self.leaf(want)
        if rng.random() < .1:
            e.append(T("paren"))
        if rng.random() < .06:
            e.insert(rng.randrange(len(e) + 1), T("attr", s=rng.choice([1, 2, 4, 8, 0x20, 0x40, 0x41]), n=rng.choice([0, 1, 3, 7])))
        return e

    def refs_of(self, d):
        rng = self.rng
        near = self.near()
        # all of the operands relative in the same way
        self.fix = rng.choice([(0, 1), (1, 0), (1, 1)]) if rng.random() < .25 else None

        def go(d):
            if d <= 0 or rng.random() < .15:
                if rng.random() < .1:
                    t = self.name()
                    if t:
                        return [t]
                return [self.ref(near=near, rel=.08)]
            e = go(d - 1) + go(rng.randrange(d)) + [T(rng.choice(["list", "list", "isect", "isect", "range"]))]
            if rng.random() < .15:
                e.append(T("paren"))
            if rng.random() < .1:
                e.insert(0, T("memfunc", n=rng.choice([0, 7, 30]), cls=1))
            return e
        e = go(d)
        self.fix = None
        return e
    fix = None

    def call(self, d):
        rng = self.rng
        k = rng.random()
        arg = lambda: [T("miss")] if rng.random() < .06 else self.refs_of(rng.randrange(1, 3)) if rng.random() < .12 else self.expr(rng.randrange(d), "any")
        if k < .3:
            n = rng.choice([2, 3])
            test = self.expr(rng.randrange(d), "const") if rng.random() < .4 else [rng.choice([T("bool", n=0), T("bool", n=1), number(rng)])]
            return sum([arg() for _ in range(n - 1)], test) + [T("funcvar", f=1, n=n, pr=0, cls=2)]
        if k < .5:
            n = rng.choice([2, 3, 4])
            test = [T("int", n=j, tx=units(str(float(j)))) for j in [rng.randrange(n + 1)]] if rng.random() < .7 else self.expr(rng.randrange(d), "const")
            return sum([arg() for _ in range(n - 1)], test) + [T("funcvar", f=100, n=n, pr=0, cls=2)]
        if k < .58:
            return arg() + [T("sum")]
        if k < .75:
            f, n = rng.choice(FIXED)
            return sum([self.expr(rng.randrange(d)) for _ in range(n)], []) + [T("func", f=f, cls=rng.choice([1, 2, 3]))]
        if k < .97:
            f, lo, hi = rng.choice(VAR)
            n = rng.randrange(lo, min(hi, max(lo, 4)) + 1)
            return sum([arg() for _ in range(n)], []) + [T("funcvar", f=f, n=n, pr=rng.random() < .1, cls=rng.choice([1, 2]))]
        return [rng.choice([T("func", f=rng.choice([3000, 32767]), cls=1), T("funcvar", f=1, n=9, pr=0, cls=2), T("funcvar", f=3001, n=0, pr=0, cls=2)])]

    def broken(self):
        rng = self.rng
        e = self.expr(rng.randrange(3))
        k = rng.randrange(8)
        if k == 0:
            return e + self.leaf("const")
        if k == 1:
            return e + [T("bin", o=3), T("bin", o=4)]
        if k == 2:
            return [T("bin", o=rng.randrange(3, 15))] + e
        if k == 3:
            return [T("un", o=19)]
        if k == 4:
            return e + [T("list")]
        b = {5: [rng.choice([1, 2]), 0, 0, 0, 0], 6: rng.choice([[0x18, 1, 0, 0, 0], [0x1A] + [0] * 9, [0x1B] + [0] * 4, [0]]),
             7: [rng.choice([0x26, 0x27, 0x28, 0x2C, 0x2D]) + rng.choice([0, 32])] + [0] * 14}[k]
        return e + [T("bad", b=b)]

    def ways(self, toks):
        """How many texts the formula may have, as a power of two."""
        k = 0
        for t in toks:
            if t["t"] == "ref3d":
                f, l = self.refs[t["x"]][1:] if self.ver >= 80 and t["x"] < len(self.refs) else (t.get("f", 0), t.get("l", 0))
                n = [core.unit_str(x["n"]) for x in self.sheets[max(f, 0):max(l, 0) + 1]]
                k += sum(x in EITHER for x in n) + (len(n) > 1)
            elif t["t"] in ("name", "namex") and not t.get("fix"):
                d = self.defs[t["i"]]
                i = d["sheet"] or d["extn"] - 1
                k += 0 < i <= len(self.sheets) and core.unit_str(self.sheets[i - 1]["n"]) in EITHER
        return k

    def define(self, toks, fl=0, sheet=None):
        rng = self.rng
        if self.ways(toks) > 5:
            toks = [number(rng)]
        n = len(self.defs)
        u = rng.choice(NAMES if self.ver >= 80 else NAMES[:4] + NAMES[5:8]) + "_%d" % n
        if self.ver < 80:
            u = "".join(c for c in u if ord(c) < 256)
        low = shown = u
        if sheet is None:
            sheet = 0 if rng.random() < .6 else rng.randrange(1, len(self.sheets) + 1)
        self.defs.append({"fl": fl, "u": units(u), "low": units(low.lower()), "shown": units(shown), "sheet": sheet if self.ver >= 80 else 0,
                          "extn": sheet + 1 if self.ver < 80 and sheet else 0, "toks": toks, "wide": rng.random() < .2})
        self.depth.append(self.used)
        self.used = 0
    used = 0

    def doc(self, judge="formulas", place=None):
        rng = self.rng
        n = len(self.defs)
        if place is None:
            place = list(range(n))
            if rng.random() < .8:
                rng.shuffle(place)
        defs = [None] * n
        for i, d in enumerate(self.defs):
            for t in d["toks"]:
                if t["t"] in ("name", "namex") and not t.get("fix"):
                    t["i"] = place[t["i"]] + 1
                elif t["t"] == "raw_name":
                    t["t"] = "name"
            defs[place[i]] = d
        r1c1 = rng.randrange(2)
        base = rng.choice([[-1, -1], [0, 0], [65535, 255], [rng.randrange(65536), rng.randrange(256)], [5, -1], [-1, 5]])
        return {"ver": self.ver, "sheets": self.sheets, "dim": self.dim, "sup": self.sup, "addin": self.addin, "extnames": self.extnames, "refs": self.refs, "cut": rng.choice([0, 0, 2, 5, 8]), "extsheets": rng.choice([1, 1, 1, 1, 3, 600, 603, 902, 901]), "ext": self.ext,
                "late": self.ver < 80 and rng.random() < .7, "defs": defs, "deco": {"br": base[0], "bc": base[1], "r1c1": r1c1}, "od": rng.random() < .3, "judge": judge}


def dag(rng, n=14):
    g = Gen(rng)
    for i in range(n):
        k = rng.random()
        if k < .1:
            toks = g.broken()
        elif k < .13 and i:
            toks = []
        elif k < .3:
            toks = g.refs_of(rng.choice([0, 1, 2, 3]))
        else:
            toks = g.expr(rng.choice([0, 1, 2, 2, 3, 4]))
        g.define(toks, fl=rng.choice([0] * 12 + [1, 2, 8, 0x1000, 0x10]))
    s = g.doc()
    if rng.random() < .25:
        # names that refer to each other, or to themselves
        a, b = rng.randrange(n), rng.randrange(n)
        s["defs"][a]["toks"] = [T("name", i=b + 1, cls=1)]
        s["defs"][b]["toks"] = [T("name", i=a + 1, cls=1)]
    return s


def chain(rng, n=11):
    """Each name refers to the next."""
    g = Gen(rng, plain=rng.random() < .5)
    g.define([number(rng) if rng.random() < .5 else g.ref(odd=0, rel=0)])
    for i in range(1, n):
        g.used = i
        t = T("name", i=i - 1, cls=1)
        g.define(rng.choice([[t], [t], [t, T("un", o=18)], [t, T("paren")]]))
    return g.doc(place=rng.choice([None, list(range(n))[::-1], list(range(n))[::-1]]))


def references(rng, n=16):
    g = Gen(rng)
    for i in range(n):
        g.define([g.ref(odd=.1, rel=.5)] if rng.random() < .6 else g.twins() if rng.random() < .3 else g.refs_of(1))
    return g.doc()


def programs(rng, shapes):
    """The shapes TLC listed, with operands put in."""
    g = Gen(rng, plain=True)
    for ops in shapes:
        g.define(fill(g, ops))
    return g.doc()


def fill(g, ops):
    rng, toks, st, near = g.rng, [], [], g.near()
    # what each operand is for: the operator that takes it
    parent, stack = {}, []
    for j, o in enumerate(ops):
        if o == 0:
            stack.append(j)
            continue
        k = 1 if o >= 18 else 2
        for c in stack[-k:]:
            parent[c] = o
        del stack[-k:]
        stack.append(j)
    for j, o in enumerate(ops):
        if o == 0:
            p = parent.get(j, 0)
            if 15 <= p <= 17:
                toks.append(g.ref(odd=0, rel=.05, near=near))
            else:
                k = rng.random()
                toks.append(number(rng) if k < .8 else text(rng, g.ver) if k < .9 else T("bool", n=rng.randrange(2)) if k < .95 else T("err", n=7))
        elif o <= 14:
            toks.append(T("bin", o=o))
        elif o >= 18:
            toks.append(T("un", o=o))
        else:
            toks.append(T({15: "isect", 16: "list", 17: "range"}[o]))
    return toks


def check(ctx):
    rng = ctx.rng
    shapes = ctx.model_check("NameFormulaMC", "NameFormulaMC", tag="S")
    rng.shuffle(shapes)
    per = 40
    todo = shapes[:ctx.n(2400, len(shapes))]
    ctx.validate("programs", "TraceNames", [programs(rng, todo[i:i + per]) for i in range(0, len(todo), per)], nameev.run, limit=30)
    ctx.validate("formulas", "TraceNames", [dag(rng) for _ in range(ctx.n(330, 3800))] + [chain(rng, rng.choice([9, 10, 11])) for _ in range(ctx.n(20, 200))], nameev.run, limit=30)
    ctx.validate("references", "TraceNames", [references(rng) for _ in range(ctx.n(120, 1500))], nameev.run, limit=30)
    if ctx.tier == "thorough":
        deep = ctx.model_check("NameFormulaMC", "NameFormulaMC_deep", tag="S")
        rng.shuffle(deep)
        deep = deep[:60000]
        ctx.validate("deep_programs", "TraceNames", [programs(rng, deep[i:i + 60]) for i in range(0, len(deep), 60)], nameev.run, limit=30)
