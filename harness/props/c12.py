"""C12: the catalogue of defined names (spec: Names over NameFormula, TraceNames)."""
import itertools, random
import core, nameev
from core import units
from props import c13
from props.c13 import T, Gen

STAGES = {k: (nameev.run, "TraceNames") for k in ("catalogue", "scopes", "cells", "flags")}
BUILTIN = ["Consolidate_Area", "Auto_Open", "Auto_Close", "Extract", "Database", "Criteria", "Print_Area", "Print_Titles", "Recorder", "Data_Form",
           "Auto_Activate", "Auto_Deactivate", "Sheet_Title", "_FilterDatabase"]
WORDS = ["a", "A", "Ab", "aB", "ab", "total", "Total", "TOTAL", "Été", "été", "x.y", "_u", "Зима", "ЗИМА", "名前", "n" * 255, "print_area", "Name1", "NAME1", "ab.", "a?b", "back\\slash", "_", "x.", "\\z"]


class Small(Gen):
    """Cells in and around the sheets' extents."""

    def coords(self, rel):
        rng = self.rng
        if rng.random() < .12:
            return super().coords(rel)
        fr, fc = (rng.randrange(2), rng.randrange(2)) if rel else (0, 0)
        one = rng.random() < .5
        r1, c1 = rng.randrange(11), rng.randrange(11)
        r2 = r1 if one or rng.random() < .2 else rng.randrange(r1, 12)
        c2 = c1 if one or rng.random() < .2 else rng.randrange(c1, 12)
        if one and rng.random() < .2:
            one = False
        return dict(one=one, r1=r1, r2=r2, c1=c1, c2=c2, rr1=fr, rr2=fr, cr1=fc, cr2=fc)

    def put(self, toks, fl, sheet, word, code):
        """Name the last one: word, or the built-in name with that code."""
        self.define(toks, fl & ~32, sheet)
        d = self.defs[-1]
        if fl & 32:
            w = BUILTIN[code] if code < len(BUILTIN) else "??Unknown??"
            d.update(fl=fl, u=[code], low=units(w.lower()), shown=units(w), wide=False)
        else:
            d.update(fl=fl, u=units(word), low=units(word.lower()), shown=units(word))
        d["extra"] = self.rng.choice([0, 0, 0, 3, 9])


def words(ver):
    return [w for w in WORDS if ver >= 80 or max(map(ord, w)) < 256]


def fresh(g, rng, seen, sheet):
    """A word not used in that scope yet (whatever its case)."""
    for _ in range(30):
        w = rng.choice(words(g.ver)) if rng.random() < .8 else "n%d" % rng.randrange(99)
        key = (w.lower(), eff(g, sheet))
        if key not in seen:
            seen.add(key)
            return w
    w = "z%d" % len(seen)
    seen.add((w, sheet))
    return w


def eff(g, sheet):
    """Scopes that are not worksheets are one."""
    if not sheet or sheet > len(g.sheets):
        return sheet and -3
    return sheet if g.sheets[sheet - 1]["t"] == 0 else -2


def flags(rng):
    k = rng.random()
    if k < .45:
        return 0
    if k < .75:
        return rng.choice([1, 2, 4, 8, 0x10, 0x1000])
    return rng.randrange(0x2000) & ~32


def book(rng, n):
    g = Small(rng)
    seen = set()
    for i in range(n):
        k = rng.random()
        toks = ([g.ref(odd=.12, rel=.12)] if k < .5 else g.refs_of(rng.choice([1, 1, 2])) if k < .7 else [g.name() or g.ref()] if k < .82
                else g.broken() if k < .86 else [] if k < .89 else g.expr(rng.choice([0, 1, 2])))
        sheet = 0 if rng.random() < .35 else rng.randrange(1, len(g.sheets) + 1)
        if g.ver >= 80 and rng.random() < .05:
            sheet = rng.choice([len(g.sheets) + 1, 200, 65535])
        fl = flags(rng)
        code = None
        if rng.random() < .25:
            code = rng.randrange(16)
            low = (BUILTIN[code] if code < 14 else "??Unknown??").lower()
            if (low, eff(g, sheet)) in seen:
                code = None
            else:
                seen.add((low, eff(g, sheet)))
                fl |= 32
        g.put(toks, fl, sheet, None if code is not None else fresh(g, rng, seen, sheet), code)
    return g.doc("names")


def cells(rng, n=24):
    """Every area around one corner, on every sheet."""
    g = Small(rng)
    for i in range(n):
        g.put([g.ref(odd=.05, rel=.1)] if rng.random() < .8 else g.refs_of(1), 0, None, "n%d" % i, None)
    return g.doc("names")


def scopes(rng):
    """One name in every scope, in every order."""
    g = Small(rng)
    w = [rng.choice(words(g.ver)), "other"]
    todo = [(x, s) for x in w for s in range(len(g.sheets) + 1)]
    todo = [t for i, t in enumerate(todo) if all((u[0], eff(g, u[1])) != (t[0], eff(g, t[1])) for u in todo[:i])]
    rng.shuffle(todo)
    for x, s in todo:
        if rng.random() < .85:
            case = rng.choice([str, str.upper, str.lower, str.title])
            y = case(x)
            g.put([g.ref(odd=0)], 0, s, y if y.lower() == x.lower() and max(map(ord, y)) < (65536 if g.ver >= 80 else 256) else x, None)
    if not g.defs:
        g.put([g.ref()], 0, 0, "a", None)
    return g.doc("names")


def flag_book(rng, some):
    g = Small(rng)
    for i, fl in enumerate(some):
        g.put([g.ref()], fl, 0, "f%d" % i, rng.randrange(15))
    s = g.doc("names")
    return s


def check(ctx):
    rng = ctx.rng
    ctx.model_check("NameFormulaMC", "NameFormulaMC", tag="S")
    ctx.validate("catalogue", "TraceNames", [book(rng, rng.choice([1, 4, 12, 25])) for _ in range(ctx.n(500, 6000))], nameev.run, limit=30)
    ctx.validate("scopes", "TraceNames", [scopes(rng) for _ in range(ctx.n(250, 3000))], nameev.run, limit=30)
    ctx.validate("cells", "TraceNames", [cells(rng) for _ in range(ctx.n(250, 3000))], nameev.run, limit=30)
    fl = list(range(0x2000)) if ctx.tier == "thorough" else [1 << k for k in range(13)] + rng.sample(range(0x2000), 600)
    ctx.validate("flags", "TraceNames", [flag_book(rng, fl[i:i + 50]) for i in range(0, len(fl), 50)], nameev.run, limit=30)
