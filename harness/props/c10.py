"""C10: date serial conversion (spec: Calendar / TraceCalendar)."""
import datetime, struct
import core
from core import norm

ERRS = ("XLDateNegative", "XLDateAmbiguous", "XLDateTooLarge", "XLDateBadDatemode", "XLDateBadTuple")


def call(f, *a):
    from xlrd import xldate
    try:
        return {"v": f(*a)}
    except Exception as e:
        for n in ERRS:
            if isinstance(e, getattr(xldate, n)) and isinstance(e, xldate.XLDateError) and isinstance(e, ValueError):
                return {"e": n}
        return {"e": "other:" + type(e).__name__}


def serial_of(c):
    # exact: day + num/2^exp is representable for the ranges generated
    v = c["day"] + 1 - c["num"] / 2.0 ** c["exp"] if c["up"] else c["day"] + c["num"] / 2.0 ** c["exp"]
    return -v if c["neg"] else v


def runlen(items, step):
    """Compress [(serial, key)] losslessly; step(k) is the key expected next."""
    segs = []
    for s, k in items:
        if segs and segs[-1][-1] + segs[-1][0] == s and segs[-1][2] == k:
            segs[-1][-1] += 1
            segs[-1][2] = step(k)
        else:
            segs.append([s, k, step(k), 1])
    return [[g[0], g[1], g[3]] for g in segs]


def date_segs(items):
    nxt = lambda k: k[:2] + (k[2] + 1,) if k[0] != "E" else k
    return [[s] + list(norm(k)) + [n] for s, k, n in runlen(items, nxt)]


def run(s):
    from xlrd import xldate as X
    kind = s["kind"]
    if kind == "year":
        out = []
        mode = s["mode"]
        for i, ser in enumerate(s["months"]):
            m = s["m0"] + i
            n = 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else \
                29 if (s["y"] % 4 == 0 and (s["y"] % 100 or s["y"] % 400 == 0)) else 28
            tup, dt, inv = [], [], []
            for d in range(n):
                r = call(X.xldate_as_tuple, float(ser + d) if d % 2 else ser + d, mode)
                v = r.get("v", ())
                ok = len(v) == 6 and tuple(v[3:]) == (0, 0, 0)
                tup.append((ser + d, tuple(v[:3]) if ok else ("E", str(r), 0)))
                r = call(X.xldate_as_datetime, float(ser + d), mode)
                v = r.get("v")
                ok = isinstance(v, datetime.datetime) and (v.hour, v.minute, v.second, v.microsecond) == (0, 0, 0, 0)
                dt.append((ser + d, (v.year, v.month, v.day) if ok else ("E", str(r), 0)))
                r = call(X.xldate_from_date_tuple, (s["y"], m, d + 1), mode)
                v = r.get("v")
                inv.append((int(v) - d if isinstance(v, float) and v == int(v) else ("E", str(r))))
            segs = []
            for x in inv:
                if segs and segs[-1][0] == x:
                    segs[-1][1] += 1
                else:
                    segs.append([norm(x), 1])
            out.append({"tup": date_segs(tup), "dt": date_segs(dt), "inv": segs})
        return {"months": out}
    if kind == "tuple":
        r = call(X.xldate_as_tuple, serial_of(s), s["mode"])
        return {"r": norm(r)}
    if kind == "datetime":
        r = call(X.xldate_as_datetime, serial_of(s), s["mode"])
        if "v" in r:
            v = r["v"]
            r = {"v": [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
                 if isinstance(v, datetime.datetime) else repr(v)}
        return {"r": norm(r)}
    if kind == "fromdate":
        r = call(X.xldate_from_date_tuple, tuple(s["t"]), s["mode"])
        return {"r": norm(_int(r))}
    if kind == "fromtime":
        r = call(X.xldate_from_time_tuple, tuple(s["t"]))
        if "v" in r:
            r = {"v": _ms(r["v"])}
        return {"r": norm(r)}
    if kind == "fromdatetime":
        r = call(X.xldate_from_datetime_tuple, tuple(s["t"]), s["mode"])
        back = {"e": "none"}
        if "v" in r:
            v = r["v"]
            back = call(X.xldate_as_tuple, v, s["mode"])
            day = int(v)
            ms = _ms(v - day)
            if ms == 86400000:
                day, ms = day + 1, 0
            r = {"v": [day, ms]}
        return {"r": norm(r), "back": norm(back)}
    if kind == "seconds":
        tup, dts = [], []
        for k in range(3600):
            t = s["h"] * 3600 + k
            x = s["day"] + X.xldate_from_time_tuple((s["h"], k // 60, k % 60))
            r = call(X.xldate_as_tuple, x, s["mode"]).get("v", (0,) * 6)
            tup.append(r[3] * 3600 + r[4] * 60 + r[5])
            r = call(X.xldate_as_datetime, x, s["mode"]).get("v")
            dts.append(r.hour * 3600 + r.minute * 60 + r.second if r is not None and r.microsecond == 0 else -1)
        return {"r": _seq(tup), "d": _seq(dts)}
    if kind == "bookmode":
        import biff, xlrd
        data = biff.build(80, [(0x22, struct.pack("<H", s["mode"]))], [{"name": "S", "recs": []}])
        try:
            b = xlrd.open_workbook(file_contents=data)
            return {"r": norm({"v": b.datemode})}
        except Exception as e:
            return {"r": {"e": type(e).__name__}}
    raise core.MachineryError("kind " + kind)


def _seq(xs):
    segs = []
    for i, x in enumerate(xs):
        if segs and segs[-1][0] + segs[-1][1] == x:
            segs[-1][1] += 1
        else:
            segs.append([x, 1])
    return segs[:50]


def _int(r):
    if "v" in r and isinstance(r["v"], float) and r["v"] == int(r["v"]):
        return {"v": int(r["v"])}
    return r


def _ms(v):
    k = v * 86400000.0
    return int(round(k)) if isinstance(v, float) and abs(k - round(k)) < 0.5 else "bad:%r" % (v,)


STAGES = {"days": (run, "TraceCalendar"), "calls": (run, "TraceCalendar")}


def first_serial(mode, y, m):
    e = datetime.date(1899, 12, 30) if mode == 0 else datetime.date(1904, 1, 1)
    return (datetime.date(y, m, 1) - e).days


def years(ctx):
    out = []
    rng = ctx.rng
    for mode, y0 in ((0, 1900), (1, 1904)):
        for y in range(y0, 10000):
            m0 = 3 if (mode, y) == (0, 1900) else 2 if (mode, y) == (1, 1904) else 1
            out.append({"kind": "year", "mode": mode, "y": y, "m0": m0,
                        "months": [first_serial(mode, y, m) for m in range(m0, 13)]})
    if not ctx.thorough:
        # every century year and its neighbours, both ends, and a seeded sample
        keep = [s for s in out if s["y"] % 100 in (0, 1, 4, 99) or s["y"] in range(1900, 1912) or s["y"] > 9990]
        rest = [s for s in out if s not in keep]
        out = keep + rng.sample(rest, 1200)
    return out


def calls(ctx):
    rng = ctx.rng
    out = []
    one = lambda **k: out.append(k)
    # as_tuple / as_datetime on fractions, around every threshold
    days = {0: [0, 1, 2, 30, 58, 59, 60, 61, 62, 366, 1461, 1462, 1463, 36526, 40000, 2958464, 2958465, 2958466, 2958467, 5000000],
            1: [0, 1, 2, 58, 59, 60, 61, 62, 1461, 1462, 35064, 2957002, 2957003, 2957004, 2957005, 2958465, 5000000]}
    fr = [(0, 0, False), (1, 1, False), (1, 2, False), (3, 2, False), (1, 14, False), (16383, 14, False),
          (1, 21, True), (1, 18, True), (1, 17, True), (3, 18, True), (1, 16, True), (5, 19, True),
          (1, 20, False), (1, 18, False), (1, 17, False), (3, 18, False)]
    for mode in (0, 1):
        for d in days[mode]:
            for num, exp, up in fr:
                one(kind="tuple", mode=mode, neg=False, day=d, num=num, exp=exp, up=up)
                if d < (2958465 if mode == 0 else 2957003):
                    one(kind="datetime", mode=mode, neg=False, day=d, num=num, exp=exp, up=up)
        for k in range(ctx.n(1500, 20000)):
            exp = rng.randint(1, 14)
            num = rng.randrange(0, 2 ** exp)
            d = rng.choice([rng.randrange(0, 100), rng.randrange(0, 2958600), rng.choice(days[mode])])
            one(kind="tuple", mode=mode, neg=False, day=d, num=num, exp=exp, up=False)
            if d < 2957003:
                exp2 = rng.randint(1, 14)
                one(kind="datetime", mode=mode, neg=False, day=d, num=rng.randrange(0, 2 ** exp2), exp=exp2, up=False)
            e = rng.randint(15, 21)
            one(kind="tuple", mode=mode, neg=False, day=d, num=rng.randrange(1, 16), exp=e, up=True)
        for d, num, exp in ((0, 1, 20), (1, 0, 0), (0, 1, 1), (61, 0, 0), (3000000, 0, 0), (0, 0, 0)):
            one(kind="tuple", mode=mode, neg=True, day=d, num=num, exp=exp, up=False)
    for mode in (-1, 2, 3, 1904, 1900):
        for d in (0, 1, 61, 40000, 2958466):
            one(kind="tuple", mode=mode, neg=False, day=d, num=0, exp=0, up=False)
        one(kind="tuple", mode=mode, neg=True, day=5, num=0, exp=0, up=False)
        one(kind="fromdate", mode=mode, t=[2000, 1, 1])
        one(kind="fromdate", mode=mode, t=[0, 0, 0])
        one(kind="fromdate", mode=mode, t=[1800, 1, 1])
    ys = [-1, 0, 1, 1899, 1900, 1901, 1903, 1904, 1905, 1999, 2000, 2001, 2004, 2100, 9999, 10000]
    for mode in (0, 1):
        for y in ys:
            for m in range(-1, 15):
                for d in (-1, 0, 1, 2, 27, 28, 29, 30, 31, 32):
                    one(kind="fromdate", mode=mode, t=[y, m, d])
    for h in (-1, 0, 1, 11, 12, 22, 23, 24, 25):
        for mi in (-1, 0, 1, 30, 58, 59, 60, 61):
            for s in (-1, 0, 1, 30, 58, 59, 60, 61):
                one(kind="fromtime", t=[h, mi, s])
    for k in range(ctx.n(2500, 30000)):
        mode = rng.randint(0, 1)
        y = rng.choice([rng.randint(1900, 9999), rng.choice(ys)])
        t = [y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]
        if rng.random() < .25:
            t[rng.randrange(6)] += rng.choice([-70, 70, 24, 12, -1, 1])
        if rng.random() < .1:
            t[:3] = [0, 0, 0]
        one(kind="fromdatetime", mode=mode, t=t)
    for h in range(24):
        for day in ((61, 40000, 2957000) if not ctx.thorough else
                    (61, 62, 100, 1000, 1462, 25569, 36526, 40000, 45000, 60000, 100000, 500000, 1000000, 2000000, 2957000, 2957001)):
            for mode in (0, 1):
                one(kind="seconds", mode=mode, day=day, h=h)
    for mode in (0, 1):
        one(kind="bookmode", mode=mode)
    return out


def check(ctx):
    ctx.model_check("Calendar")
    ctx.validate("days", "TraceCalendar", years(ctx), run, limit=30)
    ctx.validate("calls", "TraceCalendar", calls(ctx), run, limit=30, sample=3)
    ctx.assumptions += ["doubles day+k/2^n used as serials are exact; ties between two seconds may round either way",
                        "quick tier walks all century years, their neighbours and a seeded sample of 1200 others; thorough walks every day of both systems"]
