"""Encodes abstract sheet events (the records of spec/Grid.tla) into BIFF
records of any version, runs the real reader and projects what it reports."""
import struct
import biff, core
from biff import rec, P


def limbs_bytes(v):
    return P("<HHHH", v[3], v[2], v[1], v[0])


def attr2(e):
    """BIFF2 cell attributes: 6-bit style index (63 = use IXFE)."""
    x = 63 if e.get("viaixfe") else e["xf"]
    if "attr" in e:
        return bytes(e["attr"])
    return P("<BBB", x | (e.get("hi", 0) << 6), 0, 0)


def txt(e):
    """Text of an event: an ASCII string, or the list of its UTF-16 units."""
    return e["t"] if isinstance(e["t"], str) else core.unit_str(e["t"])


def fml(ver, e, res, flags=0):
    toks = b"\x1e\x01\x00"
    if ver >= 50:
        return rec(0x0006, P("<HHH", e["r"], e["c"], e["xf"]) + res + P("<HIH", flags, 0, 3) + toks)
    if ver >= 30:
        return rec(0x0406 if ver >= 40 else 0x0206, P("<HHH", e["r"], e["c"], e["xf"]) + res + P("<HH", flags, 3) + toks)
    return rec(0x0006, P("<HH", e["r"], e["c"]) + attr2(e) + res + P("<BB", flags & 1, 3) + toks)


def rich_label(ver, e):
    runs = e.get("runs", [])
    if ver >= 80:
        n, body = biff.ustr16(txt(e), e.get("wide"))
        d = P("<HHHH", e["r"], e["c"], e["xf"], n) + body + P("<H", len(runs))
        return d + b"".join(P("<HH", *r) for r in runs)
    b = txt(e).encode("latin-1")
    d = P("<HHHH", e["r"], e["c"], e["xf"], len(b)) + b + P("<B", len(runs))
    return d + b"".join(P("<BB", *r) for r in runs)


def string_rec(ver, text, enc="latin-1"):
    if ver >= 80:
        n, body = biff.ustr16(text)
        return rec(0x0207, P("<H", n) + body)
    b = text.encode(enc)
    if ver >= 30:
        return rec(0x0207, P("<H", len(b)) + b)
    return rec(0x0007, P("<B", len(b)) + b)


def encode(ver, e):
    op = e["op"]
    b2 = ver < 30
    if op == "noise":
        return bytes.fromhex(e["raw"])
    if op == "dim":
        if "len0" in e:
            return rec(0x0200 if not b2 else 0, b"")
        return biff.dim_rec(ver, e["r1"], e["r2"], e["c1"], e["c2"])
    if op == "ixfe":
        return rec(0x44, P("<H", e["xf"]))
    if op == "row":
        if b2:
            flags = 0 if e["xf"] == -1 else 1
            d = P("<HHHHHBH", e["r"], 0, 256, e.get("height", 255), 0, flags, 0)
            if flags:
                d += P("<BBB", 63 if e.get("viaixfe") else min(e["xf"], 63), 0, 0)
                if not e.get("short"):
                    d += P("<H", e["xf"])
            return rec(0x0008, d)
        bits = e.get("bits", 0x100)
        if e["xf"] != -1:
            bits |= 0x80 | e["xf"] << 16
        return rec(0x0208, P("<HHHHHHI", e["r"], 0, 256, e.get("height", 255), 0, 0, bits))
    if op == "col":
        return rec(0x7D, P("<HHHHHH", e["c1"], e["c2"], e.get("w", 2340), e["xf"], e.get("flags", 0), 0))
    if op == "coldef":
        return rec(0x20, P("<HH", e["c"], e["c"] + len(e["xfs"])) + b"".join(P("<BBB", x, 0, 0) for x in e["xfs"]))
    if op == "colw":
        return rec(0x24, P("<BBH", e["c1"], e["c2"], e.get("w", 2340)))
    if op == "merge":
        return rec(0xE5, P("<H", len(e["rs"])) + b"".join(P("<HHHH", a, b - 1, c, d - 1) for a, b, c, d in e["rs"]))
    if op == "mulrk":
        d = P("<HH", e["r"], e["c"]) + b"".join(P("<HHH", x, lo, hi) for x, hi, lo in e["items"])
        return rec(0xBD, d + P("<H", e["c"] + len(e["items"]) - 1))
    if op == "mulblank":
        return rec(0xBE, P("<HH", e["r"], e["c"]) + b"".join(P("<H", x) for x in e["xfs"]) +
                   P("<H", e["c"] + len(e["xfs"]) - 1))
    if op == "int" and not b2:
        # no integer record after version 2: the packed form says the same
        n = e["v"] & 0x3FFFFFFF
        return rec(0x027E, P("<HHHI", e["r"], e["c"], e["xf"], (n << 2 | 2) & 0xFFFFFFFF))
    h = (P("<HH", e["r"], e["c"]) + attr2(e)) if b2 else P("<HHH", e["r"], e["c"], e["xf"])
    if op == "num":
        return rec(0x0003 if b2 else 0x0203, h + limbs_bytes(e["v"]) + b"" + bytes(e.get("extra", 0)))
    if op == "int":
        return rec(0x0002, h + P("<H", e["v"]))
    if op == "rk":
        return rec(0x027E, h + P("<HH", e["rk"][1], e["rk"][0]))
    if op == "label":
        if b2:
            b = txt(e).encode("latin-1")
            return rec(0x0004, h + P("<B", len(b)) + b)
        return rec(0x0204, h + biff.str16(ver, txt(e), wide=e.get("wide")))
    if op == "rstring":
        return rec(0x00D6, rich_label(ver, e))
    if op == "sst":
        return rec(0x00FD, h + P("<I", e["i"]))
    if op in ("bool", "err"):
        return rec(0x0005 if b2 else 0x0205, h + P("<BB", e["v"], op == "err") + bytes(e.get("extra", 0)))
    if op == "blank":
        return rec(0x0001 if b2 else 0x0201, h)
    if op == "fnum":
        return fml(ver, e, limbs_bytes(e["v"]))
    if op == "fbool":
        return fml(ver, e, P("<BBBBHH", 1, 0, e["v"], 0, 0, 0xFFFF))
    if op == "ferr":
        return fml(ver, e, P("<BBBBHH", 2, 0, e["v"], 0, 0, 0xFFFF))
    if op == "fempty":
        return fml(ver, e, P("<BBBBHH", 3, 0, 0, 0, 0, 0xFFFF))
    if op == "fstr":
        out = fml(ver, e, P("<BBBBHH", 0, 0, 0, 0, 0, 0xFFFF))
        if "mid" in e:
            out += bytes.fromhex(e["mid"])
        if "parts" in e:
            for i, p in enumerate(e["parts"]):
                out += rec((0x0207 if not b2 else 0x0007) if i == 0 else 0x3C, bytes.fromhex(p))
            return out
        return out + string_rec(ver, txt(e))
    raise core.MachineryError("cannot encode %r" % (e,))


def book_bytes(s):
    """Workbook stream for scenario s: {ver, opt:{fmt,ragged,xfd,sst}, ev}."""
    ver, opt = s["ver"], s["opt"]
    g = biff.base_styles(ver, opt["xfd"])
    if s.get("pre"):
        g = g + [bytes.fromhex(s["pre"])]
    if ver >= 80 and opt.get("sst"):
        g = g + [None, biff.sst_simple(opt["sst"])]
    recs = [encode(ver, e) for e in s["ev"]]
    return biff.build(ver, g, [{"name": "S", "recs": recs}])


def token(v):
    if isinstance(v, bool):
        return "bool:%r" % v
    if isinstance(v, str):
        return v if v.isascii() else core.units(v)
    return core.norm(v)


def project(sh, probe=None):
    import xlrd
    cells, holes = [], 0
    rl = []
    for r in range(sh.nrows):
        n = sh.row_len(r)
        if rl and rl[-1][0] == n:
            rl[-1][1] += 1
        else:
            rl.append([n, 1])
        ts, vs = sh.row_types(r), sh.row_values(r)
        if len(ts) != n or len(vs) != n:
            holes += 1000
        for c in range(n):
            t, v = ts[c], vs[c]
            if t == 0:
                if v != "" or not isinstance(v, str):
                    holes += 1
            else:
                cells.append([r, c, t, token(v)])
    o = {"nrows": core.norm(sh.nrows), "ncols": core.norm(sh.ncols), "rl": rl, "cells": cells, "holes": holes}
    if probe is not None:
        xf = []
        for r, c in probe:
            try:
                xf.append(core.norm(sh.cell_xf_index(r, c)))
            except IndexError:
                xf.append("outside")
            except xlrd.XLRDError:
                xf.append("refused")
            except Exception as ex:
                xf.append("exc:" + type(ex).__name__)
        o["xf"] = xf
        o["cxf"] = cxf = []
        for r, c in probe:
            try:
                cxf.append(core.norm(sh.cell(r, c).xf_index))
            except IndexError:
                cxf.append("outside")
            except Exception as ex:
                cxf.append("exc:" + type(ex).__name__)
    return o


def run(s):
    import xlrd
    data = book_bytes(s)
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["opt"]["fmt"],
                               ragged_rows=s["opt"]["ragged"], logfile=_Null())
        sh = b.sheet_by_index(0)
        return project(sh, s.get("probe"))
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:100]}


class _Null:
    def write(self, s):
        pass

    def flush(self):
        pass
