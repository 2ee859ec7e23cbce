"""Reading abstract containers with the real code (C01, C02)."""
import core, ole, biff, sheetev
from biff import rec, P


def stream_obs(mem, c, buf, off, length, tables):
    table, first, _ = tables
    un = 1 << c["usz"]
    data = bytes(buf[off:off + length]) if buf is not None else b""
    full = len(data) // un
    u = [first.get(data[i * un:(i + 1) * un], -1) for i in range(full)]
    rest = data[full * un:]
    last = []
    if rest:
        last = [i for i, b in enumerate(table) if b.startswith(rest)]
        # a final unit that is itself cut short by the end of the file
        base = max(512, 1 << c["ssz"])
        if mem[base + len(table) * un:] == rest:
            last.append(len(table))
    return {"res": "data", "len": len(data), "u": u, "last": last}


def workbook(n):
    """A version-8 workbook stream whose n cells make every sector visible."""
    recs = [rec(0x0203, P("<HHHd", i // 8, i % 8, 15, i + 0.25)) for i in range(n)]
    return biff.build(80, biff.base_styles(80, [0] * 21), [{"name": "S", "recs": recs}])


def cells(b):
    sh = b.sheet_by_index(0)
    return [sh.nrows, sh.ncols, [core.f64(v) for r in range(sh.nrows) for v in sh.row_values(r) if isinstance(v, float)]]


def run(s):
    import xlrd
    from xlrd import compdoc
    c = s["c"]
    content = {}
    wb = None
    if "wb" in s:
        wb = workbook(s["wb"]["n"])
        ss = 1 << c["ssz"]
        if "chain" in s["wb"]:
            for i, sid in enumerate(s["wb"]["chain"]):
                content[sid] = wb[i * ss:(i + 1) * ss]
        else:                                     # in the mini stream
            box = bytearray(len(s["wb"]["box"]) * ss)
            ms = 1 << c["sssz"]
            for i, m in enumerate(s["wb"]["mini"]):
                d = wb[i * ms:(i + 1) * ms]
                box[m * ms:m * ms + len(d)] = d
            for i, sid in enumerate(s["wb"]["box"]):
                content[sid] = bytes(box[i * ss:(i + 1) * ss])
    mem = ole.serialise(c, content)
    tables = ole.units_of(mem, c)
    out = []
    cd = None
    for q in s["q"]:
        log = sheetev._Null()
        if q["api"] == "open":
            try:
                a = cells(xlrd.open_workbook(file_contents=mem, logfile=log))
                out.append({"res": "data", "cells": a, "bare": cells(xlrd.open_workbook(file_contents=wb, logfile=log))})
            except Exception as e:
                out.append({"res": "error", "x": type(e).__name__ + ":" + str(e)[:60]})
            continue
        try:
            if cd is None or not q.get("same"):
                cd = compdoc.CompDoc(mem, logfile=log, ignore_workbook_corruption=q["ignore"])
            name = "/".join(core.unit_str(p) for p in q["path"])
            if q["api"] == "get":
                d = cd.get_named_stream(name)
                o = {"res": "absent"} if d is None else stream_obs(mem, c, d or b"", 0, len(d), tables)
            else:
                buf, off, ln = cd.locate_named_stream(name)
                o = {"res": "absent"} if buf is None else stream_obs(mem, c, buf, off, ln, tables)
            out.append(o)
        except MemoryError:           # gigabytes for a small file: the same as never ending
            raise core.Hang()
        except Exception as e:
            out.append({"res": "error", "x": type(e).__name__ + ":" + str(e)[:60]})
    return {"q": out}


def fill_dup(s):
    """Contents that occur twice (small containers only)."""
    mem = ole.serialise(s["c"])
    s["c"]["dup"] = ole.units_of(mem, s["c"])[2]
    return s


def U(x):
    return [ord(ch) for ch in x]
