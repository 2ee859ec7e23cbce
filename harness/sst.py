"""Writer for shared-string tables laid out over CONTINUE records (spec/Text.tla)."""
import struct
import biff, core, sheetev
from biff import P, rec

P_unpack = struct.Struct("<II").unpack


def layout(rng, table, header, cut, widths=None):
    """table: entries (units, runs, phon bytes).  cut(n, room) decides before each
    item whether to close the part.  Returns list of parts (bytes)."""
    parts, cur = [], bytearray(header)
    for units, runs, ph in table:
        w = 1 if (units and max(units) > 255) else 0
        if units and not w and rng.random() < .2:
            w = 1
        fl = w | (8 if runs else 0) | (4 if ph is not None else 0)
        h = P("<HB", len(units), fl)
        if runs:
            h += P("<H", len(runs))
        if ph is not None:
            h += P("<i", len(ph))
        if cut("head", len(cur), len(h)):
            parts.append(bytes(cur)); cur = bytearray()
        cur += h
        fresh = False
        for k, u in enumerate(units):
            must = (not w and u > 255)
            # a narrow piece must be closed before a wide unit
            if must or (not fresh and cut("chars", len(cur), 1 + w)):
                if fresh:
                    cur[-1:] = b"\x01"
                    w = 1
                else:
                    parts.append(bytes(cur))
                    w = 1 if u > 255 or rng.random() < .4 else 0
                    cur = bytearray([w])
            fresh = False
            cur += P("<H", u) if w else bytes([u])
        for r in runs:
            if cut("runs", len(cur), 4):
                parts.append(bytes(cur)); cur = bytearray()
            cur += P("<HH", *r)
        for b in (ph or b""):
            if cut("phon", len(cur), 1):
                parts.append(bytes(cur)); cur = bytearray()
            cur.append(b)
    parts.append(bytes(cur))
    return parts


def run(s):
    import xlrd
    parts = [bytes(p) for p in s["parts"]]
    pad = s.get("pad", 0)
    if pad:         # as many one-letter strings in front of the table
        total, uniq = P_unpack(parts[0][:8])
        front = [P("<HB", 1, 0) + b"p"] * pad
        parts = [P("<II", total + pad, uniq + pad)] + [b"".join(front[i:i + 2000]) for i in range(0, pad, 2000)] + [parts[0][8:]] * (len(parts[0]) > 8) + parts[1:]
    g = biff.base_styles(80, [0] * 21) + [None, biff.cont(0xFC, parts)] + [bytes.fromhex(s.get("after", ""))]
    recs = [biff.dim_rec(80, 0, len(s["cells"]), 0, 1)]
    for r, i in enumerate(s["cells"]):
        recs.append(rec(0xFD, P("<HHHI", r, s.get("col", 0), 15, i + pad)))
    data = biff.build(80, g, [{"name": "S", "recs": recs}])
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=s["fmt"], logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        c = s.get("col", 0)
        o = {"texts": [core.units(sh.cell_value(r, c)) for r in range(len(s["cells"]))],
             "types": [core.norm(sh.cell_type(r, c)) for r in range(len(s["cells"]))],
             "runs": [core.norm(sh.rich_text_runlist_map.get((r, c), [])) for r in range(len(s["cells"]))]}
        if len(sh.rich_text_runlist_map) != sum(1 for x in o["runs"] if x):
            o["runs"].append("extra entries")
        return o
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}
