"""Encoding and projection for spec/Layout.tla."""
import struct
import biff, core, sheetev
from biff import rec, P

W2 = ("show_formulas", "show_grid_lines", "show_sheet_headers", "panes_are_frozen", "show_zero_values",
      "automatic_grid_line_colour", "columns_from_right_to_left", "show_outline_symbols",
      "remove_splits_if_pane_freeze_is_removed", "sheet_selected", "sheet_visible", "show_in_page_break_preview")
ROW = ("height", "has_default_height", "outline_level", "outline_group_starts_ends", "hidden", "height_mismatch",
       "has_default_xf_index", "xf_index", "additional_space_above", "additional_space_below")
COL = ("width", "xf_index", "hidden", "bit1_flag", "outline_level", "collapsed")


def ranges(rs):
    return P("<H", len(rs)) + b"".join(P("<HHHH", a, b - 1, c, d - 1) for a, b, c, d in rs)


def encode(ver, e):
    op = e["op"]
    if op == "merge":
        return rec(0xE5, ranges(e["rs"]))
    if op == "labels":
        return rec(0x15F, ranges(e["rl"]) + ranges(e["cl"]))
    if op in ("hbr", "vbr"):
        d = P("<H", len(e["b"]))
        for b in e["b"]:
            d += P("<HHH", *b) if ver >= 80 else P("<H", b[0])
        return rec(0x1B if op == "hbr" else 0x1A, d)
    if op == "row":
        return rec(0x208, P("<HHHHHHHH", e["r"], 0, 256, e["h"], 0, 0, e["bits"][0], e["bits"][1]))
    if op == "row2":
        d = P("<HHHHHB", e["r"], 0, 256, e["h"], 0, 0 if e["xf"] == -1 else 1) + b"\0\0"
        if e["xf"] != -1:
            d += P("<BBB", e["xf"], 0, 0)
            if e.get("long"):
                d += P("<H", e["xf"])
        return rec(0x08, d)
    if op == "col":
        return rec(0x7D, P("<HHHHH", e["c1"], e["c2"], e["w"], e["xf"], e["flags"]) + bytes(e.get("pad", 2)))
    if op == "colw":
        return rec(0x24, P("<BBH", e["c1"], e["c2"], e["w"]))
    if op == "coldef":
        return rec(0x20, P("<HH", e["c"], e["c"] + len(e["xfs"])) + b"".join(P("<BBB", x, 0, 0) for x in e["xfs"]))
    if op == "defcol":
        return rec(0x55, P("<H", e["w"]))
    if op == "std":
        return rec(0x99, P("<H", e["w"]))
    if op == "gcw":
        b = bytearray(32)
        for c in e["on"]:
            b[c >> 3] |= 1 << (c & 7)
        return rec(0xAB, b"\x20\x00" + bytes(b))
    if op == "w2":
        return rec(0x23E, P("<HHHHHHHI", e["o"], e["fr"], e["fc"], e["gi"], 0, e["p"], e["n"], 0))
    if op == "w2old":
        return rec(0x23E, P("<HHHBBBB", e["o"], e["fr"], e["fc"], *(e["rgb"] + [0])))
    if op == "w2b2":
        return rec(0x3E, bytes(e["f"]) + P("<HHBBBBB", e["fr"], e["fc"], e["auto"], *(e["rgb"] + [0])))
    if op == "scl":
        return rec(0xA0, P("<HH", e["num"], e["den"]))
    if op == "pane":
        return rec(0x41, P("<HHHHB", e["v"], e["h"], e["hf"], e["vf"], e["a"]) + bytes(e.get("pad", 1)))
    if op == "drh":
        return rec(0x225, P("<HH", e["o"], e["h"]))
    if op == "noise":
        return bytes.fromhex(e["raw"])
    raise core.MachineryError("layout op %r" % op)


def run(s):
    import xlrd
    ver, fmt = s["opt"]["ver"], s["opt"]["fmt"]
    recs = [biff.dim_rec(ver, 0, 1, 0, 1)]
    evs = [encode(ver, e) for e in s["ev"]]
    cell = sheetev.encode(ver, {"op": "num", "r": 0, "c": 0, "xf": 15, "v": [0x3FF0, 0, 0, 0]})
    k = s.get("cellat", 0)
    recs += evs[:k] + [cell] + evs[k:]
    g = biff.base_styles(ver, [0] * 21)
    if s.get("pal"):
        g.append(rec(0x92, P("<H", len(s["pal"])) + b"".join(bytes(c + [0]) for c in s["pal"])))
    data = biff.build(ver, g, [{"name": "S", "recs": recs, "vis": s["vis"]}])
    try:
        b = xlrd.open_workbook(file_contents=data, formatting_info=fmt, logfile=sheetev._Null())
        sh = b.sheet_by_index(0)
        n = core.norm
        w = []
        for c in s["wcols"]:
            try:
                w.append(n(sh.computed_column_width(c)))
            except xlrd.XLRDError:
                w.append("refused")
            except Exception as e:
                w.append("exc:" + type(e).__name__)
        return {
            "merged": n(sh.merged_cells), "rowlab": n(sh.row_label_ranges), "collab": n(sh.col_label_ranges),
            "hbr": n(sh.horizontal_page_breaks), "vbr": n(sh.vertical_page_breaks),
            "rows": [[k, [n(getattr(v, a, "missing")) for a in ROW]] for k, v in sorted(sh.rowinfo_map.items())],
            "cols": [[k, [n(getattr(v, a, "missing")) for a in COL]] for k, v in sorted(sh.colinfo_map.items())],
            "widths": w, "defcol": n(sh.defcolwidth), "std": n(sh.standardwidth),
            "w2": [n(getattr(sh, a, "missing")) for a in W2], "fv": n([sh.first_visible_rowx, sh.first_visible_colx]),
            "grid": n(sh.gridline_colour_index), "rgb": n(sh.gridline_colour_rgb),
            "cached": n([sh.cached_page_break_preview_mag_factor, sh.cached_normal_view_mag_factor]),
            "scl": n(sh.scl_mag_factor),
            "zoom": n([sh.cooked_page_break_preview_mag_factor, sh.cooked_normal_view_mag_factor]),
            "pane": n([sh.vert_split_pos, sh.horz_split_pos, sh.horz_split_first_visible, sh.vert_split_first_visible,
                       sh.split_active_pane, sh.has_pane_record]),
            "drh": n(sh.default_row_height),
            "drf": n([sh.default_row_height_mismatch, sh.default_row_hidden, sh.default_additional_space_above,
                      sh.default_additional_space_below]),
            "vis": n(sh.visibility), "cell": n(sh.cell_value(0, 0)),
        }
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)[:200]}


def scn(rng, ver, fmt, ev, want=None, vis=None):
    s = {"opt": {"ver": ver, "fmt": fmt}, "ev": ev, "cellat": rng.randrange(len(ev) + 1),
         "wcols": [0, 1, 2, 3, 5, 7, 8, 100, 254, 255], "vis": 0 if ver < 50 else rng.choice([0, 1, 2]) if vis is None else vis}
    if want:
        s["want"] = want
    return s
