"""Documents of everything a workbook or sheet reports through its documented
attributes, for comparing like with like (never compared with expectations)."""
import hashlib, json
import core, xlrd
from xlrd.biffh import BaseObject

SHEET_ATTRS = """name number visibility nrows ncols colinfo_map rowinfo_map col_label_ranges row_label_ranges
merged_cells rich_text_runlist_map defcolwidth standardwidth default_row_height default_row_height_mismatch
default_row_hidden default_additional_space_above default_additional_space_below gcw hyperlink_list
hyperlink_map cell_note_map vert_split_pos horz_split_pos horz_split_first_visible vert_split_first_visible
split_active_pane has_pane_record horizontal_page_breaks vertical_page_breaks show_formulas show_grid_lines
show_sheet_headers panes_are_frozen show_zero_values automatic_grid_line_colour columns_from_right_to_left
show_outline_symbols remove_splits_if_pane_freeze_is_removed sheet_selected sheet_visible
show_in_page_break_preview first_visible_rowx first_visible_colx gridline_colour_index gridline_colour_rgb
cooked_page_break_preview_mag_factor cooked_normal_view_mag_factor cached_page_break_preview_mag_factor
cached_normal_view_mag_factor scl_mag_factor formatting_info ragged_rows""".split()
BOOK_ATTRS = """nsheets datemode biff_version codepage encoding countries user_name font_list xf_list format_list
format_map style_name_map colour_map palette_record name_obj_list name_map name_and_scope_map addin_func_names""".split()


def plain(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, xlrd.Book) or isinstance(x, xlrd.sheet.Sheet):
        return "<%s>" % type(x).__name__
    if isinstance(x, xlrd.sheet.Cell):
        return ["cell", x.ctype, plain(x.value), x.xf_index]
    if isinstance(x, BaseObject):
        return {k: plain(v, depth + 1) for k, v in sorted(vars(x).items()) if not k.startswith("_") and k not in ("book", "logfile", "verbosity")}
    if isinstance(x, dict):
        return sorted(([repr(k), plain(v, depth + 1)] for k, v in x.items()), key=lambda p: p[0])
    if isinstance(x, xlrd.formula.Operand):
        return [x.kind, plain(x.value), x.text]
    if isinstance(x, tuple) or isinstance(x, list) or type(x).__name__ == "array":
        return [plain(y, depth + 1) for y in x]
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, float):
        return core.f64(x)
    if isinstance(x, int):
        return x
    if isinstance(x, bytes):
        return "B:" + x.hex()
    return "<%s>" % type(x).__name__


def grid(sh, fmt=None):
    """Rows of [type, value(, xf)]."""
    out = []
    fmt = sh.formatting_info if fmt is None else fmt
    for r in range(sh.nrows):
        ts, vs = sh.row_types(r), sh.row_values(r)
        row = [[ts[c], plain(vs[c])] for c in range(len(vs))]
        if fmt:
            for c in range(len(row)):
                row[c].append(sh.cell_xf_index(r, c))
        out.append(row)
    return out


def sheet_doc(sh, skip=()):
    d = {a: plain(getattr(sh, a, "<absent>")) for a in SHEET_ATTRS if a not in skip}
    if "grid" not in skip:
        d["grid"] = grid(sh)
    return d


def book_doc(bk, skip=(), sheets=True, sheet_skip=()):
    d = {a: plain(getattr(bk, a, "<absent>")) for a in BOOK_ATTRS if a not in skip}
    d["sheet_names"] = bk.sheet_names()
    if sheets:
        d["sheets"] = [sheet_doc(s, sheet_skip) for s in bk.sheets()]
    return d


def digest(doc):
    return hashlib.sha1(json.dumps(doc, sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()[:16]
