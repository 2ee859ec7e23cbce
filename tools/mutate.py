#!/usr/bin/env python3
"""mutate.py OUT.jsonl [SEED] [FILE...] - systematic mutation of the reader, in
scratch copies: one small change at a time (comparison, constant, operator,
condition, dropped statement), kept when the repository's tests still pass, then
judged by the checks of the properties the changed function serves, until one
reports it.  Appends a line per mutant to OUT; run it from a copy of /verif."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
SKIP = {"dump", "x_dump_line", "_dump_line", "dump_list", "_build_family_tree", "__repr__", "hex_char_dump", "fprintf", "dump_formula", "expand_cell_address",
        "display_cell_address", "check_colour_indexes_in_obj", "handle_externname", "handle_obj_book", "bof_error", "handle_sheetsoffset", "upkbitsL"}
MAP = {
    "inspect_format": "C20", "open_workbook": "C20 C26 C08 C23", "count_records": "C27", "biff_dump": "C27", "biff_count_records": "C27",
    "is_cell_opcode": "C27", "upkbits": "C15", "unpack_string": "C07 C21", "unpack_string_update_pos": "C07 C12 C13 C04", "unpack_unicode": "C04 C06 C25 C15",
    "unpack_unicode_update_pos": "C12 C25 C13", "unpack_cell_range_address_list_update_pos": "C18 C16", "open_workbook_xls": "C08 C21 C23 C26",
    "unpack_SST_table": "C06", "cell": "C11 C12", "area2d": "C12", "sheets": "C08 C11", "sheet_by_index": "C08", "__iter__": "C08 C11", "sheet_by_name": "C08 C25",
    "__getitem__": "C11 C08", "sheet_names": "C25", "sheet_loaded": "C08", "unload_sheet": "C08", "release_resources": "C08 C23", "__exit__": "C08 C23",
    "biff2_8_load": "C20 C23 C02 C01", "initialise_format_info": "C21 C05 C15", "get2bytes": "C21 C23", "get_record_parts": "C23 C22", "get_record_parts_conditional": "C06 C23 C04",
    "get_sheet": "C08 C23 C21", "get_sheets": "C08", "fake_globals_get_sheet": "C21", "handle_boundsheet": "C25 C21 C12", "handle_builtinfmtcount": "C21 C05",
    "derive_encoding": "C07 C21", "handle_codepage": "C07", "handle_country": "C21 C26 C25", "handle_datemode": "C04 C05 C21", "handle_externsheet": "C12 C13",
    "handle_filepass": "C24", "handle_name": "C12 C13", "names_epilogue": "C12 C13", "handle_supbook": "C12 C13", "handle_sheethdr": "C21", "handle_sst": "C06", "handle_writeaccess": "C07 C21",
    "parse_globals": "C21 C22 C24 C25", "read": "C22 C03 C04 C18 C19 C09 C14 C16", "getbof": "C21 C23", "__init__": "C01 C02 C21 C26", "_get_stream": "C01 C02",
    "_dir_search": "C01", "get_named_stream": "C01 C02", "locate_named_stream": "C01 C02", "_locate_stream": "C02 C01",
    "xldate_as_tuple": "C10", "xldate_as_datetime": "C10", "_leap": "C10", "xldate_from_date_tuple": "C10", "xldate_from_time_tuple": "C10", "xldate_from_datetime_tuple": "C10",
    "initialise_colour_map": "C15", "nearest_colour_index": "C15", "handle_efont": "C15", "handle_font": "C15 C07", "is_date_format_string": "C05", "handle_format": "C05 C15 C07",
    "handle_palette": "C15", "palette_epilogue": "C15", "handle_style": "C15", "fill_in_standard_formats": "C05 C15", "handle_xf": "C15 C05", "xf_epilogue": "C15 C05", "initialise_book": "C15 C26",
    "evaluate_name_formula": "C13 C12", "decompile_formula": "C13", "do_binop": "C13", "do_unaryop": "C13", "get_externsheet_local_range": "C13", "get_externsheet_local_range_b57": "C13",
    "adjust_cell_addr_biff8": "C13", "adjust_cell_addr_biff_le7": "C13", "get_cell_addr": "C13", "get_cell_range_addr": "C13", "num2strg": "C13",
    "unpack_RK": "C04", "cell_xf_index": "C14", "tidy_dimensions": "C03 C18", "put_cell_ragged": "C03 C26", "put_cell_unragged": "C03", "string_record_contents": "C09",
    "update_cooked_mag_factors": "C19", "fixed_BIFF2_xfindex": "C21 C14 C04 C05", "insert_new_BIFF20_xf": "C14 C15 C05", "fake_XF_from_BIFF20_cell_attr": "C15 C14 C05",
    "computed_column_width": "C19", "handle_hlink": "C16", "handle_quicktip": "C16", "handle_msodrawingetc": "C17 C22", "handle_obj": "C17 C22", "handle_note": "C17", "handle_txo": "C17 C22", "handle_feat11": "C22",
    "get_nul_terminated_unicode": "C16", "req_fmt_info": "C14",
}
FILEMAP = {"formula": "C28 C13", "sheet": "C11 C03 C26", "formatting": "C15", "book": "C21 C08", "biffh": "C27 C21", "compdoc": "C01 C02", "xldate": "C10", "__init__": "C20 C26"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "*", ast.FloorDiv: "*"}
BSYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>", ast.Mod: "%", ast.FloorDiv: "//"}
NOISE = ("verbosity", "blah", "DEBUG", "logfile", "fprintf", "print(", "TOGGLE_GC", "perf_counter", "hex_char_dump")


def mutants(src):
    """(function, line, offset range, replacement, description)"""
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    b = src.encode()
    pos = lambda n: starts[n.lineno - 1] + n.col_offset
    end = lambda n: starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def noise(n):
        t = b[pos(n):end(n)].decode()
        return any(k in t for k in NOISE)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n.name
        if isinstance(n, ast.If) and noise(n.test):
            for c in n.orelse:
                visit(c, fn)
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or noise(n)):
            return
        if isinstance(n, (ast.Assert,)) or (isinstance(n, ast.Raise)):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, c = end(n.left), pos(n.comparators[0])
                mid = b[a:c].decode()
                s = SYM[type(n.ops[0])]
                if mid.count(s) == 1:
                    out.append((fn, n.lineno, a, c, mid.replace(s, CMP[type(n.ops[0])]), "cmp"))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                a, c = end(n.left), pos(n.right)
                mid = b[a:c].decode()
                s = BSYM[type(n.op)]
                if mid.count(s) == 1:
                    out.append((fn, n.lineno, a, c, mid.replace(s, BIN[type(n.op)]), "op"))
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                a, c = end(n.values[0]), pos(n.values[1])
                mid = b[a:c].decode()
                if isinstance(n.op, ast.And) and mid.count("and") == 1:
                    out.append((fn, n.lineno, a, c, mid.replace("and", "or"), "bool"))
                elif isinstance(n.op, ast.Or) and mid.count("or") == 1:
                    out.append((fn, n.lineno, a, c, mid.replace("or", "and"), "bool"))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and type(n.value) is not bool:
                v = n.value
                out.append((fn, n.lineno, pos(n), end(n), repr(v + 1), "const"))
                if v not in (0,):
                    out.append((fn, n.lineno, pos(n), end(n), "(%r)" % (v - 1), "const"))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((fn, n.lineno, pos(n), end(n), repr(not n.value), "const"))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if not noise(n):
                    out.append((fn, n.lineno, pos(n), end(n), "pass", "drop"))
            elif isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
                t = b[pos(n.test):end(n.test)].decode()
                out.append((fn, n.lineno, pos(n.test), end(n.test), "(not (%s))" % t, "neg"))
            elif isinstance(n, ast.Continue):
                out.append((fn, n.lineno, pos(n), end(n), "pass", "drop"))
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(ast.parse(src), None)
    return [m for m in out if m[0] not in SKIP]


def main():
    out, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
    files = sys.argv[3:] or ["compdoc", "book", "sheet", "formatting", "biffh", "formula", "xldate", "__init__"]
    rng = random.Random(seed)
    todo = []
    for f in files:
        src = open("/repo/xlrd/%s.py" % f).read()
        todo += [(f,) + m for m in mutants(src)]
    rng.shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    per = {}
    for f, fn, line, a, c, new, kind in todo:
        key = (f, line, a, kind, new)
        if key in done:
            continue
        # no function gets all the time
        k = (f, fn)
        per[k] = per.get(k, 0) + 1
        d = tempfile.mkdtemp(prefix="mutant_", dir="/tmp")
        try:
            shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
            p = d + "/r/xlrd/%s.py" % f
            b = open(p, "rb").read()
            old = b[a:c].decode()
            m = b[:a] + new.encode() + b[c:]
            open(p, "wb").write(m)
            rec = {"key": key, "fn": fn, "line": line, "old": old[:120], "new": new[:120], "text": b.decode().splitlines()[line - 1].strip()[:140]}
            try:
                compile(m, p, "exec")
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/r",
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                    rec["tests"] = r.returncode == 0
                except subprocess.TimeoutExpired:
                    rec["tests"] = False
            except SyntaxError:
                rec["tests"] = False
            if rec["tests"]:
                rec["caught"], rec["tried"] = "", []
                t = time.time()
                for prop in (MAP.get(fn) or FILEMAP[f]).split():
                    e = dict(os.environ, VERIF_REPO=d + "/r")
                    r = subprocess.run([sys.executable, V + "/check.py", prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    rec["tried"].append([prop, r.returncode])
                    if r.returncode:
                        rec["caught"] = prop
                        o = [x for x in r.stdout.decode().splitlines() if "clauses=" in x or r.returncode == 2]
                        rec["how"] = o[0].strip()[:160] if o else ""
                        if r.returncode == 1:
                            break
                rec["s"] = round(time.time() - t)
            with open(out, "a") as fo:
                fo.write(json.dumps(rec) + "\n")
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
