"""Runs scripts/runxlrd.py in this process and reads its report back."""
import ast, contextlib, gc, io, os, re, runpy, sys
import core
from core import units

SCRIPT = os.path.join(core.REPO, "scripts", "runxlrd.py")


def run_cli(argv):
    """(stdout, stderr, exit status)"""
    out, err, old = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = ["runxlrd.py"] + list(argv)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.argv = old
        if not gc.isenabled():
            gc.enable()
    return out.getvalue(), err.getvalue(), code


def value(t):
    """The value a repr stands for, as the specification writes it."""
    try:
        v = ast.literal_eval(t)
    except Exception:
        return "?" + t[:80]
    if isinstance(v, str):
        return units(v)
    if isinstance(v, tuple):
        return [x if isinstance(x, int) else core.norm(x) for x in v]
    return core.norm(v)


CELL = re.compile(r"^cell ([A-Z]+)(\d+): type=(\d+), data: (.*?)$")
CELLX = re.compile(r"^cell ([A-Z]+)(\d+): type=(\d+), data: (.*), xfx: (\d+)$")
SHEET = re.compile(r"^sheet (\d+): name = (.*); nrows = (\d+); ncols = (\d+)$")
HDR = [re.compile(x) for x in (r"^BIFF version: (\S+); datemode: (\d+)$", r"^codepage: (.*) \(encoding: (.*)\); countries: (.*)$", r"^Last saved by: (.*)$",
                               r"^Number of data sheets: (\d+)$", r"^Use mmap: (\d+); Formatting: (\d+); On demand: (\d+)$", r"^Ragged rows: (\d+)$")]
GCS = re.compile(r"^GC (before open|post cmd):")
TIMES = re.compile(r"^(Open took|command took|Load time:) .*seconds")
NAME = re.compile(r"^\[(\d+)\]\tName:(.*) macro:(.*) scope:(.*)$")
LABR = re.compile(r"^(Col|Row) label range ([A-Z]+\d+):([A-Z]+\d+) contains:$")
LAB = re.compile(r"^    ([A-Z]+\d+): (.*)$")
FONTK = ("name", "height", "weight", "italic", "struck_out", "underline_type", "family", "character_set", "escapement", "colour_index")
NAMEK = ("name", "hidden", "func", "vbasic", "macro", "complex", "builtin", "funcgroup", "binary", "name_index", "scope", "excel_sheet_index")


def attrs(keys, pairs):
    """Attributes of a dumped object; their order must be alphabetical and
    each must appear once."""
    ks = [k for k, _ in pairs]
    if ks != sorted(set(ks)):
        return ["unordered"] + ks
    d = dict(pairs)
    return [value(d[k]) if k in d else "missing" for k in keys]


def parse(text, paths, o, state="top"):
    """Lines of the report as events.  paths: the files, in order."""
    ev, timing = [], False
    hdr = []
    obj = None
    sheet = None

    def close():
        nonlocal obj
        if obj is not None:
            ev.append([obj[0], obj[1], attrs(FONTK if obj[0] == "font" else NAMEK, obj[2])])
            obj = None
    lines = text.split("\n")
    fast = re.compile(r"^cell A(\d+): type=2, data: (\d+)\.0(?:, xfx: (\d+))?$")
    for line in lines:
        if not line:
            continue
        m = fast.match(line) if state == "body" and obj is None else None
        if m:
            ev.append(["cell", [65], int(m.group(1)), 2, core.f64(float(m.group(2))), int(m.group(3)) if o["fmt"] and m.group(3) else -1])
            continue
        if obj is not None and line:
            m = re.match(r"^( *)(\w+): (.*)$", line)
            ind = 4 if obj[0] == "font" else 0
            if m and len(m.group(1)) == ind and not line.startswith("==="):
                obj[2].append((m.group(2), m.group(3)))
                continue
            if m and len(m.group(1)) > ind or re.match(r"^ *\w+ \(\w+ object\):$", line):
                if not line.startswith(" " * (ind + 1)):
                    obj[2].append((line.split()[0], "'object'"))
                continue
        if not line:
            continue
        m = re.match(r"^=== File: (.*) ===$", line)
        if m:
            close()
            ev.append(["file", paths.index(m.group(1)) + 1 if m.group(1) in paths else -1])
            state, sheet = "opening", None
            continue
        if GCS.match(line):
            continue
        if TIMES.match(line):
            timing = True
            continue
        if line.startswith("*** Open failed: "):
            ev.append(["failed"])
            state = "failed"
            continue
        if line.startswith("*** Unknown command <"):
            ev.append(["unknown_command"])
            continue
        if state == "failed":
            continue
        m = HDR[0].match(line)
        if m:
            hdr = [m.group(1), int(m.group(2))]
            state = "header"
            continue
        if state == "header":
            m = HDR[1].match(line)
            if m:
                hdr += [value(m.group(1)), value(m.group(3))]
                continue
            m = HDR[2].match(line)
            if m:
                hdr.append(value(m.group(1)))
                continue
            m = HDR[3].match(line)
            if m:
                hdr.append(int(m.group(1)))
                continue
            m = HDR[4].match(line)
            if m:
                hdr += [int(m.group(2)), int(m.group(3))]
                continue
            m = HDR[5].match(line)
            if m:
                ev.append(["header"] + hdr + [int(m.group(1))])
                state = "body"
                continue
        if state == "body":
            if re.match(r"^FORMATs: \d+, FONTs: \d+, XFs: \d+$", line) and o["fmt"]:
                continue
            m = SHEET.match(line)
            if m:
                sheet = ev[-1] if ev else None
                ev.append(["sheet", int(m.group(1)), value(m.group(2)), int(m.group(3)), int(m.group(4))])
                continue
            m = (CELLX if o["fmt"] else CELL).match(line)
            if m:
                ty = int(m.group(3))
                v = value(m.group(4))
                if ty == 5 and isinstance(v, list):
                    v = core.unit_str(v)
                    d = re.match(r"^(XLDate\w+):", v)
                    v = d.group(1) if d else v
                ev.append(["cell", units(m.group(1)), int(m.group(2)), ty, v, int(m.group(5)) if o["fmt"] else -1])
                continue
            m = LABR.match(line)
            if m:
                ev.append([m.group(1), units(m.group(2)), units(m.group(3))])
                continue
            m = LAB.match(line)
            if m:
                ev.append(["label", units(m.group(1)), value(m.group(2))])
                continue
            if line.startswith("XF stats ["):
                ev.append(["xfstats"] + value(line[9:]))
                continue
            if line.startswith("type stats ["):
                ev.append(["types"] + value(line[11:]))
                continue
            if line == "Names not extracted in this BIFF version":
                ev.append(["nonames"])
                continue
            m = re.match(r"^Name list: (\d+) entries$", line)
            if m:
                ev.append(["namelist", int(m.group(1))])
                continue
            m = NAME.match(line)
            if m:
                ev.append(["name", int(m.group(1)), [value(m.group(2)), value(m.group(3)), value(m.group(4))]])
                continue
            if line.startswith("\tresult:") and ev[-1][0] == "name":
                continue
            m = re.match(r"^=== Dump of name_obj_list\[(\d+)\] ===$", line)
            if m:
                close()
                obj = ["namedump", int(m.group(1)), []]
                continue
            if line == "Fonts:":
                continue
            m = re.match(r"^== Index (\d+) ==$", line)
            if m:
                close()
                obj = ["font", int(m.group(1)), []]
                continue
        if state == "opening":      # messages of the library
            continue
        ev.append(["other", line[:100]])
    close()
    return ev, timing


def runs(ev):
    """Cells of tall one-column sheets as runs of rows."""
    out = []
    for e in ev:
        if e[0] == "cell":
            if e[1] == [65] and e[3] == 2 and e[4] == core.f64(float(e[2] - 1)):
                r = e[2] - 1
                if out and out[-1][0] == "rows" and out[-1][2] == r - 1:
                    out[-1][2] = r
                else:
                    out.append(["rows", r, r])
                continue
        out.append(e)
    return out
