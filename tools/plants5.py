PLANTS = [
dict(id="c02-start-claimed", prop="C02", file="compdoc.py",
 subs=[("            if self.seen[s]:\n                if not self.ignore", "            if self.seen[s] and s != start_sid:\n                if not self.ignore")],
 needs="a workbook stream whose directory entry points at a sector of another structure (directory, allocation table)",
 breaks="the other structure's sector is handed out as the beginning of the stream instead of an error",
 demo="""
import random
c = ole.well_formed(random.Random(1), [([[ord(x) for x in "Workbook"]], 4608)], frag=0)
e = [e for l in c["dirs"].values() for e in l if e["n"] == [ord(x) for x in "Workbook"]][0]
sat = c["ints"][str(c["msat"][0])]
good = e["s"]
# the sector of the allocation table takes the place of the stream's first one
d = c["msat"][0]
sat[d] = sat[good]
e["s"] = d
mem = ole.serialise(c)
try:
    cd = compdoc.CompDoc(mem, logfile=io.StringIO())
    cd.locate_named_stream("Workbook")
except (compdoc.CompDocError, AssertionError):
    pass
else:
    raise SystemExit("no error")
"""),
dict(id="c02-end-free", prop="C02", file="compdoc.py",
 subs=[("        assert s == EOCSID\n        assert tot_found", "        assert s in (EOCSID, FREESID)\n        assert tot_found")],
 needs="a stream whose chain ends in a sector marked free and that has as many sectors as its size asks for",
 breaks="data of a chain that is not properly ended is returned instead of an error",
 demo="""
import random
c = ole.well_formed(random.Random(1), [([[ord(x) for x in "Workbook"]], 4608)], frag=0)
e = [e for l in c["dirs"].values() for e in l if e["n"] == [ord(x) for x in "Workbook"]][0]
sat = c["ints"][str(c["msat"][0])]
s = e["s"]
while sat[s] >= 0: s = sat[s]
assert compdoc.CompDoc(ole.serialise(c), logfile=io.StringIO()).locate_named_stream("Workbook")[2] == 4608
sat[s] = -1
try:
    compdoc.CompDoc(ole.serialise(c), logfile=io.StringIO()).locate_named_stream("Workbook")
except (compdoc.CompDocError, AssertionError):
    pass
else:
    raise SystemExit("no error")
"""),
dict(id="c07-string-first", prop="C07", file="sheet.py",
 subs=[("            enc = bk.encoding or bk.derive_encoding()\n        nchars_found", "            enc = bk.encoding or 'iso-8859-1'\n        nchars_found")],
 needs="a version 2 to 4 file with an encoding override and no CODEPAGE record, whose first byte text is a formula's result",
 breaks="the text is decoded as Latin-1 although an override was given",
 demo="""
f = rec(0x0406, P("<HHH", 0, 0, 0) + b"\\0\\0\\0\\0\\0\\0\\xff\\xff" + P("<H", 0) + P("<H", 0))
data = biff.build(40, [], [dict(name="S", recs=[f, rec(0x0207, P("<H", 3) + b"\\xe0\\xe1\\xe2")])])
assert opn(data, encoding_override="cp1251").sheet_by_index(0).cell_value(0, 0) == "\\u0430\\u0431\\u0432"
assert opn(data).sheet_by_index(0).cell_value(0, 0) == "\\xe0\\xe1\\xe2"
"""),
dict(id="c09-two-inputs", prop="C09", file="sheet.py",
 subs=[("            XL_SHRFMLA, XL_ARRAY, XL_TABLEOP, XL_TABLEOP2,\n", "            XL_SHRFMLA, XL_ARRAY, XL_TABLEOP,\n")],
 needs="a text result of a version 2 formula followed by a multiple-operations record with two input cells (type 37 hexadecimal)",
 breaks="the file cannot be opened",
 demo="""
for t in (None, 0x36, 0x37, 0x236, 0x21, 0x221, 0x4BC):
    f = rec(0x0006, P("<HH", 0, 0) + b"\\0\\0\\0" + b"\\0\\0\\0\\0\\0\\0\\xff\\xff" + P("<B", 0) + P("<B", 0))
    aux = [rec(t, bytes(20))] if t else []
    sh = opn(biff.build(21, [], [dict(name="S", recs=[f] + aux + [rec(0x0007, b"\\3abc")])])).sheet_by_index(0)
    assert sh.cell_value(0, 0) == "abc", t
"""),
dict(id="c10-leap-2400", prop="C10", file="xldate.py",
 subs=[("    if y % 400: return 0\n", "    if y % 2000: return 0\n")],
 needs="the leap day of 2400, 2800, ... 9600",
 breaks="a valid date is refused as a bad tuple",
 demo="""
for y in range(2000, 10000, 400):
    s = xldate.xldate_from_date_tuple((y, 2, 29), 0)
    assert xldate.xldate_as_tuple(s, 0) == (y, 2, 29, 0, 0, 0)
"""),
dict(id="c10-fraction-carry", prop="C10", file="xldate.py",
 subs=[("    if seconds == 86400:\n        hour = minute = second = 0\n        xldays += 1\n", "    if seconds == 86400:\n        hour = minute = second = 0\n        xldays += xldays > 0\n")],
 needs="a time less than half a second before midnight, without a date",
 breaks="1904-based, the result is (0, 0, 0, 0, 0, 0) instead of the first day; 1900-based, it is not reported as ambiguous",
 demo="""
def t(v, m):
    try: return xldate.xldate_as_tuple(v, m)
    except xldate.XLDateError as e: return type(e).__name__
assert t(1 - 1e-6, 1) == t(1, 1) == (1904, 1, 2, 0, 0, 0), t(1 - 1e-6, 1)
assert t(1 - 1e-6, 0) == t(1, 0) == "XLDateAmbiguous", t(1 - 1e-6, 0)
"""),
dict(id="c15-v5-top-colour", prop="C15", file="formatting.py",
 subs=[("            ( 9, 0x0000FE00, 'top_colour_index'),", "            ( 9, 0x00007E00, 'top_colour_index'),")],
 needs="a version 5 or 7 style record whose top border has the automatic colour (index 64)",
 breaks="the colour index loses its highest bit",
 demo="""
for ver in (50, 70):
    for cx in (8, 63, 64, 65):
        x = rec(0xE0, P("<HHHBBII", 0, 0, 1, 0, 0, 0, 1 | cx << 9))
        st = list(biff.base_styles(ver, [0] * 17)) + [x]
        bk = opn(biff.build(ver, st, [dict(name="S", recs=[])]), formatting_info=True)
        assert bk.xf_list[-1].border.top_colour_index == cx, (ver, cx, bk.xf_list[-1].border.top_colour_index)
"""),
dict(id="c15-tooltip-colour", prop="C15", file="formatting.py",
 subs=[("    for i in xrange(ndpal):\n        book.colour_map[i+8] = dpal[i]\n", "    for i in xrange(ndpal):\n        book.colour_map.setdefault(i & 7 if ndpal < 9 else i+8, dpal[i])\n"),
       ("        book.colour_map[8+i] = new_rgb\n", "        if 8+i in book.colour_indexes_used or old_rgb != new_rgb[::-1]: book.colour_map[8+i] = new_rgb\n")],
 needs="a PALETTE record in which a colour is the default one with red and blue exchanged",
 breaks="the colour map keeps the default colour for that index",
 demo="""
from xlrd import formatting
d = list(formatting.excel_default_palette_b8)[:56]
pal = [c[::-1] for c in d]
bk = book([], glob=[rec(0x92, P("<H", 56) + b"".join(P("<BBBB", r, g, b, 0) for r, g, b in pal))], formatting_info=True)
assert [bk.colour_map[8 + i] for i in range(56)] == pal
assert bk.palette_record == pal
"""),
dict(id="c15-user-style-blank", prop="C15", file="formatting.py",
 subs=[("    book.style_name_map[name] = (built_in, xf_index)\n", "    book.style_name_map[name] = (built_in, xf_index & 0x7ff)\n")],
 needs="a named style whose style record has an index of 2048 or more",
 breaks="the style name map points at another style record",
 demo="""
n = 2100
st = list(biff.base_styles(80, [0] * n)) + [rec(0x293, P("<HHB", 2060, 4, 0) + b"mine")]
bk = opn(biff.build(80, st, [dict(name="S", recs=[])]), formatting_info=True)
assert bk.style_name_map["mine"] == (0, 2060), bk.style_name_map
"""),
dict(id="c21-build-list", prop="C21", file="book.py",
 subs=[("                if year < 1994 or build in (2412, 3218, 3321):", "                if year < 1994 or build in (2412, 3218):")],
 needs="a BOF record of version 5 whose build is 3321 and whose year is 1994 or later",
 breaks="the workbook is reported as version 7",
 demo="""
for b, y, v in ((2412, 1995, 50), (3218, 1996, 50), (3321, 1997, 50), (3322, 1997, 70), (3321, 1993, 50)):
    d = biff.build(70, list(biff.base_styles(70, [0] * 17)), [dict(name="S", recs=[])])
    i = d.index(b"\\x09\\x08")
    d = d[:i + 8] + P("<HH", b, y) + d[i + 12:]
    assert opn(d).biff_version == v, (b, y, opn(d).biff_version)
"""),
dict(id="c21-dodgy-7", prop="C21", file="book.py",
 subs=[("                    0x0007: 21,\n", "")],
 needs="a single-sheet file of version 2 with a BOF record of the newest form and the version word 7",
 breaks="the file is refused",
 demo="""
for w, v in ((0, 21), (7, 21), (0x200, 21), (0x300, 30), (0x400, 40)):
    d = rec(0x0809, P("<HHHH", w, 0x10, 0, 0)) + rec(0x0A, b"")
    assert opn(d).biff_version == v, (w, v)
"""),
dict(id="c22-future-label", prop="C22", file="sheet.py",
 subs=[("            elif rc == XL_LABEL:\n", "            elif rc & 0xfff == XL_LABEL:\n")],
 needs="a record of an unknown (future) type whose low bits are those of LABEL, such as 0x1204",
 breaks="an unused record becomes a cell, or makes the open fail",
 demo="""
for k in range(1, 16):
    if k == 0: continue
    sh = book([rec(0x0203, P("<HHHd", 0, 0, 15, 1)), rec(0x0204 | k << 12, P("<HHHHB", 4, 4, 15, 2, 0) + b"ab")]).sheet_by_index(0)
    assert (sh.nrows, sh.ncols) == (1, 1), k
"""),
dict(id="c23-container-map", prop="C23", file="book.py",
 subs=[("        if hasattr(self.filestr, \"close\"):\n            self.filestr.close()\n        self.filestr = None\n        self._shared", "        if hasattr(self.filestr, \"close\") and self._sheet_list:\n            self.filestr.close()\n        self.filestr = None\n        self._shared")],
 needs="a damaged container opened by path with a memory map; the failure comes before the workbook stream is found",
 breaks="the memory map is still open when the call has failed and its exception is kept",
 demo="""
import random, mmap
c = ole.well_formed(random.Random(1), [([[ord(x) for x in "Other"]], 4608)], frag=0)
for bad in (0, 1):
    if bad: c["bom"] = False
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "f.xls")
        with open(p, "wb") as f: f.write(ole.serialise(c))
        made = []
        class M(mmap.mmap):
            def __new__(cls, *a, **k):
                m = mmap.mmap.__new__(cls, *a, **k); made.append(m); return m
        import xlrd.book
        class Mod: pass
        Mod.mmap, Mod.ACCESS_READ = M, mmap.ACCESS_READ
        xlrd.book.mmap = Mod
        try:
            xlrd.open_workbook(p, logfile=io.StringIO())
        except Exception as e: keep = e
        else: raise SystemExit("opened")
        assert made and all(m.closed for m in made), bad
"""),
dict(id="c26-addin-shared", prop="C26", file="book.py",
 subs=[("        self.addin_func_names = []\n        self.name_obj_list", "        self.name_obj_list"),
       ("    def __init__(self):\n        self._sheet_list = []\n", "    addin_func_names = []\n\n    def __init__(self):\n        self._sheet_list = []\n")],
 needs="two workbooks opened one after the other, both with add-in function names",
 breaks="the second one's formulas and names see the first one's add-in functions",
 demo="""
def b(n):
    sup = rec(0x1AE, P("<HH", 1, 0x3A01))
    ext = rec(0x23, P("<HHH", 0, 0, 0) + P("<BB", len(n), 0) + n.encode() + P("<H", 2) + b"\\x1c\\x17")
    return book([], glob=[sup, ext])
x = b("FIRST"); y = b("SECOND")
assert (x.addin_func_names, y.addin_func_names) == (["FIRST"], ["SECOND"]), (x.addin_func_names, y.addin_func_names)
"""),
]
