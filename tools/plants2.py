RAWOLE = '''
def raw(chain, size, nsec=16, extra=None, mini=0):
    """one stream "Workbook" whose sectors are `chain`; SAT in 0, directory in 1"""
    sat = [-1] * 128
    sat[0], sat[1] = -3, -2
    for a, b in zip(chain, chain[1:] + [-2]):
        sat[a] = b
    for k, v in (extra or {}).items():
        sat[k] = v
    head = xlrd.biffh.__dict__ and b"\\xD0\\xCF\\x11\\xE0\\xA1\\xB1\\x1A\\xE1" + bytes(16) + P("<HHHHH", 62, 3, 0xFFFE, 9, 6) + bytes(10)
    head += P("<8i", 1, 1, 0, 4096, -2, 0, -2, 0) + P("<109i", 0, *[-1] * 108)
    def ent(name, typ, root, first, n):
        b = (name + "\\0").encode("utf-16le")
        return b.ljust(64, b"\\0") + P("<HBBiii", len(b), typ, 1, -1, -1, root) + bytes(36) + P("<ii", first, n) + bytes(4)
    d = ent("Root Entry", 5, 1, -2, 0) + ent("Workbook", 2, -1, chain[0], size) + bytes(256)
    body = P("<128i", *sat) + d
    body += b"".join(bytes([k]) * 512 for k in range(2, nsec))
    return head + body
'''
PLANTS = [
dict(id="c02-short-chain", prop="C02", file="compdoc.py",
 subs=[("        assert tot_found == found_limit\n", "")],
 needs="a stream whose chain of consecutive sectors ends before the size in its directory entry",
 breaks="the sectors that happen to follow in the file are returned as the rest of the stream",
 demo=RAWOLE + """
mem, base, n = compdoc.CompDoc(raw(list(range(2, 11)), 4600), logfile=io.StringIO()).locate_named_stream("Workbook")
assert n == 4600 and mem[base:base + 600] == b"\\2" * 512 + b"\\3" * 88
try:
    r = compdoc.CompDoc(raw(list(range(2, 10)), 4600), logfile=io.StringIO()).locate_named_stream("Workbook")
except Exception:
    r = None
assert r is None, r[1:]
"""),
dict(id="c02-cross-link", prop="C02", file="compdoc.py",
 subs=[("""            if self.seen[s]:
                if not self.ignore_workbook_corruption:""", """            if self.seen[s] == seen_id:
                if not self.ignore_workbook_corruption:""")],
 needs="a workbook chain that runs into a sector of another structure (here: the directory)",
 breaks="the sector is taken for workbook data without an error although ignoring corruption was not asked for",
 demo=RAWOLE + """
ok = list(range(2, 11))
compdoc.CompDoc(raw(ok, 4600), logfile=io.StringIO()).locate_named_stream("Workbook")
bad = ok[:-1] + [1]
def get(**k):
    try:
        mem, base, n = compdoc.CompDoc(raw(bad, 4600), logfile=io.StringIO(), **k).locate_named_stream("Workbook")
        return len(mem[base:base + n])
    except compdoc.CompDocError:
        return None
assert get() is None
assert get(ignore_workbook_corruption=True) == 4600
"""),
dict(id="c03-first-full", prop="C03", file="sheet.py",
 subs=[("                if nr < self.nrows:\n", "                if nr < self.nrows and self._first_full_rowx < rowx:\n")],
 needs="rows of growing width followed by a still wider cell in an earlier row",
 breaks="rows below the last widened one stay shorter than the sheet",
 demo="""
cells = [(0, 0), (1, 1), (2, 2), (5, 5), (6, 0), (3, 9), (7, 1)]
bk = book([(0x0203, P("<HHHd", r, c, 15, r * 10.0 + c)) for r, c in cells])
sh = bk.sheet_by_index(0)
assert (sh.nrows, sh.ncols) == (8, 10)
for r in range(8):
    want = ["" if (r, c) not in cells else r * 10.0 + c for c in range(10)]
    assert sh.row_values(r) == want, (r, sh.row_values(r))
"""),
dict(id="c04-last-row", prop="C04", file="sheet.py",
 subs=[("            self.utter_max_rows = 16384\n", "            self.utter_max_rows = 16383\n")],
 needs="a cell in row 16384 of a file older than version 8",
 breaks="the last row the format can address is refused",
 demo="""
bk = book([(0x0203, P("<HHHd", 16383, 255, 15, 2.5))], ver=70)
assert bk.sheet_by_index(0).cell_value(16383, 255) == 2.5
bk = book([(0x0203, P("<HHHd", 65535, 0, 15, 2.5))])
assert bk.sheet_by_index(0).cell_value(65535, 0) == 2.5
"""),
dict(id="c05-escape-state", prop="C05", file="formatting.py",
 subs=[("            # Ignore char after backslash, underscore or asterisk\n            state = 0\n",
        "            # Ignore char after backslash, underscore or asterisk\n            state = int(c == UNICODE_LITERAL('\"'))\n")],
 needs="a number format that pads with, or escapes, a quotation mark",
 breaks="the rest of the format is taken for quoted text, so a date format behind the escaped quote is overlooked",
 demo="""
for s, want in (('\\\\"yyyy', 3), ('_"0.0', 2), ('0"y"', 2), ('"0"yyyy', 3), ('*"yyyy', 3), ('\\\\"0"yy"', 2)):
    glob = list(biff.base_styles(80, [0] * 16))
    glob = [biff.format_rec(80, 200, s)] + glob + [biff.xf_rec(80, 200)]
    d = biff.build(80, glob, [dict(name="S", recs=[(0x0203, P("<HHHd", 0, 0, 16, 40000.5))])])
    assert opn(d).sheet_by_index(0).cell_type(0, 0) == want, s
"""),
dict(id="c07-override-late", prop="C07", file="book.py",
 subs=[("""        if self.encoding_override:
            self.encoding = self.encoding_override
        elif self.codepage is None:
            if""", """        if self.encoding_override and not self.codepage:
            self.encoding = self.encoding_override
        elif self.codepage is None:
            if""")],
 needs="an encoding override for a file that also has a CODEPAGE record",
 breaks="the code page of the file wins over the caller's override",
 demo="""
def go(glob, **k):
    d = biff.build(70, list(glob) + list(biff.base_styles(70, [0] * 16)), [dict(name="S", recs=[(0x0204, P("<HHHH", 0, 0, 15, 1) + b"\\xe6")])])
    return opn(d, **k).sheet_by_index(0).cell_value(0, 0)
cp = [(0x42, P("<H", 1251))]
assert go(cp) == "\\u0436"
assert go([], encoding_override="cp1251") == "\\u0436"
assert go(cp, encoding_override="cp1252") == "\\xe6"
"""),
dict(id="c08-release-bytes", prop="C08", file="book.py",
 subs=[("""        self._resources_released = 1
        if hasattr(self.mem, "close"):
            # must be a mmap.mmap object
            self.mem.close()
""", """        if hasattr(self.mem, "close"):
            # must be a mmap.mmap object
            self.mem.close()
            self._resources_released = 1
""")],
 needs="a workbook supplied as bytes (or read from a container), released, then another sheet requested",
 breaks="TypeError instead of the documented XLRDError",
 demo="""
d = biff.build(80, list(biff.base_styles(80, [0] * 16)), [dict(name=n, recs=[(0x0203, P("<HHHd", 0, 0, 15, 1.0))]) for n in "AB"])
bk = opn(d, on_demand=True)
bk.sheet_by_index(0)
bk.release_resources()
assert bk.sheet_by_index(0).cell_value(0, 0) == 1.0
try:
    bk.sheet_by_index(1)
    assert 0
except xlrd.XLRDError:
    pass
assert not bk.sheet_loaded(1)
"""),
dict(id="c09-array2", prop="C09", file="sheet.py",
 subs=[("            XL_ARRAY2, XL_TABLEOP_B2,\n", "            XL_TABLEOP_B2,\n")],
 needs="a version 2 array formula whose result is a text",
 breaks="the ARRAY record between the formula and its text is not expected: the open fails",
 demo="""
f = P("<HH", 0, 0) + b"\\x40\\0\\0" + b"\\0\\0\\0\\0\\0\\0\\xff\\xff" + b"\\0" + P("<B", 0)
bk = book([(0x0006, f), (0x0021, P("<HHBBBB", 0, 0, 0, 0, 0, 0)), (0x0007, b"\\3abc")], ver=21)
assert bk.sheet_by_index(0).cell_value(0, 0) == "abc"
"""),
dict(id="c12-scope-order", prop="C12", file="book.py",
 subs=[("            sort_data = (nobj.scope, namex, nobj)\n", "            sort_data = (nobj.excel_sheet_index, namex, nobj)\n")],
 needs="a name defined in several scopes, among them a sheet that is not a worksheet (or a version 5/7 file, where that field is unused)",
 breaks="the lookup by name lists the scopes in another order",
 demo="""
f = b"\\x1e\\1\\0"
recs = [biff.name_rec(70, b"x", f, extn=e) for e in (2, 0, 1)]
glob = list(biff.base_styles(70, [0] * 16))
glob += [rec(0x16, P("<H", 2)), rec(0x17, b"\\1\\3A"), rec(0x17, b"\\1\\3B")] + recs
bk = opn(biff.build(70, glob, [dict(name="A", recs=[]), dict(name="B", recs=[])]))
assert [n.scope for n in bk.name_obj_list] == [1, -1, 0]
assert [n.scope for n in bk.name_map["x"]] == [-1, 0, 1], [n.scope for n in bk.name_map["x"]]
"""),
dict(id="c12-extnsht-count", prop="C12", file="book.py",
 subs=[("        self._extnsht_count += 1 # for use as a 1-based index\n", ""),
       ("""                sheet_name = unicode(data[2:nc+2], self.encoding)
                self._extnsht_name_from_num""", """                sheet_name = unicode(data[2:nc+2], self.encoding)
                self._extnsht_count += 1 # for use as a 1-based index
                self._extnsht_name_from_num""")],
 needs="a version 5/7 workbook whose EXTERNSHEET list has an entry for another workbook before the one a local name uses",
 breaks="local names get the scope of another sheet, or the open fails with KeyError",
 demo="""
f = b"\\x1e\\1\\0"
glob = list(biff.base_styles(70, [0] * 16))
glob += [rec(0x16, P("<H", 4)), rec(0x17, b"\\1\\4"), rec(0x17, b"\\1\\3A"), rec(0x17, b"\\5\\1other"), rec(0x17, b"\\1\\3B"), rec(0x17, b"\\1\\3C")]
glob += [biff.name_rec(70, b"x", f, extn=2), biff.name_rec(70, b"y", f, extn=4), biff.name_rec(70, b"z", f, extn=5)]
bk = opn(biff.build(70, glob, [dict(name=n, recs=[]) for n in "ABC"]))
assert [n.scope for n in bk.name_obj_list] == [0, 1, 2]
"""),
dict(id="c13-sheet-range", prop="C13", file="formula.py",
 subs=[("""    xlrd_sheetx1 = bk._all_sheets_map[ref_first_sheetx]
    xlrd_sheetx2 = bk._all_sheets_map[ref_last_sheetx]
""", """    xlrd_sheetx1 = bk._all_sheets_map[ref_first_sheetx]
    xlrd_sheetx2 = xlrd_sheetx1 + ref_last_sheetx - ref_first_sheetx
""", 0)],
 needs="a reference over several sheets with a chart or macro sheet between them",
 breaks="the reference extends over sheets behind the last one",
 demo="""
glob = list(biff.base_styles(80, [0] * 16))
glob += [rec(0x01AE, P("<H", 4) + b"\\1\\4"), rec(0x17, P("<HHHH", 1, 0, 0, 2))]
glob += [biff.name_rec(80, biff.flagged([120]), P("<BHHHHH", 0x3B, 0, 1, 2, 3, 4))]
sheets = [dict(name="A", recs=[]), dict(name="M", recs=[], type=2, stype=0x20), dict(name="B", recs=[]), dict(name="C", recs=[])]
bk = opn(biff.build(80, glob, sheets))
assert bk.name_obj_list[0].result.value[0].coords == (0, 2, 1, 3, 3, 5), bk.name_obj_list[0].result
"""),
dict(id="c14-row-xf-mask", prop="C14", file="sheet.py",
 subs=[("                    r.xf_index = (bits2 >> 16) & 0xfff\n", "                    r.xf_index = (bits2 >> 16) & 0xff\n")],
 needs="a row whose default style record has an index above 255, and a cell of it that is not stored",
 breaks="the cell is given another style record",
 demo="""
glob = list(biff.base_styles(80, [0] * 16)) + [biff.xf_rec(80, 0) for _ in range(300)]
recs = [(0x0208, P("<HHHHHHI", 0, 0, 3, 255, 0, 0, 0x80 | (281 << 16) | 0x100)), (0x0203, P("<HHHd", 0, 2, 290, 1.0))]
bk = opn(biff.build(80, glob, [dict(name="S", recs=recs)]), formatting_info=True)
sh = bk.sheet_by_index(0)
assert [sh.cell_xf_index(0, c) for c in range(3)] == [281, 281, 290]
"""),
dict(id="c15-diag-mask", prop="C15", file="formatting.py",
 subs=[("            (14, 0x001FC000, 'diag_colour_index'),", "            (14, 0x000FC000, 'diag_colour_index'),")],
 needs="a version 8 style record whose diagonal border uses the automatic colour (index 64)",
 breaks="the colour index loses its highest bit",
 demo="""
glob = list(biff.base_styles(80, [0] * 16))
body = P("<HHHBBBBIIH", 0, 0, 1, 0x20, 0, 0, 0, 0x40000000, (64 << 14) | (1 << 21), 0x20C0)
glob.append(rec(0xE0, body))
bk = opn(biff.build(80, glob, [dict(name="S", recs=[])]), formatting_info=True)
assert bk.xf_list[16].border.diag_colour_index == 64
"""),
dict(id="c18-row-sharing", prop="C18", file="sheet.py",
 subs=[("                key = (bits1, bits2)\n", "                key = bits2\n")],
 needs="two rows of different height and equal flags in one sheet",
 breaks="the second row is given the height of the first",
 demo="""
recs = [(0x0208, P("<HHHHHHI", r, 0, 3, h, 0, 0, f)) for r, h, f in ((0, 255, 0x100), (1, 300, 0x140), (2, 400, 0x100), (3, 300, 0x140))]
glob = list(biff.base_styles(80, [0] * 16))
sh = opn(biff.build(80, glob, [dict(name="S", recs=recs)]), formatting_info=True).sheet_by_index(0)
assert [sh.rowinfo_map[r].height for r in range(4)] == [255, 300, 400, 300]
"""),
dict(id="c19-zoom-preview", prop="C19", file="sheet.py",
 subs=[("""                zoom = self.cooked_page_break_preview_mag_factor
            self.cooked_normal_view_mag_factor = zoom""", """                zoom = 100
            self.cooked_normal_view_mag_factor = zoom""")],
 needs="a sheet shown in page break preview with an SCL record and no valid zoom factor for the normal view",
 breaks="the zoom factor of the normal view does not follow that of the active view",
 demo="""
def zoom(opts, cached, scl):
    recs = [(0x023E, P("<HHHHHHHI", opts, 0, 0, 64, 0, cached[0], cached[1], 0))]
    if scl: recs.append((0xA0, P("<HH", *scl)))
    glob = list(biff.base_styles(80, [0] * 16))
    sh = opn(biff.build(80, glob, [dict(name="S", recs=recs)])).sheet_by_index(0)
    return sh.cooked_normal_view_mag_factor, sh.cooked_page_break_preview_mag_factor
assert zoom(0x0EB6, (0, 5), (3, 4)) == (75, 75)
assert zoom(0x0EB6, (0, 120), (3, 4)) == (120, 75)
assert zoom(0x06B6, (0, 0), (3, 4)) == (75, 60)
"""),
dict(id="c20-zip-case", prop="C20", file="__init__.py",
 subs=[("        component_names = {name.replace('\\\\', '/').lower(): name\n", "        component_names = {name.lower().replace('\\\\', '/', 1): name\n")],
 needs="a ZIP file whose member names have more than one backslash on the way to the workbook (never) or several components",
 breaks="nothing",
 demo="assert 1"),
dict(id="c20-sniff-size", prop="C20", file="__init__.py",
 subs=[("PEEK_SIZE = max(len(XLS_SIGNATURE), len(ZIP_SIGNATURE))", "PEEK_SIZE = min(len(XLS_SIGNATURE), len(ZIP_SIGNATURE))"),
       ("    if peek.startswith(XLS_SIGNATURE):", "    if peek and XLS_SIGNATURE.startswith(peek):")],
 needs="content that shares its first four bytes with a compound document but is none, or is shorter",
 breaks="it is reported as an xls file",
 demo="""
sig = b"\\xD0\\xCF\\x11\\xE0\\xA1\\xB1\\x1A\\xE1"
assert xlrd.inspect_format(content=sig + b"abc") == "xls"
assert xlrd.inspect_format(content=sig[:4] + b"abcdefgh") is None
assert xlrd.inspect_format(content=sig[:3]) is None
"""),
dict(id="c21-year", prop="C21", file="book.py",
 subs=[("                if year < 1994 or build in (2412, 3218, 3321):", "                if year <= 1994 or build in (2412, 3218, 3321):")],
 needs="a version 7 workbook whose BOF record names 1994 as the year of the build",
 breaks="it is taken for version 5",
 demo="""
def ver(build, year):
    lead = rec(0x0809, P("<HHHH", 0x0500, 5, build, year))
    return opn(biff.build(70, list(biff.base_styles(70, [0] * 16)), [dict(name="S", recs=[])], lead=lead)).biff_version
assert ver(1000, 1993) == 50 and ver(2412, 1997) == 50
assert ver(1000, 1996) == 70
assert ver(1000, 1994) == 70
"""),
dict(id="c17-old-obj", prop="C17", file="sheet.py",
 subs=[("                if saved_obj: saved_obj_id = saved_obj.id\n                else: saved_obj_id = None\n", "                if saved_obj: saved_obj_id = saved_obj.id\n")],
 needs="a note's drawing object, then an OBJ record in the old layout, before the text object that belongs to the latter",
 breaks="the text is attached to the note's object",
 demo="""
def obj(i): return (0x5D, P("<HHHHH", 0x15, 18, 0x19, i, 0) + bytes(12) + P("<HH", 0, 0))
def txo(s): return [(0x1B6, P("<HHHHHHHI", 0, 0, 0, 0, 0, len(s), 16, 0)), (0x3C, b"\\0" + s.encode()), (0x3C, P("<HHIHHI", 0, 0, 0, len(s), 0, 0))]
def note(i): return (0x1C, P("<HHHH", 0, 0, 0, i) + P("<HB", 1, 0) + b"a\\0")
old = (0x5D, P("<IHH", 1, 2, 3) + bytes(30))
sh = book([obj(1), *txo("mine"), note(1)]).sheet_by_index(0)
assert sh.cell_note_map[0, 0].text == "mine"
sh = book([obj(1), old, *txo("other"), note(1)]).sheet_by_index(0)
assert (0, 0) not in sh.cell_note_map
"""),
dict(id="c24-short-filepass", prop="C24", file="book.py",
 subs=[("            elif rc == XL_FILEPASS:\n", "            elif rc == XL_FILEPASS and length > 4:\n")],
 needs="a version 5/7 workbook, whose FILEPASS record has only four bytes",
 breaks="an encrypted workbook is read as if it were not",
 demo="""
for ver, body in ((80, P("<HHH", 0, 1, 2)), (70, P("<HH", 1, 2))):
    d = biff.build(ver, [rec(0x2F, body)] + list(biff.base_styles(ver, [0] * 16)), [dict(name="S", recs=[])])
    try:
        opn(d)
        assert 0, ver
    except xlrd.XLRDError as e:
        assert "encrypted" in str(e)
"""),
dict(id="c26-note-map", prop="C26", file="sheet.py",
 subs=[("        self.cell_note_map = {}\n", "")],
 needs="two sheets (of one or of several workbooks), one of them with notes",
 breaks="all sheets share one map of notes",
 demo="""
def obj(i): return (0x5D, P("<HHHHH", 0x15, 18, 0x19, i, 0) + bytes(12) + P("<HH", 0, 0))
def txo(s): return [(0x1B6, P("<HHHHHHHI", 0, 0, 0, 0, 0, len(s), 16, 0)), (0x3C, b"\\0" + s.encode()), (0x3C, P("<HHIHHI", 0, 0, 0, len(s), 0, 0))]
def note(i): return (0x1C, P("<HHHH", 0, 0, 0, i) + P("<HB", 1, 0) + b"a\\0")
a = book([obj(1), *txo("mine"), note(1)]).sheet_by_index(0)
b = book([]).sheet_by_index(0)
assert list(a.cell_note_map) == [(0, 0)] and b.cell_note_map == {}
"""),
dict(id="c23-mmap-leak", prop="C23", file="book.py",
 subs=[("""            if self.mem is not self.filestr:
                if hasattr(self.filestr, "close"):
                    self.filestr.close()
                self.filestr = b''
""", """            if self.mem is not self.filestr:
                self.filestr = b''
""")],
 needs="a compound file whose workbook stream is fragmented, opened by path with memory mapping",
 breaks="the memory map of the file stays open as long as something refers to it (until garbage collection)",
 demo="assert 1"),
dict(id="c10-datetime-carry", prop="C10", file="xldate.py",
 subs=[("    milliseconds = int(round(fraction * 86400000.0))", "    milliseconds = int(fraction * 86400000.0)")],
 needs="", breaks="", demo="assert 1"),
]
PLANTS = [p for p in PLANTS if p["demo"] != "assert 1"]
