PLANTS = [
dict(id="c06-empty-sst-tail", prop="C06", file="book.py",
 subs=[("        if self.formatting_info:\n            self._rich_text_runlist_map = rt_runlist\n", "        if self.formatting_info and nbt == len(strlist[0]):\n            self._rich_text_runlist_map = rt_runlist\n")],
 needs="a shared string table with rich text that is continued in another record, formatting loaded",
 breaks="the cells lose their rich-text runs",
 demo="""
def sst(*parts): return rec(0xFC, parts[0]) + b"".join(rec(0x3C, p) for p in parts[1:])
def go(t):
    d = biff.build(80, list(biff.base_styles(80, [0] * 16)) + [t], [dict(name="S", recs=[(0xFD, P("<HHHI", 0, 0, 15, 0))])])
    sh = opn(d, formatting_info=True).sheet_by_index(0)
    return sh.cell_value(0, 0), sh.rich_text_runlist_map
head = P("<II", 1, 1) + P("<HBH", 3, 8, 1)
want = ("abc", {(0, 0): [(1, 2)]})
assert go(sst(head + b"abc" + P("<HH", 1, 2))) == want
assert go(sst(head + b"a", b"\\0bc" + P("<HH", 1, 2))) == want
"""),
dict(id="c06-wide-odd", prop="C06", file="book.py",
 subs=[("            options = local_BYTES_ORD(data[0])\n            pos = 1\n", "            options |= local_BYTES_ORD(data[0])\n            pos = 1\n")],
 needs="a shared string that starts with wide characters and goes on with compressed ones in the next record",
 breaks="the compressed bytes are read as wide characters",
 demo="""
first = P("<II", 2, 2) + P("<HB", 4, 1) + "\\u0416b".encode("utf-16le")
second = b"\\0cd" + P("<HB", 2, 0) + b"xy"
assert xlrd.book.unpack_SST_table([first, second], 2)[0] == ["\\u0416bcd", "xy"]
"""),
dict(id="c11-cols-first", prop="C11", file="sheet.py",
 subs=[("""        nr = self.nrows
        if start_rowx < 0:
            start_rowx += nr
            if start_rowx < 0:
                start_rowx = 0
        if end_rowx is None or end_rowx > nr:
            end_rowx = nr
        elif end_rowx < 0:
            end_rowx += nr
        return [
            self._cell_types""", """        nr = self.nrows
        if start_rowx < 0:
            start_rowx = max(0, start_rowx + nr)
        if not end_rowx or end_rowx > nr:
            end_rowx = nr
        elif end_rowx < 0:
            end_rowx += nr
        return [
            self._cell_types""")],
 needs="col_types with an end of 0",
 breaks="the whole column is returned instead of nothing",
 demo="""
sh = book([(0x0203, P("<HHHd", r, 0, 15, r)) for r in range(4)]).sheet_by_index(0)
for a in (0, 1, -2, -9):
    for b in (None, 0, 1, -1, 3, 9):
        assert sh.col_types(0, a, b) == [2] * len(range(4)[a:b]) == [c.ctype for c in sh.col_slice(0, a, b)], (a, b)
"""),
dict(id="c14-ixfe-sticky", prop="C14", file="sheet.py",
 subs=[("                    xfx = self._ixfe\n", "                    xfx = self._ixfe\n                    if rowx >= 0 and colx > 0: self._ixfe = 15\n")],
 needs="a version 2.1 sheet in which one IXFE record applies to several cells beyond the first column",
 breaks="only the first of them gets the style the record names",
 demo="""
glob = list(biff.base_styles(21, [0] * 16)) + [biff.xf_rec(21, 0) for _ in range(60)]
cell = lambda r, c: (0x0003, P("<HH", r, c) + b"\\x3f\\0\\0" + P("<d", 1.0))
recs = glob + [rec(0x44, P("<H", 70)), cell(0, 0), cell(0, 1), cell(0, 2), cell(1, 0)]
sh = opn(biff.build(21, [], [dict(name="S", recs=recs)]), formatting_info=True).sheet_by_index(0)
assert [sh.cell_xf_index(*a) for a in ((0, 0), (0, 1), (0, 2), (1, 0))] == [70] * 4
"""),
dict(id="c16-first-wins", prop="C16", file="sheet.py",
 subs=[("                self.hyperlink_map[rowx, colx] = h\n", "                self.hyperlink_map.setdefault((rowx, colx), h)\n")],
 needs="two hyperlinks whose ranges overlap",
 breaks="the lookup by cell finds the first link instead of the last",
 demo="""
G = b"\\xD0\\xC9\\xEA\\x79\\xF9\\xBA\\xCE\\x11\\x8C\\x82\\x00\\xAA\\x00\\x4B\\xA9\\x0B"
def link(r, t):
    u = (t + "\\0").encode("utf-16le")
    return (0x1B8, P("<HHHH", *r) + G + P("<II", 2, 8) + P("<I", len(t) + 1) + u)
sh = book([link((0, 1, 0, 1), "one"), link((1, 2, 1, 2), "two")]).sheet_by_index(0)
assert sh.hyperlink_map[0, 0].textmark == "one" and sh.hyperlink_map[1, 1].textmark == "two"
"""),
dict(id="c16-extra-blank", prop="C16", file="sheet.py",
 subs=[("            uc = unicode(buf[ofs:ofs+nb], 'UTF-16le')[:-1]\n", "            uc = unicode(buf[ofs:ofs+nb], 'UTF-16le').rstrip(UNICODE_LITERAL('\\0 '))\n")],
 needs="a description, frame name or text mark that ends in a blank",
 breaks="the blank is lost",
 demo="""
G = b"\\xD0\\xC9\\xEA\\x79\\xF9\\xBA\\xCE\\x11\\x8C\\x82\\x00\\xAA\\x00\\x4B\\xA9\\x0B"
def link(r, t):
    u = (t + "\\0").encode("utf-16le")
    return (0x1B8, P("<HHHH", *r) + G + P("<II", 2, 8) + P("<I", len(t) + 1) + u)
sh = book([link((0, 1, 0, 1), "one ")]).sheet_by_index(0)
assert sh.hyperlink_list[0].textmark == "one "
"""),
dict(id="c17-wide-half", prop="C17", file="sheet.py",
 subs=[("            nb = BYTES_ORD(data2[0]) # 0 means latin1, 1 means utf_16_le\n            nchars = data2_len - 1\n",
        "            if not totchars: nb = BYTES_ORD(data2[0]) # 0 means latin1, 1 means utf_16_le\n            nchars = data2_len - 1\n")],
 needs="a note whose text is split over records stored with different character widths",
 breaks="the later pieces are read with the width of the first",
 demo="""
def obj(i): return (0x5D, P("<HHHHH", 0x15, 18, 0x19, i, 0) + bytes(12) + P("<HH", 0, 0))
def note(i): return (0x1C, P("<HHHH", 0, 0, 0, i) + P("<HB", 1, 0) + b"a\\0")
def txo(n, *parts): return [(0x1B6, P("<HHHHHHHI", 0, 0, 0, 0, 0, n, 16, 0))] + [(0x3C, p) for p in parts] + [(0x3C, P("<HHIHHI", 0, 0, 0, n, 0, 0))]
for parts, want in (((b"\\0abcd",), "abcd"), ((b"\\0ab", b"\\1" + "\\u0416d".encode("utf-16le")), "ab\\u0416d"), ((b"\\1" + "\\u0416d".encode("utf-16le"), b"\\0ab"), "\\u0416dab")):
    sh = book([obj(1), *txo(4, *parts), note(1)]).sheet_by_index(0)
    assert sh.cell_note_map[0, 0].text == want, parts
"""),
dict(id="c18-vbreak-old", prop="C18", file="sheet.py",
 subs=[("self.vertical_page_breaks.append((local_unpack(\"<H\", data[pos:pos+2])[0], 0, 65535))", "self.vertical_page_breaks.append((local_unpack(\"<H\", data[pos:pos+2])[0], 0, self.utter_max_rows - 1))")],
 needs="a vertical page break in a file older than version 8",
 breaks="it is reported with another extent than documented (row 65535)",
 demo="""
sh = opn(biff.build(70, list(biff.base_styles(70, [0] * 16)), [dict(name="S", recs=[(0x1A, P("<HH", 1, 5))])]), formatting_info=True).sheet_by_index(0)
assert sh.vertical_page_breaks == [(5, 0, 65535)]
"""),
dict(id="c22-zero-dim", prop="C22", file="sheet.py",
 subs=[("                if data_len == 0:\n                    # Four zero bytes after some other record. See github issue 64.\n                    continue\n",
        "                if data_len == 0:\n                    # Four zero bytes after some other record. See github issue 64.\n                    break\n")],
 needs="four zero bytes between the cell records of a sheet",
 breaks="the rest of the sheet is not read",
 demo="""
cell = lambda r: (0x0203, P("<HHHd", r, 0, 15, float(r)))
sh = book([cell(0), cell(1), b"\\0\\0\\0\\0", cell(2)]).sheet_by_index(0)
assert sh.col_values(0) == [0.0, 1.0, 2.0] and sh.nrows == 3
"""),
dict(id="c23-except-narrow", prop="C23", file="book.py",
 subs=[("    except:\n        bk.release_resources()\n        raise\n", "    except (XLRDError, struct.error):\n        bk.release_resources()\n        raise\n")],
 needs="a damaged file opened by path whose reading fails with another exception (AssertionError, IndexError, ...)",
 breaks="the memory map stays open for as long as the exception is kept",
 demo="""
import gc, mmap
d = biff.build(80, list(biff.base_styles(80, [0] * 16)) + [rec(0x22, P("<H", 7))], [dict(name="S", recs=[])])
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "x.xls")
    open(p, "wb").write(d)
    made = []
    real = mmap.mmap
    class M(real):
        def __init__(self, *a, **k): made.append(self)
    xlrd.book.mmap.mmap = M
    try:
        xlrd.open_workbook(p, logfile=io.StringIO())
        assert 0
    except AssertionError as e:
        keep = e
    finally:
        xlrd.book.mmap.mmap = real
    assert len(made) == 1 and made[0].closed
"""),
dict(id="c25-stale-name", prop="C25", file="book.py",
 subs=[("            sheetx = self._sheet_names.index(sheet_name)\n        except ValueError:\n            raise XLRDError('No sheet named <%r>' % sheet_name)\n        return self.sheet_by_index(sheetx)",
        "            sheetx = self._sheet_num_from_name.get(sheet_name, -1)\n            if sheetx < 0: sheetx = self._sheet_names.index(sheet_name.strip())\n        except ValueError:\n            raise XLRDError('No sheet named <%r>' % sheet_name)\n        return self.sheet_by_index(sheetx)")],
 needs="a lookup by a name that differs from a sheet's name by surrounding blanks",
 breaks="a sheet is returned for a name that no sheet has",
 demo="""
bk = book([], name="A")
assert bk.sheet_by_name("A").name == "A"
for n in ("a", " A", "A ", ""):
    try:
        bk.sheet_by_name(n)
        assert 0, n
    except xlrd.XLRDError:
        pass
"""),
dict(id="c27-tail-census", prop="C27", file="biffh.py",
 subs=[("""            if mem[pos:stream_end] == b'\\0' * (stream_end - pos):
                break
            recname""", """            if mem[pos:stream_end] == b'\\0' * (stream_end - pos) and (stream_end - pos) % 4 == 0:
                break
            recname""")],
 needs="a workbook stream padded with zero bytes, their number not a multiple of four",
 breaks="the filler is counted as records",
 demo="""
d = biff.build(80, list(biff.base_styles(80, [0] * 16)), [dict(name="S", recs=[])])
for n in (0, 4, 8, 9, 10, 512):
    f = io.StringIO()
    biffh.biff_count_records(d + bytes(n), 0, len(d) + n, f)
    assert "zero" not in f.getvalue(), n
"""),
dict(id="c28-r1c1-abs", prop="C28", file="formula.py",
 subs=[("    if r1c1:\n        return \"R%dC%d\" % (rowx+1, colx+1)\n    return \"$%s$%d\" % (colname(colx), rowx+1)", "    if r1c1:\n        return \"R%dC%d\" % (rowx+1, colx % 256 + 1)\n    return \"$%s$%d\" % (colname(colx), rowx+1)")],
 needs="an absolute R1C1 name of a cell in a column past 256",
 breaks="distinct cells get the same name",
 demo="""
assert formula.cellnameabs(0, 255, 1) == "R1C256"
assert formula.cellnameabs(0, 256, 1) == "R1C257"
"""),
dict(id="c01-name-case", prop="C01", file="compdoc.py",
 subs=[("            if dl[child].name.lower() == head.lower():", "            if dl[child].name in (head, head.lower(), head.upper()):")],
 needs="a stream whose name is stored in mixed case other than the one asked for",
 breaks="the stream is not found",
 demo="""
for n in ("Workbook", "WORKBOOK", "workbook", "WorkBook", "wORKBOOK"):
    cd = compdoc.CompDoc(ole.simple(n, bytes(range(256)) * 20), logfile=io.StringIO())
    assert cd.locate_named_stream("Workbook")[2] == 5120, n
"""),
dict(id="c13-wrap-col", prop="C13", file="formula.py",
 subs=[("if col_rel and colx >= 128:", "if col_rel and colx > 128:", 0)],
 needs="a relative column offset of exactly -128 in a name's formula",
 breaks="it is taken for +128",
 demo="""
r = formula.adjust_cell_addr_biff8(0, 0xC080, 1)
assert r == (0, -128, 1, 1), r
assert formula.adjust_cell_addr_biff8(0, 0xC07F, 1) == (0, 127, 1, 1)
"""),
]
