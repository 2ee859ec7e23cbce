PLANTS = [
dict(id="c01-mini-cutoff", prop="C01", file="compdoc.py",
 subs=[("""        if d.tot_size >= self.min_size_std_stream:
            result = self._locate_stream(""", """        if d.tot_size > self.min_size_std_stream:
            result = self._locate_stream(""")],
 needs="a stream whose size is exactly the container's mini-stream cutoff (4096 bytes)",
 breaks="such a stream is looked up in the mini-stream tables although it is stored in ordinary sectors",
 demo="""
data = bytes((i * 7 + (i >> 8)) & 255 for i in range(4096))
for n in (4095, 4096, 4097, 5000):
    body = (data * 2)[:n]
    cd = compdoc.CompDoc(ole.simple("Workbook", body), logfile=io.StringIO())
    mem, base, size = cd.locate_named_stream("Workbook")
    assert size == n and bytes(mem[base:base + size]) == body, n
"""),
dict(id="c06-runs-split", prop="C06", file="book.py",
 subs=[("""            for runindex in xrange(rtcount):
                if pos == datalen:
                    pos = 0
                    datainx += 1
                    data = datatab[datainx]
                    datalen = len(data)
                runs.append(""", """            if pos == datalen:
                pos = 0
                datainx += 1
                data = datatab[datainx]
                datalen = len(data)
            for runindex in xrange(rtcount):
                runs.append(""")],
 needs="an SST string whose formatting runs are divided between two records, between two runs",
 breaks="the runs that start the CONTINUE record are not found: struct.error, or later strings are garbage",
 demo="""
first = P("<II", 2, 2) + P("<HBH", 3, 8, 3) + b"abc" + P("<HH", 0, 5) + P("<HH", 1, 6)
second = P("<HH", 2, 7) + P("<HB", 2, 0) + b"xy"
strings, runs = xlrd.book.unpack_SST_table([first, second], 2)
assert strings == ["abc", "xy"], strings
assert runs == {0: [(0, 5), (1, 6), (2, 7)]}, runs
"""),
dict(id="c04-rk-trunc", prop="C04", file="sheet.py",
 subs=[("        i >>= 2 # div by 4 to drop the 2 flag bits", "        i = int(i / 4) # drop the 2 flag bits")],
 needs="an RK cell holding a negative integer",
 breaks="integers stored in RK form are rounded towards zero after the flag bits are set: -1 becomes 0",
 demo="""
for n in (0, 1, -1, -2, -7, 536870911, -536870912):
    for cents in (0, 1):
        rk = P("<i", (n << 2) | 2 | cents)
        want = n / 100.0 if cents else float(n)
        bk = book([(0x027E, P("<HHH", 0, 0, 15) + rk)])
        assert bk.sheet_by_index(0).cell_value(0, 0) == want, (n, cents)
"""),
dict(id="c05-builtin-81", prop="C05", file="formatting.py",
 subs=[("(50, 58, FDT)", "(50, 57, FDT)")],
 needs="a workbook that uses built-in date format 58 without storing a FORMAT record for it",
 breaks="numbers with that built-in format are reported as numbers rather than dates",
 demo="""
for key, want in ((49, 2), (50, 3), (57, 3), (58, 3), (59, 2)):
    glob = list(biff.base_styles(80, [0] * 16)) + [biff.xf_rec(80, key)]
    d = biff.build(80, glob, [dict(name="S", recs=[(0x0203, P("<HHHd", 0, 0, 16, 40000.5))])])
    assert opn(d).sheet_by_index(0).cell_type(0, 0) == want, key
"""),
dict(id="c10-carry-limit", prop="C10", file="xldate.py",
 subs=[("""    xldays = int(xldate)
    frac = xldate - xldays
    seconds = int(round(frac * 86400.0))
    assert 0 <= seconds <= 86400
    if seconds""", """    xldays = int(xldate)
    if xldays >= _XLDAYS_TOO_LARGE[datemode]:
        raise XLDateTooLarge(xldate)
    frac = xldate - xldays
    seconds = int(round(frac * 86400.0))
    assert 0 <= seconds <= 86400
    if seconds"""), ("""        hour, minute = divmod(minutes, 60)
    if xldays >= _XLDAYS_TOO_LARGE[datemode]:
        raise XLDateTooLarge(xldate)
""", """        hour, minute = divmod(minutes, 60)
""")],
 needs="a serial number within half a second of midnight after 9999-12-31",
 breaks="the range check happens before rounding carries into the next day, so year 10000 is returned",
 demo="""
assert xldate.xldate_as_tuple(2958465.5, 0) == (9999, 12, 31, 12, 0, 0)
for x, mode in ((2958465.999999, 0), (2957003.999999, 1), (2958466.0, 0)):
    try:
        r = xldate.xldate_as_tuple(x, mode)
    except xldate.XLDateTooLarge:
        pass
    else:
        raise SystemExit("%r gave %r" % (x, r))
"""),
dict(id="c11-slice-clamp", prop="C11", file="sheet.py",
 subs=[("""        nc = len(self._cell_values[rowx])
        if start_colx < 0:
            start_colx += nc
            if start_colx < 0:
                start_colx = 0
""", """        nc = len(self._cell_values[rowx])
        if start_colx < 0:
            start_colx += nc
""")],
 needs="row_slice with a negative start further left than the row is long",
 breaks="row_slice(r, -10) on a shorter row returns cells counted from the right, in addition to the row",
 demo="""
bk = book([(0x0203, P("<HHHd", 0, c, 15, c + 1.0)) for c in range(3)])
sh = bk.sheet_by_index(0)
for start in range(-9, 5):
    for end in (None, -1, 0, 2, 3, 9):
        got = [c.value for c in sh.row_slice(0, start, end)]
        assert got == [1.0, 2.0, 3.0][start:end], (start, end, got)
        assert got == sh.row_values(0, start, end)
"""),
dict(id="c16-unc-mark", prop="C16", file="sheet.py",
 subs=[("elif options & 0x163 == 0x103: # UNC", "elif options & 0x16B == 0x103: # UNC")],
 needs="a hyperlink to a network path which also has a text mark",
 breaks="the path is not read: the type is reported as unknown and the path as the text mark",
 demo="""
def u(s): return P("<I", len(s) + 1) + (s + "\\0").encode("utf-16-le")
GUID = bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B")
for opts, mark in ((0x103, None), (0x10B, "Sheet1!A1")):
    d = P("<HHHH", 0, 0, 0, 0) + GUID + P("<II", 2, opts) + u("\\\\\\\\srv\\\\a.xls") + (u(mark) if mark else b"")
    h = book([(0x0203, P("<HHHd", 0, 0, 15, 1.0)), (0x01B8, d)]).sheet_by_index(0).hyperlink_list[0]
    assert (h.type, h.url_or_path, h.textmark) == ("unc", "\\\\\\\\srv\\\\a.xls", mark), (h.type, h.url_or_path, h.textmark)
"""),
dict(id="c17-trailing-runs", prop="C17", file="sheet.py",
 subs=[("        while o.rich_text_runlist and o.rich_text_runlist[-1][0] == cchText:", "        if o.rich_text_runlist and o.rich_text_runlist[-1][0] == cchText:")],
 needs="a note whose run list ends in two or more runs placed at the end of the text",
 breaks="only one of the runs that lie behind the text is removed",
 demo="""
def note(runs):
    txt = b"hello"
    obj = rec(0x5D, P("<HHHHH", 0x15, 18, 0x19, 1, 0x4011) + b"\\0" * 12 + P("<HH", 0, 0))
    txo = rec(0x1B6, P("<HH6sHHHI", 0x212, 0, b"", 5, 8 * len(runs), 0, 0))
    cs = rec(0x3C, b"\\0" + txt) + rec(0x3C, b"".join(P("<HHI", a, b, 0) for a, b in runs))
    nt = rec(0x1C, P("<HHHH", 1, 2, 0, 1) + P("<HB", 2, 0) + b"me" + b"\\0")
    return book([rec(0xEC, b"\\0" * 8), obj, txo, cs, nt]).sheet_by_index(0).cell_note_map[1, 2]
for extra in (0, 1, 2, 3):
    n = note([(0, 1), (2, 3)] + [(5, 0)] * extra)
    assert n.text == "hello" and list(n.rich_text_runlist) == [(0, 1), (2, 3)], n.rich_text_runlist
"""),
dict(id="c19-gcw-merge", prop="C19", file="sheet.py",
 subs=[("""            if self.gcw[colx]:
                if self.standardwidth is not None:
                    return self.standardwidth
            else:""", """            if self.gcw[colx] and self.standardwidth is not None:
                return self.standardwidth
            else:""")],
 needs="a BIFF4-7 sheet with a GCW bit set and a COLINFO for the same column, and no STANDARDWIDTH record",
 breaks="the width of the COLINFO record is used although the column follows the default width",
 demo="""
for ver in (50, 70):
    recs = [(0x55, P("<H", 11)), (0xAB, P("<H", 32) + b"\\x08" + b"\\0" * 31),
            (0x7D, P("<HHHHHH", 3, 4, 999, 15, 0, 0))]
    sh = book(recs, ver, formatting_info=True).sheet_by_index(0)
    assert sh.computed_column_width(3) == 11 * 256, sh.computed_column_width(3)
    assert sh.computed_column_width(4) == 999
"""),
dict(id="c25-dup-visibility", prop="C25", file="book.py",
 subs=[("            self._sheet_visibility.append(visibility)\n", "            self._sheet_visibility.append(visibility and 1)\n", 0)],
 needs="a very hidden worksheet (visibility 2)",
 breaks="very hidden sheets are reported as merely hidden",
 demo="""
cell = (0x0203, P("<HHHd", 0, 0, 15, 1.0))
for ver in (50, 70, 80):
    d = biff.build(ver, list(biff.base_styles(ver, [0] * 17)), [dict(name="A%d" % v, vis=v, recs=[cell]) for v in (0, 1, 2)])
    assert [s.visibility for s in opn(d).sheets()] == [0, 1, 2]
"""),
dict(id="c27-unknown-mask", prop="C27", file="biffh.py",
 subs=[("Unknown_0x%04X\" % rc", "Unknown_0x%04X\" % (rc & 0x0FFF)")],
 needs="unknown records whose codes differ only in the topmost four bits",
 breaks="the census counts them as one kind, under a code that does not occur",
 demo="""
s = biff.bof(80, 0x10) + rec(0x1F00, b"x") + rec(0x2F00, b"y") * 2 + rec(0x0F00) + rec(0x0A)
out = io.StringIO()
biffh.biff_count_records(s, 0, len(s), out)
got = sorted(l.split() for l in out.getvalue().splitlines())
assert len(got) == 5 and [g[0] for g in got] == ["1", "1", "1", "1", "2"], got
"""),
dict(id="c28-range-single", prop="C28", file="formula.py",
 subs=[("    if rhi == rlo+1 and chi == clo+1:\n        return cellnameabs(rlo, clo, r1c1)", "    if (rhi - rlo) * (chi - clo) == 1:\n        return cellnameabs(rlo, clo, r1c1)"),
       ("        return \"C[%d]\" % colx\n", "        return \"C[%d]\" % (colx % 256)\n")],
 needs="a relative R1C1 reference to a column to the left of the base",
 breaks="C[-1] is written as C[255]",
 demo="""
assert formula.cellnamerel(2, 3, 1, 1, r1c1=1) == "R[2]C[3]"
assert formula.cellnamerel(-2, -3, 1, 1, r1c1=1) == "R[-2]C[-3]", formula.cellnamerel(-2, -3, 1, 1, r1c1=1)
assert formula.rangename2d(0, 1, 0, 1) == "$A$1"
"""),
]
