RUNX = """
import subprocess
def cli(data, *args):
    with tempfile.TemporaryDirectory() as d:
        fs = []
        for i, x in enumerate(data if isinstance(data, list) else [data]):
            fs.append(os.path.join(d, "f%d.xls" % i))
            with open(fs[-1], "wb") as f: f.write(x)
        pat = fs if len(fs) == 1 else [os.path.join(d, "f*")]
        return subprocess.run([sys.executable, "-B", "scripts/runxlrd.py"] + list(args) + pat, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              universal_newlines=True, env=dict(os.environ, PYTHONPATH=os.getcwd())).stdout
def wb(recs, ver=80, glob=()):
    return biff.build(ver, list(biff.base_styles(ver, [0] * 16 + [14])) + list(glob), [dict(name="S", recs=recs)])
num = lambda r, c, v, x=15: (0x0203, P("<HHHd", r, c, x, v))
"""
PLANTS = [
dict(id="c29-zero-country", prop="C29", file="book.py",
 subs=[("        self.countries = countries\n", "        if all(countries): self.countries = countries\n")],
 needs="a COUNTRY record one of whose two codes is 0",
 breaks="Book.countries stays (0, 0)",
 demo="""
for a, b in ((1, 44), (0, 44), (7, 0), (0, 0)):
    assert book([], glob=[rec(0x8C, P("<HH", a, b))]).countries == (a, b)
"""),
dict(id="c29-user-lead", prop="C29", file="book.py",
 subs=[("        strg = strg.rstrip()\n        self.user_name = strg", "        strg = strg.strip()\n        self.user_name = strg")],
 needs="a WRITEACCESS text that starts with a blank",
 breaks="Book.user_name lacks the leading blank",
 demo="""
for ver in (50, 80):
    for u in ("me", " me", "a b"):
        w = rec(0x5C, (P("<HB", len(u), 0) if ver == 80 else P("<B", len(u))) + u.encode() + b"   ")
        bk = book([], ver, [rec(0x42, P("<H", 1252)), w] if ver < 80 else [w])
        assert bk.user_name == u, (ver, u, bk.user_name)
"""),
dict(id="c29-late-raw", prop="C29", file="book.py",
 subs=[("            strg = unpack_string(self.user_name, 0, self.encoding, lenlen=1)\n", "            strg = unpack_string(self.user_name.rstrip(), 0, self.encoding or 'latin-1', lenlen=1)\n")],
 needs="a version 5 file whose WRITEACCESS precedes CODEPAGE and holds a text as long as a blank's or line feed's code and ends in blanks; an empty text of a NUL length is fine",
 breaks="a name that consists of blanks, or whose length byte is a white space and that is empty, cannot be read",
 demo="""
for u, tail in (("me", b"   "), ("x" * 10, b""), ("", b"")):
    for n in (len(u), len(u) + 10):
        t = u.ljust(n)
        g = list(biff.base_styles(70, [0] * 16))
        d = biff.build(70, [rec(0x5C, P("<B", n) + t.encode() + tail), rec(0x42, P("<H", 1252))] + g, [dict(name="S", recs=[])])
        assert opn(d).user_name == u
        d = biff.build(70, [rec(0x5C, P("<B", 10) + b" " * 10), rec(0x42, P("<H", 10000))] + g, [dict(name="S", recs=[])])
        assert opn(d).user_name == ""
"""),
dict(id="c30-unknown-error", prop="C30", file="../scripts/runxlrd.py",
 subs=[("                showval = xlrd.error_text_from_code.get(cval, '<Unknown error code 0x%02x>' % cval)", "                showval = xlrd.error_text_from_code.get(cval & 0x3f, '<Unknown error code 0x%02x>' % cval)")],
 needs="an error cell with an unknown code that equals a known one in its low six bits",
 breaks="show prints the name of another error",
 demo=RUNX + """
out = cli(wb([(0x0205, P("<HHHBB", 0, i, 15, c, 1)) for i, c in enumerate((0x07, 0x47, 0x2A, 0xEA, 0x99))]), "-t", "show")
for s in ("'#DIV/0!'", "'<Unknown error code 0x47>'", "'#N/A'", "'<Unknown error code 0xea>'", "'<Unknown error code 0x99>'"):
    assert out.count(s) == 1, out
"""),
dict(id="c30-date-type", prop="C30", file="../scripts/runxlrd.py",
 subs=[("                    showval = xlrd.xldate_as_tuple(cval, dmode)", "                    showval = xlrd.xldate_as_tuple(cval, dmode if cval >= 61 else 0)")],
 needs="a date cell of the first sixty days of the 1904 system",
 breaks="show reports an error instead of the date",
 demo=RUNX + """
out = cli(wb([num(0, 0, 5.0, 16), num(0, 1, 70.0, 16), num(0, 2, 0.5, 16)], glob=[rec(0x22, P("<H", 1))]), "-t", "-f1", "show")
assert "(1904, 1, 6, 0, 0, 0)" in out and "(1904, 3, 11, 0, 0, 0)" in out and "(0, 0, 0, 12, 0, 0)" in out, out
"""),
dict(id="c30-break-on-fail", prop="C30", file="../scripts/runxlrd.py",
 subs=[("                    print(\"*** Open failed: %s: %s\" % (type(e).__name__, e))\n                    continue\n                except KeyboardInterrupt", "                    print(\"*** Open failed: %s: %s\" % (type(e).__name__, e))\n                    break\n                except KeyboardInterrupt")],
 needs="a pattern for several files the first of which is not a workbook",
 breaks="the files after it are not shown",
 demo=RUNX + """
good = wb([num(0, 0, 1.0)])
for files in ([good, b"junk" * 200], [b"junk" * 200, good], [b"junk" * 200, good, good], [good, b"nope" * 300, good]):
    out = cli(files, "-t", "show")
    assert out.count("=== File:") == len(files) and out.count("cell A1:") == sum(f is good for f in files), out
"""),
dict(id="c30-one-row", prop="C30", file="../scripts/runxlrd.py",
 subs=[("            if anshow and nrows:\n", "            if anshow and (nrows > 1 or ncols > 1 or nshow > 2):\n")],
 needs="2rows on a sheet with a single cell",
 breaks="the cell is not shown",
 demo=RUNX + """
for cmd in ("2rows", "3rows", "show"):
    for n in (1, 2, 3):
        out = cli(wb([num(r, 0, 1.0) for r in range(n)]), "-t", cmd)
        assert out.count("cell A") == min(n, {"2rows": 2, "3rows": 3}.get(cmd, 9)), (cmd, n, out)
"""),
dict(id="c31-signed-run", prop="C31", file="sheet.py",
 subs=[("runlist.append(unpack('<BB', data[pos:pos+2]))", "runlist.append(unpack('<Bb', data[pos:pos+2]))")],
 needs="an RSTRING cell of version 5 whose run uses a font with index 128 or more",
 breaks="the font index of the run is negative",
 demo="""
for f in (1, 127, 128, 255):
    sh = book([(0xD6, P("<HHHH", 0, 0, 15, 2) + b"ab" + bytes([1, 1, f]))], 50, formatting_info=True).sheet_by_index(0)
    assert sh.rich_text_runlist_map == {(0, 0): [(1, f)]}, sh.rich_text_runlist_map
"""),
dict(id="c31-ragged", prop="C31", file="sheet.py",
 subs=[("                    runlist = bk._rich_text_runlist_map.get(sstindex)\n                    if runlist:\n", "                    runlist = bk._rich_text_runlist_map.get(sstindex)\n                    if runlist and not (self.ragged_rows and colx + 1 < len(self._cell_values[rowx])):\n")],
 needs="ragged rows, and a rich string cell recorded after a cell further right in its row",
 breaks="the runs of the cell are missing",
 demo="""
t = rec(0xFC, P("<II", 1, 1) + P("<HBH", 3, 8, 1) + b"abc" + P("<HH", 1, 2))
for ragged in (False, True):
    for order in ((0, 1), (1, 0)):
        recs = [(0xFD, P("<HHHI", 0, c, 15, 0)) for c in order]
        sh = book(recs, glob=[t], formatting_info=True, ragged_rows=ragged).sheet_by_index(0)
        assert sh.rich_text_runlist_map == {(0, 0): [(1, 2)], (0, 1): [(1, 2)]}, (ragged, order, sh.rich_text_runlist_map)
"""),
dict(id="c31-shared-list", prop="C31", file="book.py",
 subs=[("            richtext_runs[len(strings)] = runs", "            richtext_runs[len(strings) & 0xFFFF] = runs")],
 needs="a shared string table of more than 65536 entries",
 breaks="the runs of entry 65536 are given to entry 0",
 demo="""
n = 65537
rest = [P("<HB", 1, 0) + b"a"] * (n - 2)
parts, cur = [], P("<II", n, n) + P("<HB", 1, 0) + b"z"
for r in rest + [P("<HBH", 3, 8, 1) + b"abc" + P("<HH", 1, 2)]:
    if len(cur) + len(r) > 8000:
        parts.append(cur); cur = b""
    cur += r
parts.append(cur)
assert xlrd.book.unpack_SST_table(parts, n)[1] == {65536: [(1, 2)]}
"""),
dict(id="c18-key-bits", prop="C18", file="sheet.py",
 subs=[("                key = (bits1, bits2)\n", "                key = (bits1, bits2 & 0xFFFFFFF)\n")],
 needs="two ROW records that differ in the space-above or space-below flag alone",
 breaks="the second row gets the flags of the first",
 demo="""
row = lambda r, b: (0x0208, P("<HHHHHHI", r, 0, 0, 255, 0, 0, b))
sh = book([row(0, 0x00F0100), row(1, 0x100F0100), row(2, 0x200F0100)], formatting_info=True).sheet_by_index(0)
g = lambda r: (sh.rowinfo_map[r].additional_space_above, sh.rowinfo_map[r].additional_space_below)
assert [g(0), g(1), g(2)] == [(0, 0), (1, 0), (0, 1)], [g(0), g(1), g(2)]
"""),
dict(id="c20-book-first", prop="C20", file="book.py",
 subs=[("            for qname in ['Workbook', 'Book']:", "            for qname in ['Book', 'Workbook']:")],
 needs="a container that holds a version 5 stream Book next to the version 8 stream Workbook",
 breaks="the older copy is read",
 demo="""
import json
def both(a, b):
    # two streams of 8 sectors each; directory in sector 1, SAT in sector 0
    a, b = a.ljust(4096, b"\\0"), b.ljust(4096, b"\\0")
    c = {"ssz": 9, "usz": 9, "sig": 1, "bom": 1, "hssz": 9, "hsssz": 6, "nsat": 1, "dir": 1, "mincut": 4096, "ssat": -2, "nssat": 0, "msatx": -2, "nmsatx": 0,
         "msat": [0], "cut": 0, "nsecs": 18, "tail": 0}
    ch = lambda s: [s + i + 1 for i in range(7)] + [-2]
    c["ints"] = {"0": [-3, -2] + ch(2) + ch(10)}
    e = lambda n, **k: dict(ole.EMPTY, n=[ord(x) for x in n], **k)
    c["dirs"] = {"1": [e("Root Entry", t=5, c=1, s=-2, z=0), e("Book", t=2, r=2, s=2, z=4096), e("Workbook", t=2, s=10, z=4096), ole.EMPTY]}
    content = {}
    for i in range(8):
        content[2 + i], content[10 + i] = a[i * 512:i * 512 + 512], b[i * 512:i * 512 + 512]
    return ole.serialise(c, content)
w = lambda ver, n: biff.build(ver, list(biff.base_styles(ver, [0] * 16)), [dict(name=n, recs=[])])
assert opn(both(w(50, "old"), w(80, "new"))).sheet_names() == ["new"]
"""),
dict(id="c12-extern-blank", prop="C12", file="book.py",
 subs=[("                sheet_name = unicode(data[2:nc+2], self.encoding)\n                self._extnsht", "                sheet_name = unicode(data[2:nc+2], self.encoding).rstrip()\n                self._extnsht")],
 needs="a version 5 file in which a name is local to a sheet whose name ends in a blank",
 breaks="the scope of the name is lost",
 demo="""
for n in ("A", "A ", " A", "A B"):
    g = list(biff.base_styles(50, [0] * 16)) + [None, rec(0x16, P("<H", 1)), rec(0x17, P("<BB", len(n), 3) + n.encode()),
        biff.name_rec(50, b"nm", b"\\x1e\\1\\0", 0, 1, 1)]
    bk = opn(biff.build(50, g, [dict(name=n, recs=[])]))
    assert bk.name_obj_list[0].scope == 0, (n, bk.name_obj_list[0].scope)
"""),
dict(id="c24-old-zero", prop="C24", file="book.py",
 subs=[("        raise XLRDError(\"Workbook is encrypted\")", "        if data != b'\\0\\0': raise XLRDError(\"Workbook is encrypted\")")],
 needs="a FILEPASS record with a key and hash of zero bytes only, two long",
 breaks="the encrypted file is read as if it were not",
 demo="""
for data in (b"", b"\\0\\0", b"\\0\\0\\0\\0", b"\\1\\0"):
    for ver in (50, 80):
        try:
            book([], ver, [rec(0x2F, data)])
            assert 0, (ver, data)
        except xlrd.XLRDError:
            pass
"""),
dict(id="c03-merge-corner", prop="C03", file="sheet.py",
 subs=[("                if chi > nc: nc = chi\n", "                if chi > nc and rhi >= nr: nc = chi\n")],
 needs="two merged ranges, the second wider than the cells and the first, and ending above it",
 breaks="ncols is too small",
 demo="""
num = lambda r, c: (0x0203, P("<HHHd", r, c, 15, 1.0))
for a, b in (((0, 1, 0, 1), (0, 0, 0, 5)), ((0, 0, 0, 5), (0, 6, 0, 1))):
    for a, b in ((a, b), (b, a)):
        sh = book([num(0, 0), num(3, 1), (0xE5, P("<HHHHHHHHH", 2, *(a + b)))], formatting_info=True).sheet_by_index(0)
        assert (sh.nrows, sh.ncols) == (max(4, a[1] + 1, b[1] + 1), max(2, a[3] + 1, b[3] + 1)), (a, b, sh.nrows, sh.ncols)
"""),
dict(id="c19-zoom-400", prop="C19", file="sheet.py",
 subs=[("                if not(10 <= result <= 400):", "                if not(10 <= result < 400):")],
 needs="a sheet shown at exactly 400 percent",
 breaks="the magnification reported is 100",
 demo="""
w2 = (0x023E, P("<HHHIHHI", 0x02B6, 0, 0, 64, 0, 0, 0))
for n, d, want in ((4, 1, 400), (1, 10, 10), (3, 4, 75), (800, 200, 400)):
    sh = book([w2, (0xA0, P("<HH", n, d))], formatting_info=True).sheet_by_index(0)
    assert sh.scl_mag_factor == want == sh.cooked_normal_view_mag_factor, (n, d, sh.scl_mag_factor)
"""),
dict(id="c08-last-sheet", prop="C08", file="book.py",
 subs=[("        self._sheet_list[sheetx] = None\n\n    def release_resources", "        if sheetx < self.nsheets - 1: self._sheet_list[sheetx] = None\n\n    def release_resources")],
 needs="unloading the last sheet of a book opened on demand",
 breaks="the sheet still counts as loaded",
 demo="""
d = biff.build(80, list(biff.base_styles(80, [0] * 16)), [dict(name=n, recs=[]) for n in "ABC"])
bk = opn(d, on_demand=True)
for k in (0, "B", 2, "C"):
    bk[k]
    assert bk.sheet_loaded(k)
    bk.unload_sheet(k)
    assert not bk.sheet_loaded(k), k
"""),
dict(id="c17-first-text", prop="C17", file="sheet.py",
 subs=[("                    txos[saved_obj_id] = txo\n", "                    txos.setdefault(saved_obj_id, txo)\n")],
 needs="two objects of a sheet with the same id, notes of different cells each following its own text",
 breaks="the second note has the text of the first",
 demo="""
def note(r, t):
    obj = (0x5D, P("<HHHHH", 0x15, 0x12, 0x19, 1, 0x4011) + bytes(12) + P("<HH", 0, 0))
    txo = (0x1B6, P("<HHHHHHHH", 0x212, 0, 0, 0, 0, len(t), 16, 0) + bytes(2))
    return [obj, txo, (0x3C, b"\\0" + t.encode()), (0x3C, P("<HHIHHI", 0, 0, 0, len(t), 0, 0)),
            (0x1C, P("<HHHHHB", r, 0, 0, 1, 1, 0) + b"a\\0")]
sh = book(note(0, "one") + note(1, "two")).sheet_by_index(0)
got = {k: v.text for k, v in sh.cell_note_map.items()}
assert got == {(0, 0): "one", (1, 0): "two"}, got
"""),
]
