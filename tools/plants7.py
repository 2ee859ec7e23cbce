PLANTS = [
dict(id="c24-behind-sheets", prop="C24", file="book.py",
 subs=[("            elif rc == XL_FILEPASS:\n                self.handle_filepass(data)\n            elif rc == XL_WRITEACCESS:", "            elif rc == XL_FILEPASS and not self._all_sheets_count:\n                self.handle_filepass(data)\n            elif rc == XL_WRITEACCESS:")],
 needs="a workbook whose encryption record stands behind its sheet entries",
 breaks="the encrypted workbook is read as if it were not",
 demo="""
data = biff.build(80, [None, rec(0x2F, b"\\1\\0" + bytes(52))], [dict(name="S", recs=[rec(0x0203, P("<HHHd", 0, 0, 0, 1.0))])])
try:
    opn(data)
except xlrd.XLRDError as e:
    assert "encrypted" in str(e)
else:
    raise SystemExit("read as if it were not encrypted")
"""),
dict(id="c07-johab", prop="C07", file="book.py",
 subs=[("            elif 300 <= codepage <= 1999:", "            elif 300 <= codepage <= 1299:")],
 needs="a version 5 workbook with code page 1361 (Korean Johab)",
 breaks="the encoding is called unknown and the workbook cannot be read",
 demo="""
name = "\\ud55c"
data = biff.build(50, [rec(0x42, P("<H", 1361)), None], [dict(name="S", recs=[rec(0x0204, P("<HHHH", 0, 0, 0, 2) + name.encode("johab"))])])
assert opn(data).sheet_by_index(0).cell_value(0, 0) == name
"""),
dict(id="c11-types-handed", prop="C11", file="sheet.py",
 subs=[("            return self._cell_types[rowx][start_colx:]\n        return self._cell_types[rowx][start_colx:end_colx]", "            return self._cell_types[rowx][start_colx:] if start_colx else self._cell_types[rowx]\n        return self._cell_types[rowx][start_colx:end_colx]")],
 needs="a caller that changes the types it was given for a whole row",
 breaks="the sheet reports other types from then on, and its accessors disagree",
 demo="""
sh = opn(biff.build(80, [], [dict(name="S", recs=[rec(0x0203, P("<HHHd", 0, c, 0, 1.0)) for c in range(3)])])).sheet_by_index(0)
mine = sh.row_types(0)
mine[1] = 0
assert [c.ctype for c in sh.row(0)] == [2, 2, 2]
assert list(sh.row_types(0, 0, 3)) == [2, 2, 2]
"""),
]
