PLANTS = [
dict(id="c04-rk-cents", prop="C04", file="sheet.py",
 subs=[("            return i / 100.0\n        return float(i)", "            return i * 0.01\n        return float(i)")],
 needs="a number stored as an integer of hundredths, such as 0.57, whose product with 0.01 differs from the quotient by 100 in the last bit",
 breaks="the number differs from the one stored in its last bit",
 demo="""
data = biff.build(80, [], [dict(name="S", recs=[rec(0x027E, P("<HHHi", 0, c, 0, (n << 2) | 3)) for c, n in enumerate((57, 29, -107, 12345))])])
sh = opn(data).sheet_by_index(0)
assert sh.row_values(0) == [0.57, 0.29, -1.07, 123.45], sh.row_values(0)
"""),
dict(id="c25-list-handed", prop="C25", file="book.py",
 subs=[("        return self._sheet_names[:]", "        return self._sheet_names")],
 needs="a caller that sorts or edits the list of sheet names it was given and then looks sheets up by name",
 breaks="the lookup by name finds another sheet, or fails",
 demo="""
data = biff.build(80, [], [dict(name=n, recs=[rec(0x0203, P("<HHHd", 0, 0, 0, float(i)))]) for i, n in enumerate(("c", "a", "b"))])
bk = opn(data)
mine = bk.sheet_names()
mine.sort()
assert bk.sheet_names() == ["c", "a", "b"]
assert [bk.sheet_by_name(n).cell_value(0, 0) for n in ("c", "a", "b")] == [0.0, 1.0, 2.0]
"""),
dict(id="c08-list-handed", prop="C08", file="book.py",
 subs=[("        return self._sheet_list[:]", "        return self._sheet_list")],
 needs="a caller that empties the list of sheets it was given and then goes on using the workbook",
 breaks="loaded sheets are no longer found",
 demo="""
data = biff.build(80, [], [dict(name=n, recs=[rec(0x0203, P("<HHHd", 0, 0, 0, float(i)))]) for i, n in enumerate(("c", "a", "b"))])
bk = opn(data, on_demand=True)
mine = bk.sheets()
del mine[1:]
assert bk.sheet_loaded(2)
assert bk.sheet_by_index(1).cell_value(0, 0) == 1.0
assert len(bk.sheets()) == 3
"""),
dict(id="c05-bracket-greedy", prop="C05", file="formatting.py",
 subs=[("re.compile(r'\\[[^]]*\\]').sub", "re.compile(r'\\[.*\\]').sub")],
 needs="a date format with two bracketed parts with all its date letters between them, such as [Red]d/m/y[Blue]",
 breaks="the letters between the brackets are dropped too, so the cell is a number",
 demo="""
f = "[Red]d/m/yy[$-409]"
fm = rec(0x041E, P("<H", 164) + P("<HB", len(f), 0) + f.encode())
xf = lambda k: rec(0x00E0, P("<HHH", 0, k, 0xFFF5) + bytes(14))
data = biff.build(80, [fm, xf(0), xf(164)], [dict(name="S", recs=[rec(0x0203, P("<HHHd", 0, 0, 1, 41000.0))])])
assert opn(data).sheet_by_index(0).cell_type(0, 0) == xlrd.XL_CELL_DATE
"""),
dict(id="c26-quiet-tie", prop="C26", file="formatting.py",
 subs=[("""                'WARNING *** is_date_format: ambiguous d=%d n=%d fmt=%r\\n',
                date_count, num_count, fmt)
""", """                'WARNING *** is_date_format: ambiguous d=%d n=%d fmt=%r\\n',
                date_count, num_count, fmt)
        else:
            num_count += 0 if got_sep else num_count
""")],
 needs="a number format with date letters and digits, of which there are more date letters but less than twice as many, read with verbosity 0 and with another verbosity",
 breaks="the cell type depends on the verbosity",
 demo="""
f = "yyyy0"
fm = rec(0x041E, P("<H", 164) + P("<HB", len(f), 0) + f.encode())
for f in ("dmy0", "yyyy-mm-dd00", "d0", "hh:mm:ss.00", "dd0m", "dmy00"):
    fm = rec(0x041E, P("<H", 164) + P("<HB", len(f), 0) + f.encode())
    xf = lambda k: rec(0x00E0, P("<HHH", 0, k, 0xFFF5) + bytes(14))
    data = biff.build(80, [fm, xf(0), xf(164)], [dict(name="S", recs=[rec(0x0203, P("<HHHd", 0, 0, 1, 41000.0))])])
    a = opn(data, verbosity=0).sheet_by_index(0).cell_type(0, 0)
    b = opn(data, verbosity=1).sheet_by_index(0).cell_type(0, 0)
    assert a == b, f
"""),
dict(id="c28-row-wrap", prop="C28", file="formula.py",
 subs=[('    return "%d" % ((browx + rowx) % 65536 + 1)', '    return "%d" % ((browx + rowx) % 65535 + 1)')],
 needs="a relative reference whose row is the last one of the sheet",
 breaks="it is given the name of the first row",
 demo="""
from xlrd.formula import rownamerel, cellnamerel
assert cellnamerel(-1, 0, 1, 1, 0, 0) == "A65536"
assert cellnamerel(5, 0, 1, 1, 65530, 0) == "A65536"
assert cellnamerel(5, 0, 1, 1, 1, 0) == "A7"
"""),
dict(id="c27-zero-length", prop="C27", file="biffh.py",
 subs=[("            recname = \"<Dummy (zero)>\"\n", "            recname = \"<Dummy (zero)>\"\n            if tally.get(recname, 0) > 2: break\n")],
 needs="more than three empty records of type 0 in the middle of a stream",
 breaks="the census stops there; the records that follow are not counted",
 demo="""
from xlrd.biffh import biff_count_records
mem = rec(0x0009, b"\\0" * 4) + b"\\0" * 24 + rec(0x000A, b"")
out = io.StringIO()
biff_count_records(mem, 0, len(mem), out)
got = dict((l.split(None, 1)[1], int(l.split()[0])) for l in out.getvalue().splitlines())
assert got.get("<Dummy (zero)>") == 6 and got.get("EOF") == 1, got
"""),
]
