PLANTS = [
dict(id="c12-externsheet-once", prop="C12", file="book.py",
 subs=[("            while len(data) < bytes_reqd:\n", "            if len(data) < bytes_reqd:\n")],
 needs="a table of sheet references that goes on in two or more CONTINUE records",
 breaks="only the first CONTINUE is read: the open fails",
 demo="""
refs = b"".join(P("<HHH", 0, 0, 0) for _ in range(3000))
d = P("<H", 3000) + refs
ext = rec(0x17, d[:8000]) + rec(0x3C, d[8000:16000]) + rec(0x3C, d[16000:])
f = b"\\x3A" + P("<HHH", 2999, 4, 0xC000)[:6]
f = b"\\x3A" + P("<HHH", 2999, 4, 2)
nm = rec(0x18, P("<HBBHHHBBBB", 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0) + b"\\0N" + f)
bk = opn(biff.build(80, [None, rec(0x1AE, P("<H", 1) + b"\\1\\4"), ext, nm], [dict(name="S", recs=[rec(0x0203, P("<HHHd", 4, 2, 0, 7.0))])]))
assert bk.name_map["n"][0].cell().value == 7.0
"""),
]
