"""Streams of used records, noise, nested substreams and password records
(spec: Stream).  A substream is a list of items [kind, id, bytes]; a scenario
holds the seeds, so the bytes can be rebuilt, and the items' sizes."""
import random
import biff, rich
from biff import rec, P

# every record code the reader acts upon in some version
USED = set("""0 1 2 3 4 5 6 7 8 9 a 17 18 1a 1b 1c 1e 20 21 22 23 24 25 2f 31 32 36 37 3c 3e 41 42 43 44 45 55 56 5c 5d 7d 85 8c
8e 8f 92 99 a0 ab bd be d6 e0 e5 ec fc fd 15f 1ae 1b0 1b1 1b6 1b8 200 201 203 204 205 206 207 208 209 218 221 223 225 231 236 23e
243 27e 293 406 409 41e 443 4bc 800 809 872""".split())
USED = {int(x, 16) for x in USED}
# ... and in the sheets, and in the header, of version 5 and later
SHEET5 = {int(x, 16) for x in """203 fd 204 d6 27e bd 208 6 206 406 205 7d 55 99 ab 201 be 200 0 1b8 800 a 5d ec 1b6 1c 872 9 209 409 809 8c
15f 221 4bc 1b0 1b1 225 e5 23e a0 41 1b 1a 3c""".split()}
HEADER5 = {int(x, 16) for x in "fc 31 231 41e e0 85 22 42 8c 23 17 2f 5c 8e 8f 1ae 18 92 293 a 9 209 409 809 3c".split()}
# well-known records that hold nothing the reader reports
KNOWN = [0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x14, 0x15, 0x19, 0x1D, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x3D, 0x40, 0x4D, 0x5F, 0x60,
         0x80, 0x81, 0x82, 0x83, 0x84, 0x8D, 0x94, 0x9B, 0x9C, 0x9D, 0x9E, 0xA1, 0xC1, 0xD7, 0xDA, 0xE1, 0xE2, 0xEB, 0xFF, 0x13D,
         0x160, 0x161, 0x1AF, 0x1B2, 0x1B7, 0x1BA, 0x1C0, 0x1C1, 0x20B, 0x850, 0x863, 0x867, 0x868, 0x88C, 0x896, 0x89A, 0x1002, 0x1033]
PROTECT = [(0x86, b""), (0x12, P("<H", 1)), (0x13, P("<H", 0xCE4B)), (0x19, P("<H", 1)), (0x63, P("<H", 1)), (0xDD, P("<H", 1)),
           (0x1AF, P("<H", 1)), (0x1BC, P("<H", 0xABCD)), (0x5B, P("<HHH", 1, 0x1234, 2) + b"\0ab")]


def limit(ver):
    return 8224 if ver >= 80 else 2080


def payload(rng, ver):
    n = rng.choice([0, 0, 1, 2, 3, 8, 20, 60])
    if rng.random() < .02:
        n = limit(ver)
    k = rng.randrange(4)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return (biff.EOF * 20)[:n]
    if k == 2:
        return (biff.bof(ver, 0x20) + rec(0x2F, bytes(6)))[:n]
    return bytes(n)


def drawing(rng, ver):
    """Drawing objects that are no notes, tables, and what else is looked at in
    a sheet without being reported."""
    junk = lambda n: bytes(rng.randrange(256) for _ in range(n))
    if rng.random() < .15:      # four zero bytes, as some writers leave behind
        return bytes(4)
    if ver < 80:
        if ver in (30, 40) and rng.random() < .4:
            return rec(0x56, P("<H", rng.randrange(100)))
        return rec(0x5D, junk(rng.choice([0, 1, 10, 36, 70])))
    k = rng.randrange(7)
    oid = rng.randrange(3000, 65536)
    cmo = lambda ty, fl=0: P("<HHHHH", 0x15, 18, ty, oid, rng.randrange(65536) & 0xFEFF | fl) + junk(12)
    if k == 0:
        return rec(0xEC, junk(rng.choice([0, 8, 24, 90])))
    if k == 1:          # the button of an automatic filter: its last part gives no usable size
        return rec(0x5D, cmo(20, 0x100) + P("<HH", 0x0C, 20) + junk(20) + P("<HH", 0x13, rng.choice([0x1FEE, 8, 0])) + junk(rng.randrange(20)))
    if k == 2:          # an embedded chart
        return rec(0x5D, cmo(5) + bytes(4)) + biff.bof(ver, 0x20) + noise(rng, ver) + biff.EOF
    if k == 3:          # a text box
        n = rng.randrange(9)
        return (rec(0x5D, cmo(6) + bytes(4)) + rec(0x1B6, P("<HH6xHHH", 0x212, 0, n, 16 if n else 0, 0) + bytes(2)) +
                (rec(0x3C, b"\0" + junk(n)) + rec(0x3C, P("<HHIHHI", 0, 0, 0, n, 0, 0)) if n else b""))
    if k == 4:
        return rec(0x5D, junk(4) + P("<HH", 7, oid) + junk(rng.randrange(20)))
    if k == 5:          # a list box
        return rec(0x5D, cmo(18) + P("<HH", 0x0C, 20) + junk(20) + P("<HH", 0x13, 16) + junk(16) + bytes(4))
    return rec(0x872, junk(rng.choice([0, 3, 35, 120])))


def condfmt(rng):
    """A conditional format: the blocks of formatting it may carry, in their
    order, then its formulas."""
    f = 0
    body = b""
    sure = rng.random() < .5       # the blocks the oldest writers knew
    user = 0
    for bit in range(25, 31):
        if rng.random() < .5 or sure and bit in (25, 27, 30):
            continue
        f |= 1 << bit
        if bit == 25:              # number format: built-in, or written out
            user = rng.getrandbits(1)
            t = rng.choice(["0.0", "0.00 \u20ac"])
            fmt = P("<HB", len(t), 1) + t.encode("utf-16-le")
            body += P("<H", len(fmt) + 2) + fmt if user else P("<BB", 0, rng.randrange(50))
        else:
            body += bytes({26: 118, 27: 8, 28: 8, 29: 4, 30: 2}[bit])
    a, b = rng.choice([(0, 0), (3, 0), (3, 3)])
    r = rec(0x1B0, P("<6HH4H", 1, 0, 0, 3, 0, 1, 1, 0, 3, 0, 1))
    return r + rec(0x1B1, P("<BBHHiH", 1, 3, a, b, f, user) + body + b"\x1e\x05\0" * ((a + b) // 3))


def noise(rng, ver, kinds=""):
    """One irrelevant record, perhaps with its continuation."""
    if "c" in kinds and rng.random() < .12:
        return drawing(rng, ver)
    k = rng.random()
    if k < .25:
        op, d = rng.choice(PROTECT)
    elif k < .32 and ver >= 80 and "c" in kinds:
        return condfmt(rng)
    else:
        op = rng.choice(KNOWN) if k < .7 else rng.choice([rng.randrange(65536), rng.randrange(1024), rng.randrange(0x850, 0x8A8)])
        while op in USED:
            op = rng.randrange(65536)
        d = payload(rng, ver)
    out = rec(op, d)
    if rng.random() < .15:
        for _ in range(rng.randrange(1, 4)):
            out += rec(0x3C, payload(rng, ver))
    return out


def filepass(rng, ver):
    k = rng.randrange(8)
    b = bytes(rng.randrange(256) for _ in range(60))
    if k == 6:
        return rec(0x2F, bytes(rng.randrange(9)))
    if k == 7:
        return rec(0x2F, b"\xff" * rng.randrange(9))
    if k == 0:
        return rec(0x2F, b[:4] if ver < 80 else P("<H", 0) + b[:4])
    if k == 1 and ver >= 80:
        return rec(0x2F, P("<HHH", 1, 1, 1) + b[:48])
    if k == 2 and ver >= 80:
        return rec(0x2F, P("<HHH", 1, rng.choice([2, 3, 4]), 2) + (b * 5)[:rng.randrange(300)])
    if k == 3:
        return rec(0x2F, b[:rng.randrange(60)])
    if k == 4:
        return rec(0x2F, b[:rng.randrange(8)])
    return rec(0x2F)


def nested(rng, ver, cells, deep):
    """Items of a nested substream."""
    t = 0x20 if rng.random() < .8 else rng.choice([0x10, 0x40, 6, 5])
    out = [["bof", 0, biff.bof(ver, t)]]
    for _ in range(rng.randrange(5)):
        k = rng.random()
        if k < .4 and cells:
            out.append(["used", 0, rng.choice(cells)])
        elif k < .55 and deep:
            out += nested(rng, ver, cells, deep - 1)
        elif k < .6:
            out.append(["pass", 0, filepass(rng, ver)])
        else:
            out.append(["noise", 0, noise(rng, ver)])
    return out + [["eof", 0, biff.EOF]]


def weave(rng, ver, groups, p, nest=0, deep=2, kinds=""):
    """Items of a substream: the groups in order with noise between them."""
    out = []
    cells = [g for g in groups if g and g[1] in (0, 2) and g[0] in (3, 5)]
    for i in range(len(groups) + 1):
        while rng.random() < p:
            if nest and rng.random() < nest:
                out += nested(rng, ver, cells, deep)
            else:
                out.append(["noise", 0, noise(rng, ver, kinds)])
        if i < len(groups):
            out.append(["used", i + 1, groups[i]])
    out.append(["eof", 0, biff.EOF])
    while rng.random() < p / 2:
        out.append(["noise", 0, noise(rng, ver)])
        if rng.random() < .3 and cells:
            out.append(["used", 99, rng.choice(cells)])
    return out


def sweep(rng, ver, groups, codes, size=16):
    """The groups with one record of every code in between."""
    out, blocks = [], [codes[i:i + size] for i in range(0, len(codes), size)]
    where = sorted(rng.randrange(len(groups) + 1) for _ in blocks)
    n = rng.choice([0, 1, 2, 4, 8, 12, 16, 20, 30])
    for i in range(len(groups) + 1):
        while where and where[0] == i:
            where.pop(0)
            out.append(["noise", 0, b"".join(rec(c, bytes(rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(n))) for c in blocks.pop())])
        if i < len(groups):
            out.append(["used", i + 1, groups[i]])
    return out + [["eof", 0, biff.EOF]]


def sweep_items(seed, ver, lo, hi):
    b = rich.book(seed, ver, [0])
    rng = random.Random("sweep/%r" % ((seed, ver, lo),))
    codes = list(range(lo, hi))
    rng.shuffle(codes)
    if ver < 50:
        head = sweep(rng, ver, list(b["globals"]) + b["sheets"][0]["groups"], [c for c in codes if c not in USED])
        return b, assemble(ver, head, b["sheets"], [])
    head = sweep(rng, ver, b["globals"], [c for c in codes if c not in HEADER5])
    sub = sweep(rng, ver, b["sheets"][0]["groups"], [c for c in codes if c not in SHEET5])
    return b, assemble(ver, head, b["sheets"], [sub])


def assemble(ver, header, sheets, subs, order=None, enc="latin-1"):
    """header: items, bytes None for the sheet entries; sheets: dicts with
    name, vis, type, stype; subs: items per sheet.  Returns the stream, the
    start of every substream's first item (header first) and the items as the
    specification wants them: [[kind, id, size], ...] per substream."""
    if ver < 50:
        b = biff.bof(ver, 0x10)
        return b + b"".join(i[2] for i in header), [len(b)], [[[i[0], i[1], len(i[2])] for i in header]]
    order = list(range(len(sheets))) if order is None else order
    bs = [biff.name8(ver, s["name"], enc) for s in sheets]
    n = sum(10 + len(b) for b in bs)
    b0 = biff.bof(ver, 5)
    head = [[i[0], i[1], n if i[2] is None else len(i[2])] for i in header]
    at = len(b0) + sum(h[2] for h in head)
    raw, starts, abofs = b"", [0] * len(sheets), [0] * len(sheets)
    for k in order:
        bb = biff.bof(ver, sheets[k].get("stype", 0x10))
        abofs[k] = at + len(raw)
        starts[k] = at + len(raw) + len(bb)
        raw += bb + b"".join(i[2] for i in subs[k])
    ent = b"".join(rec(0x85, P("<iBB", abofs[k], s.get("vis", 0), s.get("type", 0)) + bs[k]) for k, s in enumerate(sheets))
    out = b0 + b"".join(ent if i[2] is None else i[2] for i in header) + raw
    return out, [len(b0)] + starts, [head] + [[[i[0], i[1], len(i[2])] for i in sub] for sub in subs]


def rich_items(seed, ver, p, nest=0, deep=2, types=None, put=None, shuffle=True):
    """A rich workbook woven with noise.  put: kind of item put at a random
    place of the header.  Returns (book, assemble(...) result, order)."""
    b = rich.book(seed, ver, types)
    rng = random.Random("weave/%r" % ((seed, ver, p),))
    order = list(range(len(b["sheets"])))
    if shuffle:
        rng.shuffle(order)
    g = list(b["globals"])
    if ver < 50:
        g += b["sheets"][0]["groups"]
    head = weave(rng, ver, g, p, nest if ver < 50 else 0, deep, "c" if ver < 50 else "")
    if put == "pass":
        e = [i[0] for i in head].index("eof")
        ok, depth = [], 0
        for i in range(e + 1):
            if depth == 0:
                ok.append(i)
            depth += {"bof": 1, "eof": -1}.get(head[i][0], 0)
        if not ok:
            ok = [0]
        head.insert(rng.choice(ok), ["pass", 0, filepass(rng, ver)])
    subs = [weave(rng, ver, s["groups"], p, nest, deep, "c") for s in b["sheets"]] if ver >= 50 else []
    return b, assemble(ver, head, b["sheets"], subs, order), order
