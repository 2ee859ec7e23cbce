"""Writers for BIFF record streams and OLE2 containers (stdlib only)."""
import struct

P = struct.pack
BOF_OP = {20: 0x0009, 21: 0x0009, 30: 0x0209, 40: 0x0409, 45: 0x0409, 50: 0x0809, 70: 0x0809, 80: 0x0809}


def rec(op, data=b""):
    return P("<HH", op, len(data)) + data


def bof(version, stype):
    """stype: 0x0005 globals, 0x0010 worksheet, 0x0020 chart, 0x0100 4W globals."""
    if version == 80:
        return rec(0x0809, P("<HHHHII", 0x0600, stype, 0x1CFE, 0x07CD, 0x000100D1, 0x00000406))
    if version == 70:
        return rec(0x0809, P("<HHHH", 0x0500, stype, 0x0DBB, 0x07CC))
    if version == 50:
        return rec(0x0809, P("<HHHH", 0x0500, stype, 0x096C, 0x07C9))
    if version in (40, 45):
        return rec(0x0409, P("<HHH", 0x0400, stype, 0))
    if version == 30:
        return rec(0x0209, P("<HHH", 0x0300, stype, 0))
    if version in (20, 21):
        return rec(0x0009, P("<HH", 0x0200, stype))
    raise ValueError(version)


EOF = rec(0x000A)


def cont(op, parts):
    """One record followed by CONTINUE records."""
    out = rec(op, parts[0])
    for p in parts[1:]:
        out += rec(0x003C, p)
    return out


def supbook(names, wide=False, cut=None):
    """An external workbook with the names of its sheets; a long list goes on in
    CONTINUE records, cut between two names or ("mid") inside the letters of one."""
    parts = [struct.pack("<HHB", len(names), 8, 0) + b"\1other.x"]
    for t in names:
        b = t.encode("utf-16-le" if wide else "latin-1")
        head = struct.pack("<HB", len(t), int(wide))
        room = 8224 - len(parts[-1]) - len(head)
        if room >= len(b):
            parts[-1] += head + b
        elif cut == "mid" and room > 2:
            k = room // 2 * 2
            parts[-1] += head + b[:k]
            parts.append(bytes([int(wide)]) + b[k:])
        else:
            parts.append(head + b)
    return cont(0x1AE, parts)


def ustr16(s, wide=None):
    """BIFF8 XLUnicodeString body (flag byte + chars), no length."""
    b = s.encode("utf-16-le", "surrogatepass")
    n = len(b) // 2
    if wide is None:
        wide = any(b[1::2])
    if wide:
        return n, b"\x01" + b
    return n, b"\x00" + bytes(b[0::2])


def name8(version, s, enc="latin-1"):
    """String with one length byte, as in BOUNDSHEET / FONT."""
    if version >= 80:
        n, body = ustr16(s)
        return P("<B", n) + body
    b = s.encode(enc)
    return P("<B", len(b)) + b


def str16(version, s, enc="latin-1", wide=None):
    """String with a two byte length, as in LABEL / FORMAT (8)."""
    if version >= 80:
        n, body = ustr16(s, wide)
        return P("<H", n) + body
    b = s.encode(enc)
    return P("<H", len(b)) + b


def build(version, globals_recs, sheets, order=None, tail=b"", enc="latin-1", lead=None):
    """A workbook stream.  globals_recs: (op, data) pairs, bytes (verbatim) or
    None where the BOUNDSHEET records go (default: at the end).  sheets: dicts
    with name, recs (list of (op, data) or bytes), optional vis, type, stype,
    raw (verbatim substream).  order: physical order of the substreams."""
    if version < 50:
        out = bof(version, 0x0010) if lead is None else lead
        for r in list(globals_recs) + list(sheets[0]["recs"]):
            if r is not None:
                out += r if isinstance(r, bytes) else rec(*r)
        return out + EOF + tail
    if None not in globals_recs:
        globals_recs = list(globals_recs) + [None]
    subs = []
    for s in sheets:
        if "raw" in s:
            subs.append(s["raw"])
        else:
            b = s["lead"] if "lead" in s else bof(version, s.get("stype", 0x0010))
            for r in s["recs"]:
                b += r if isinstance(r, bytes) else rec(*r)
            subs.append(b + EOF)
    bs = [name8(version, s["name"], enc) if "rawname" not in s else s["rawname"] for s in sheets]
    lead = bof(version, 5) if lead is None else lead
    glen = len(lead) + 4
    for r in globals_recs:
        if r is None:
            glen += sum(4 + 6 + len(b) for b in bs)
        else:
            glen += len(r) if isinstance(r, bytes) else 4 + len(r[1])
    order = list(range(len(sheets))) if order is None else order
    pos, off = [0] * len(sheets), glen
    for i in order:
        pos[i] = off
        off += len(subs[i])
    out = lead
    for r in globals_recs:
        if r is None:
            for i, s in enumerate(sheets):
                out += rec(0x0085, P("<iBB", s.get("offset", pos[i]), s.get("vis", 0), s.get("type", 0)) + bs[i])
        else:
            out += r if isinstance(r, bytes) else rec(*r)
    out += EOF
    for i in order:
        out += subs[i]
    return out + tail


XF_OP = {20: 0x43, 21: 0x43, 30: 0x0243, 40: 0x0443, 45: 0x0443, 50: 0xE0, 70: 0xE0, 80: 0xE0}


def xf_rec(ver, fmt=0, font=0, style=False, parent=None):
    """A plain style record using number format key fmt."""
    par = 0xFFF if style else 0
    if parent is not None:
        par = parent
    tp = (4 if style else 0) | 1 | par << 4
    if ver >= 80:
        return rec(0xE0, P("<HHHBBBBIIH", font, fmt, tp, 0x20, 0, 0, 0, 0, 0, 0x20C0))
    if ver >= 50:
        return rec(0xE0, P("<HHHBBII", font, fmt, tp, 0x20, 0, 0x20C0, 0))
    if ver >= 40:
        return rec(0x0443, P("<BBHBBHI", font, fmt, tp, 0x20, 0, 0xCE00, 0))
    if ver >= 30:
        return rec(0x0243, P("<BBBBHHI", font, fmt, tp & 15, 0, par << 4, 0xCE00, 0))
    return rec(0x43, P("<BxBB", font, fmt & 0x3F, 0))


def format_rec(ver, key, s):
    if ver >= 80:
        n, body = ustr16(s)
        return rec(0x041E, P("<HH", key, n) + body)
    b = s.encode("latin-1")
    if ver >= 50:
        return rec(0x041E, P("<HB", key, len(b)) + b)
    if ver >= 40:
        return rec(0x041E, P("<HB", 0, len(b)) + b)
    return rec(0x001E, P("<B", len(b)) + b)


def font_rec(ver, name="Arial", height=200):
    if ver >= 50:
        return rec(0x31, P("<HHHHHBBBB", height, 0, 0x7FFF, 400, 0, 0, 0, 0, 0) + name8(ver, name))
    if ver >= 30:
        return rec(0x0231, P("<HHH", height, 0, 0x7FFF) + name8(ver, name))
    return rec(0x31, P("<HH", height, 0) + name8(ver, name))


def base_styles(ver, xfd, fonts=5):
    """Records defining styles 0..len(xfd)-1; style k has a date format if xfd[k]."""
    out = [font_rec(ver) for _ in range(fonts)]
    if ver < 50:
        out += [format_rec(ver, 0, "General"), format_rec(ver, 1, "d/m/yy")]
        key = 1
    else:
        key = 14
    if ver == 20:
        return out
    for k, d in enumerate(xfd):
        out.append(xf_rec(ver, key if d else 0, 0, k < 15))
    return out


def sst_simple(strings):
    body = P("<II", len(strings), len(strings))
    for s in strings:
        n, b = ustr16(s)
        body += P("<H", n) + b
    return rec(0x00FC, body)


def dim_rec(ver, r1, r2, c1, c2):
    if ver >= 80:
        return rec(0x0200, P("<IIHHH", r1, r2, c1, c2, 0))
    if ver >= 30:
        return rec(0x0200, P("<HHHHH", r1, r2, c1, c2, 0))
    return rec(0x0000, P("<HHHH", r1, r2, c1, c2))


def name_rec(ver, name, formula=b"", flags=0, extn=0, sheet=0, extra=b"", flen=None):
    """NAME record (5-8); name: bytes already encoded (8: flag byte included)."""
    n = (len(name) - 1) // (1 + name[0]) if ver >= 80 else len(name)
    return rec(0x18, P("<HBBHHH4B", flags, 0, n, len(formula) if flen is None else flen, extn, sheet, 0, 0, 0, 0) + name + formula + extra)


def flagged(units, wide=None):
    """Version 8 characters with their flag byte, no length."""
    if wide is None:
        wide = any(u > 255 for u in units)
    return b"\1" + b"".join(P("<H", u) for u in units) if wide else b"\0" + bytes(units)


def build4w(globals_recs, sheets, enc="latin-1", tail=b"", lead=None):
    """Version 4 workbook: sheets embedded in the workbook stream."""
    def join(l):
        return b"".join(r if isinstance(r, bytes) else rec(*r) for r in l)
    head = (bof(45, 0x0100) if lead is None else lead) + join(globals_recs)
    names = b"".join(rec(0x0085, name8(45, s["name"], enc)) for s in sheets)
    out = head + rec(0x008E, P("<i", len(head) + 8 + len(names))) + names
    for s in sheets:
        sub = (s["lead"] if "lead" in s else bof(45, 0x0010)) + join(s["recs"]) + EOF
        out += rec(0x008F, P("<i", len(sub)) + name8(45, s["name"], enc)) + sub
    return out + EOF + tail
