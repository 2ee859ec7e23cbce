"""OLE2 compound files: abstract containers (see spec/Container.tla) -> bytes."""
import struct
P = struct.pack
SIG = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"
FREE, EOC, SATS, MSATS = -1, -2, -3, -4


def unit_bytes(u, n):
    """Distinct contents for every unit, in any prefix of 4 bytes or more."""
    w = P("<I", (u * 2654435761 + 0x5A5A5A5A) & 0xFFFFFFFF | 0x00000000)
    return (w * ((n + 3) // 4))[:n]


def entry(e):
    name = b"".join(P("<H", x) for x in e["n"])[:62]
    return (name.ljust(64, b"\0") + P("<HBBiii", len(name) + 2 if e["n"] or e["t"] else 0, e["t"], 1, e["l"], e["r"], e["c"]) +
            bytes(36) + P("<iiI", e["s"], e["z"], e.get("hi", 0)))


EMPTY = {"n": [], "t": 0, "l": -1, "r": -1, "c": -1, "s": 0, "z": 0}


def serialise(c, content=None):
    """content: {sector: bytes} overriding the unit counters."""
    ss, un = 1 << c["ssz"], 1 << c["usz"]
    sig = SIG if c["sig"] else b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE0"
    h = sig + bytes(16) + P("<HH", 0x3E, 4 if c["ssz"] == 12 else 3)
    h += (b"\xFE\xFF" if c["bom"] else b"\xFF\xFE") + P("<HH", c["hssz"], c["hsssz"]) + bytes(10)
    h += P("<iiiiiiii", c["nsat"], c["dir"], c.get("txn", 0), c["mincut"], c["ssat"], c["nssat"], c["msatx"], c["nmsatx"])
    m = list(c["msat"]) + [-1] * (109 - len(c["msat"]))
    h += P("<109i", *m)
    if c["cut"]:
        return h[:c["cut"] - 1]
    out = [h + bytes(max(0, ss - 512))]
    content = content or {}
    nent = ss // 4
    for s in range(c["nsecs"] + (1 if c["tail"] else 0)):
        k = str(s)
        if k in c["ints"]:
            v = c["ints"][k]
            b = P("<%di" % nent, *(list(v) + [-1] * (nent - len(v))))
        elif k in c["dirs"]:
            b = b"".join(entry(e) for e in c["dirs"][k])
        elif s in content:
            b = content[s].ljust(ss, b"\xEE")
        else:
            b = b"".join(unit_bytes(s * (ss // un) + j, un) for j in range(ss // un))
        assert len(b) == ss, (s, len(b), ss)
        out.append(b if s < c["nsecs"] else b[:c["tail"]])
    return b"".join(out)


def units_of(mem, c):
    """unit index -> contents, and the list of units with equal contents."""
    un, base = 1 << c["usz"], max(512, 1 << c["ssz"])
    table, first, dup = [], {}, {}
    for i in range((len(mem) - base) // un):
        b = mem[base + i * un: base + (i + 1) * un]
        table.append(b)
        if b in first:
            dup[str(i)] = first[b]
        else:
            first[b] = i
    return table, first, dup


def well_formed(rng, streams, ssz=9, sssz=6, mincut=4096, extra_sat=0, frag=0.5, free=0, storages=(), shape="bst",
                dirpad=0, msatx_none=-2, tail=0, minifree=0, hi=False,
                first=None, msatx_end=-2, holes=0):
    """streams: [(path units list, size)].  first: the structure that occupies
    sector 0, if there is one.  holes: unused entries in the master table.
    Returns the abstract container."""
    ss, mss = 1 << ssz, 1 << sssz
    nent, epd = ss // 4, ss // 128
    # mini streams
    mini, nm = {}, 0
    ids = []
    for i, (_p, z) in enumerate(streams):
        if z < mincut:
            k = (z + mss - 1) // mss
            mini[i] = k
            nm += k
    slots = list(range(nm + minifree))
    if rng.random() < frag:
        rng.shuffle(slots)
    ssatv = [-1] * len(slots)
    mstart = {}
    p = 0
    for i, k in mini.items():
        ch = slots[p:p + k]
        p += k
        mstart[i] = ch[0] if ch else -2
        for a, b in zip(ch, ch[1:] + [-2]):
            ssatv[a] = b
    if nm == 0:
        ssatv = []
        rootz = 0
    else:
        rootz = len(slots) * mss
    # directory entries: root, storages and streams in random order
    nodes = {}            # path tuple -> entry
    order = []
    for p_, z in streams:
        order.append((tuple(map(tuple, p_)), 2))
    for p_ in storages:
        order.append((tuple(map(tuple, p_)), 1))
    perm = list(range(len(order) + dirpad))
    rng.shuffle(perm)
    slot = {}
    for k, (path, t) in enumerate(order):
        slot[path] = perm[k] + 1
    ents = [None] * (1 + len(perm))
    ents[0] = {"n": [ord(x) for x in "Root Entry"], "t": 5, "l": -1, "r": -1, "c": -1, "s": -2, "z": rootz}
    for k, (path, t) in enumerate(order):
        e = {"n": list(path[-1]), "t": t, "l": -1, "r": -1, "c": -1, "s": -2 if t == 2 else 0, "z": 0}
        if hi and t == 2:
            e["hi"] = rng.choice([0, 1, 0xFFFFFFFF])
        ents[slot[path]] = e
    for i in range(len(ents)):
        if ents[i] is None:
            ents[i] = dict(EMPTY)

    def tree(keys):
        """random tree shape over the ordered keys; returns root slot"""
        if not keys:
            return -1
        root = None
        todo = [(0, len(keys), None, None)]
        while todo:
            lo, hi_, par, side = todo.pop()
            if lo >= hi_:
                continue
            if shape == "right":
                m = lo
            elif shape == "left":
                m = hi_ - 1
            elif shape == "balanced":
                m = (lo + hi_) // 2
            else:
                m = rng.randrange(lo, hi_)
            s = slot[keys[m]]
            if par is None:
                root = s
            else:
                ents[par][side] = s
            todo.append((lo, m, s, "l"))
            todo.append((m + 1, hi_, s, "r"))
        return root
    kids = {}
    for path, t in order:
        kids.setdefault(path[:-1], []).append(path)
    key = lambda p_: (len(p_[-1]), [x - 32 if 97 <= x <= 122 else x for x in p_[-1]])
    for par, l in kids.items():
        l.sort(key=key)
        r = tree(l)
        if par == ():
            ents[0]["c"] = r
        else:
            ents[slot[par]]["c"] = r
    while len(ents) % epd:
        ents.append(dict(EMPTY))
    # sector counts
    need = {"dir": len(ents) // epd, "box": (rootz + ss - 1) // ss, "ssat": (len(ssatv) + nent - 1) // nent}
    reg = {i: (z + ss - 1) // ss for i, (_p, z) in enumerate(streams) if z >= mincut}
    data = sum(need.values()) + sum(reg.values()) + free
    nsat, nx = 1, 0
    while True:
        tot = data + nsat + nx
        ns2 = max(nsat, (tot + (1 if tail else 0) + nent - 1) // nent + extra_sat)
        nx2 = (max(0, ns2 - 109) + nent - 2) // (nent - 1)
        if (ns2, nx2) == (nsat, nx):
            break
        nsat, nx = ns2, nx2
    secs = list(range(data + nsat + nx))
    r = rng.random()
    if r < frag:
        rng.shuffle(secs)
    elif r < frag + .2:
        # only a few swaps: long contiguous runs
        for _ in range(3):
            a, b = rng.randrange(len(secs)), rng.randrange(len(secs))
            secs[a], secs[b] = secs[b], secs[a]
    pos = 0

    def grab(n):
        nonlocal pos
        l = secs[pos:pos + n]
        pos += n
        return l
    parts = [("reg", i, k) for i, k in reg.items()] + [("box", 0, need["box"]), ("ssat", 0, need["ssat"]), ("dir", 0, need["dir"]),
                                                       ("sat", 0, nsat), ("x", 0, nx), ("free", 0, free)]
    rng.shuffle(parts)
    got = {(a, b): grab(k) for a, b, k in parts}
    if first and got.get((first, 0)):
        at = rng.randrange(len(got[first, 0]))
        old = got[first, 0][at]
        got = {k: [0 if x == old else old if x == 0 else x for x in l] for k, l in got.items()}
    sat = [-1] * (nsat * nent)

    def chain(l):
        for a, b in zip(l, l[1:] + [-2]):
            sat[a] = b
        return l[0] if l else -2
    for i in reg:
        mstart[i] = chain(got["reg", i])
    ents[0]["s"] = chain(got["box", 0])
    ssat0, dir0 = chain(got["ssat", 0]), chain(got["dir", 0])
    for s in got["sat", 0]:
        sat[s] = SATS
    for s in got["x", 0]:
        sat[s] = MSATS
    for i, (path, z) in enumerate(streams):
        e = ents[slot[tuple(map(tuple, path))]]
        e["s"], e["z"] = mstart.get(i, -2), z
    ints, dirs = {}, {}

    def trim(v):
        v = list(v)
        while v and v[-1] == -1:
            v.pop()
        return v
    for k, s in enumerate(got["sat", 0]):
        ints[str(s)] = trim(sat[k * nent:(k + 1) * nent])
    for k, s in enumerate(got["ssat", 0]):
        ints[str(s)] = trim(ssatv[k * nent:(k + 1) * nent])
    for k, s in enumerate(got["dir", 0]):
        dirs[str(s)] = ents[k * epd:(k + 1) * epd]
    rest = got["sat", 0][109:]
    for k, s in enumerate(got["x", 0]):
        v = rest[k * (nent - 1):(k + 1) * (nent - 1)]
        v += [-1] * (nent - 1 - len(v))
        if k + 1 == nx:
            for i in range(len(v)):
                if v[i] == -1 and holes:
                    v[i] = rng.choice([-1, -2])
        ints[str(s)] = v + [got["x", 0][k + 1] if k + 1 < nx else msatx_end]
    msat = got["sat", 0][:109]
    for _ in range(holes):
        if len(msat) < 109:
            msat.insert(rng.randrange(len(msat) + 1), rng.choice([-1, -2]))
    return {"sig": True, "bom": True, "cut": 0, "ssz": ssz, "sssz": sssz, "usz": min(6, sssz), "hssz": ssz, "hsssz": sssz,
            "nsecs": len(secs), "tail": tail, "dir": dir0, "mincut": mincut, "ssat": ssat0,
            "nssat": need["ssat"], "msatx": got["x", 0][0] if nx else msatx_none, "nmsatx": nx, "nsat": nsat,
            "msat": msat, "ints": ints, "dirs": dirs, "dup": {}}


def pack(rng, files, slack=None, **kw):
    """A compound file holding real streams: files is [(name, bytes)].  slack:
    {name: bytes} left behind the end of a stream in its last sector."""
    slack = slack or {}
    c = well_formed(rng, [([[ord(x) for x in n]], len(d)) for n, d in files], **kw)
    ss, ms, nent = 1 << c["ssz"], 1 << c["sssz"], (1 << c["ssz"]) // 4
    sat = []
    for s in c["msat"]:
        v = c["ints"][str(s)]
        sat += list(v) + [-1] * (nent - len(v))

    def walk(s, t):
        out = []
        while s >= 0:
            out.append(s)
            s = t[s]
        return out
    ents = [e for s in walk(c["dir"], sat) for e in c["dirs"][str(s)]]
    ssat = []
    for s in walk(c["ssat"], sat) if c["nssat"] else []:
        v = c["ints"][str(s)]
        ssat += list(v) + [-1] * (nent - len(v))
    content, box = {}, bytearray()
    boxch = walk(ents[0]["s"], sat)
    box = bytearray(len(boxch) * ss)
    for n, d in files:
        e = [e for e in ents if e["n"] == [ord(x) for x in n]][0]
        if len(d) >= c["mincut"]:
            for i, s in enumerate(walk(e["s"], sat)):
                content[s] = d[i * ss:(i + 1) * ss]
            room = len(content[s])
            content[s] += slack.get(n, b"")[:ss - room]
        elif d:
            for i, m in enumerate(walk(e["s"], ssat)):
                part = d[i * ms:(i + 1) * ms]
                part += slack.get(n, b"")[:ms - len(part)] if (i + 1) * ms >= len(d) else b""
                box[m * ms:m * ms + len(part)] = part
    for i, s in enumerate(boxch):
        content[s] = bytes(box[i * ss:(i + 1) * ss])
    return serialise(c, content)


def simple(name, data, seed=0, frag=0.5, rest=b""):
    """rest: what lies behind the end of the stream, in its last sector and in
    the sectors of the stream after it."""
    import random
    rng = random.Random("simple/%r" % seed)
    return pack(rng, [(name, data), ("\x05SummaryInformation", rest or bytes(200))], {name: rest}, frag=frag)
