"""C27: record dump and census (spec: Dump, DumpMC, TraceDump)."""
import hashlib, io, os, random, re, shutil, subprocess, sys, tempfile
import biff, core, ole, rich, streams, xlrd
from biff import rec, P

CODES = [0x809, 0x0A, 0x203, 0xFC, 0xFD, 0x85, 0x3C, 0x2F, 6, 0x27E, 9, 0x409, 0x200, 0x18, 0x31, 0x1B8]


def sha(b):
    return hashlib.sha1(b).hexdigest()[:12]


def code(rng):
    return rng.choice(CODES) if rng.random() < .6 else rng.randrange(1, 65536)


def build(s):
    """(bytes, payloads): s.items give kinds and sizes, s.seed the contents."""
    rng = random.Random("dump/%r" % s["seed"])
    out, pay = b"", []
    for it in s["items"]:
        if it[0] == "rec":
            k = rng.randrange(3)
            b = bytes(it[3]) if k == 0 else bytes(rng.randrange(256) for _ in range(it[3])) if k == 1 else (b"%s\r\n\0 A~" * 2000)[:it[3]]
            out += P("<HH", it[1], it[2]) + b
            pay.append(sha(b))
        elif it[0] == "zero":
            out += bytes(it[1])
        else:
            out += bytes(rng.randrange(1, 256) for _ in range(it[1]))
    return out, pay


REC = re.compile(r"^(?: *(\d+): )?([0-9a-fA-F]{4}) (\S+) len = ([0-9a-fA-F]+) \((\d+)\)$")
HEX = re.compile(r"^(?: *(\d+): )?     ((?:[0-9a-f]{2} |   ){16}) (.{1,16})$", re.S)
ZERO = re.compile(r"^(?: *(\d+): )?---- (\d+) zero bytes skipped ----$")
MISC = re.compile(r"^(?: *(\d+): )?---- Misc bytes at end ----$")


def parse(text, numbered):
    ev, pay, names, cur, bad = [], [], [], None, []
    n = lambda g: int(g) if g else -1
    at = None

    def close():
        if cur is not None:
            if ev and ev[-1][1] == "misc":
                ev[-1][2] = len(cur)
            else:
                pay.append(sha(bytes(cur)))
    for line in text.split("\n")[:-1]:
        m = REC.match(line)
        if m:
            close()
            cur = bytearray()
            if int(m.group(4), 16) != int(m.group(5)):
                bad.append(line)
            ev.append([n(m.group(1)), "rec", int(m.group(2), 16), int(m.group(5))])
            names.append("" if m.group(3) == "<UNKNOWN>" else m.group(3))
            at = ev[-1][0] + 4
            continue
        m = ZERO.match(line)
        if m:
            close()
            cur = None
            ev.append([n(m.group(1)), "zero", int(m.group(2))])
            continue
        m = MISC.match(line)
        if m:
            close()
            cur = bytearray()
            ev.append([n(m.group(1)), "misc", 0])
            at = ev[-1][0]
            continue
        if line.startswith("Last dumped record"):
            continue
        m = HEX.match(line)
        if m and cur is not None:
            b = bytes.fromhex(m.group(2))
            if numbered and n(m.group(1)) != at + len(cur):
                bad.append(line)
            t = "".join("~" if x == 0 else chr(x) if 32 <= x <= 126 else "?" for x in b)
            if m.group(3) != t:
                bad.append(line)
            cur += b
            continue
        bad.append(line)
    close()
    return ev, pay, names, bad


def tool(args):
    """The same through the command-line tool, in a process of its own."""
    r = subprocess.run([sys.executable, "-B", os.path.join(core.REPO, "scripts", "runxlrd.py")] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONIOENCODING="utf-8"))
    if r.returncode:
        raise RuntimeError("exit status %d" % r.returncode)
    return io.StringIO(r.stdout.decode("utf-8"))


def run(s):
    d = tempfile.mkdtemp(prefix="du_")
    try:
        if s.get("book"):
            data = bytes(make_book(s)[0])
        else:
            data = build(s)[0]
        rest = b""
        if s["ole"]:
            rng = random.Random(s["seed"])
            rest = rng.choice([b"", bytes(3000), bytes(rng.randrange(1, 256) for _ in range(3000))])
            data = ole.simple(s["ole"], data, s["seed"], s["frag"], rest)
        p = os.path.join(d, "f.xls")
        with open(p, "wb") as f:
            f.write(data)
        try:
            if s.get("cli"):
                o = tool((["-u"] if not s["numbered"] else []) + ["biff_dump", p])
                c = tool(["biff_count", p])
            else:
                o, c = io.StringIO(), io.StringIO()
                xlrd.dump(p, o, unnumbered=not s["numbered"])
                xlrd.count_records(p, c)
            ev, pay, names, bad = parse(o.getvalue(), s["numbered"])
        except Exception as e:
            return {"err": type(e).__name__, "msg": str(e)[:200]}
        census = []
        for line in c.getvalue().splitlines():
            m = re.match(r"^ *(\d+) (.+)$", line)
            k = m.group(2)
            if k not in names:
                h = re.search(r"([0-9A-Fa-f]{4})$", k)
                k = "zero" if "ummy" in k or "zero" in k else "u%d" % int(h.group(1), 16) if h else "?" + k
            census.append([k, int(m.group(1))])
        out = {"ev": ev, "pay": pay, "names": names, "census": census}
        if bad:
            out["err"], out["msg"] = "unreadable", bad[0][:200]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_book(s):
    b, parts, _ = streams.rich_items(s["seed"], s["book"], .2, .3, 1)
    data = parts[0]
    tail = random.Random(s["seed"]).choice([b"", bytes(2), bytes(4), bytes(510), b"\1\2\3"])
    data += tail
    items, pay, p = [], [], 0
    end = len(data)
    while end - p >= 4:
        c, n = int.from_bytes(data[p:p + 2], "little"), int.from_bytes(data[p + 2:p + 4], "little")
        if c == 0 and n == 0:
            if not any(data[p:]):
                items.append(["zero", end - p])
                p = end
                break
            items.append(["zero", 4])
        else:
            b = data[p + 4:p + 4 + n]
            items.append(["rec", c, n, len(b)])
            pay.append(sha(b))
        p += 4 + n
    if p < end:
        items.append(["misc", end - p])
    return data, items, pay


STAGES = {k: (run, "TraceDump") for k in ("model-behaviours", "random", "workbooks", "tool")}


def scn(rng, items):
    """Gives abstract items real codes and sizes."""
    out = []
    sizes = [0, 1, 15, 16, 17, 32, 33, 100]
    for it in items:
        it = list(it)
        if it[0] == "rec":
            c = code(rng) if it[1] else 0
            n = rng.choice(sizes) if it[2] == it[3] else 0
            if it[1] == 0:
                n = rng.choice(sizes[1:])
            it = ["rec", c, n, n] if it[2] == it[3] else ["rec", c, rng.choice([9, 300, 0x2000, 65535]), it[3]]
            if it[2] == it[3] and rng.random() < .02:
                it[2] = it[3] = 8224
        out.append(it)
    s = {"items": out, "seed": rng.getrandbits(30), "numbered": rng.random() < .7, "ole": rng.choice([0, 0, "Workbook", "Book"]), "frag": rng.choice([0, 0, .6])}
    s["pay"] = build(s)[1]
    return s


def rand_items(rng):
    out = [["rec", 1, 1, 1]]
    for _ in range(rng.choice([3, 10, 40])):
        k = rng.random()
        if k < .85:
            out.append(["rec", 1, 1, 1])
        elif out[-1][0] != "zero":
            out.append(["zero", rng.choice([4, 8, 40])])
    k = rng.randrange(5)
    if k == 0 and out[-1][0] != "zero":
        out.append(["misc", rng.randrange(1, 4)])
    elif k == 1:
        out.append(["zero", rng.choice([4, 6, 7, 511, 1000])])
    elif k == 2:
        out.append(["rec", 1, 9, rng.randrange(8)])
    return out


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("DumpMC", tag="S")
    rng.shuffle(docs)
    ctx.validate("model-behaviours", "TraceDump", [scn(rng, d["items"]) for d in docs[:ctx.n(1200, 6000)]], run)
    ctx.validate("random", "TraceDump", [scn(rng, rand_items(rng)) for _ in range(ctx.n(800, 8000))], run)
    out = []
    for _ in range(ctx.n(250, 2500)):
        s = {"book": rng.choice([80, 80, 70, 50, 40, 30, 20]), "seed": rng.getrandbits(30), "numbered": rng.random() < .7,
             "ole": rng.choice([0, "Workbook"]), "frag": rng.choice([0, .6])}
        _, s["items"], s["pay"] = make_book(s)
        out.append(s)
    ctx.validate("workbooks", "TraceDump", out, run)
    ctx.validate("tool", "TraceDump", [dict(scn(rng, rand_items(rng)), cli=1) for _ in range(ctx.n(60, 600))], run)
