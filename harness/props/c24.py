"""C24: encrypted workbooks are refused (spec: Stream, StreamMC, TraceStream)."""
from streamrun import closed, scenario, run

STAGES = {k: (run, "TraceStream") for k in ("model-behaviours", "rich", "4w", "protection-only")}
VERS = [80, 80, 80, 70, 50, 40, 30, 20]


def opts(rng):
    return dict(verb=rng.choice([0, 0, 1, 2, 3]), via=rng.choice(["contents", "contents", "path", "mmap"]), ole=rng.choice([0, 0, "Workbook", "Book"]),
                frag=rng.choice([0, .5]))


def check(ctx):
    rng = ctx.rng
    docs = ctx.model_check("StreamMC", "StreamMC_1", tag="S")
    docs = [d for d in docs if d["cut"] == -1 and (closed(d["items"]) or any(i[0] == "pass" for i in d["items"]))]
    rng.shuffle(docs)
    ctx.validate("model-behaviours", "TraceStream",
                 [scenario(rng, "plain", rng.choice(VERS), items=d["items"], hdr=1, **opts(rng)) for d in docs[:ctx.n(1200, 4000)]], run)
    ctx.validate("rich", "TraceStream",
                 [scenario(rng, "rich", rng.choice(VERS), p=rng.choice([0, .1, .3]), nest=rng.choice([0, .3]), put="pass", **opts(rng))
                  for _ in range(ctx.n(700, 8000))], run)
    ctx.validate("4w", "TraceStream", [scenario(rng, "4w", 45, p=rng.choice([0, .2, .4]), put=rng.choice(["", "pass", "pass"]), **opts(rng))
                                       for _ in range(ctx.n(250, 2000))], run)
    ctx.validate("protection-only", "TraceStream",
                 [scenario(rng, "rich", rng.choice(VERS), p=.4, nest=.1, **opts(rng)) for _ in range(ctx.n(200, 2000))], run)
