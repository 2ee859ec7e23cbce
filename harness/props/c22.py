"""C22: records the reader does not use (spec: Stream, StreamMC, TraceStream)."""
import streamrun
from streamrun import closed, scenario, run

STAGES = {k: (run, "TraceStream") for k in ("model-behaviours", "rich", "4w", "every-code")}
VERS = [80, 80, 80, 70, 50, 40, 30, 20]


def check(ctx):
    rng = ctx.rng
    scns = []
    for h in (0, 1):
        docs = ctx.model_check("StreamMC", "StreamMC_%d" % h, tag="S")
        docs = [d for d in docs if d["cut"] == -1 and closed(d["items"]) and not any(i[0] == "pass" for i in d["items"])]
        rng.shuffle(docs)
        for d in docs[:ctx.n(900, 3000)]:
            scns.append(scenario(rng, "plain", rng.choice([80, 70, 50] if h == 0 else VERS), items=d["items"], hdr=h))
    ctx.validate("model-behaviours", "TraceStream", scns, run)
    scns = [scenario(rng, "rich", rng.choice(VERS), p=rng.choice([.1, .3, .5]), nest=rng.choice([0, .2, .5]), deep=rng.choice([0, 1, 2, 3]),
                     ole=rng.choice([0, 0, "Workbook"]))
            for _ in range(ctx.n(700, 8000))]
    ctx.validate("rich", "TraceStream", scns, run)
    ctx.validate("4w", "TraceStream", [scenario(rng, "4w", 45, p=rng.choice([.2, .5])) for _ in range(ctx.n(200, 2000))], run)
    step = 1024
    scns = [scenario(rng, "rich", v, codes=[lo, lo + step]) for lo in range(0, 65536, step)
            for v in ([80, rng.choice([70, 50, 40, 30, 20])] if not ctx.thorough else [80, 80, 70, 50, 40, 30, 20])]
    low = [scenario(rng, "rich", v, codes=[0, step]) for v in VERS for _ in range(ctx.n(6, 60))]
    ctx.validate("every-code", "TraceStream", scns + low, run, limit=30)
