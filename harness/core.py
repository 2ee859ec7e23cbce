"""Machinery shared by every check: running TLC, running the real xlrd on
scenarios in worker processes, having TLC judge the recorded observations,
writing evidence and replay files.

Everything is Python standard library; xlrd itself is imported from
$VERIF_REPO (default /repo) straight from its working tree.
"""
import os, sys, json, time, re, subprocess, tempfile, shutil, signal, random, resource
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """Something in the verification machinery (not xlrd) failed."""


class Hang(BaseException):
    """The code under test exceeded its time limit."""


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            self.generated = self.distinct = 0
        self.ok = "Model checking completed. No error has been found." in out or \
            (rc == 0 and "Error:" not in out)


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=600, heap="6g", extra=(), simulate=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns TlcResult."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlcmeta_")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-config", cfg + ".cfg"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        return TlcResult(out, p.returncode, time.time() - t)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s/%s after %ss" % (module, cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tla_unquote(s):
    """Undo TLC's printing of a string value (quotes already stripped)."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            n = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


def tagged_lines(out, tag):
    """Yield the JSON documents printed by PrintT(<<tag, ToJson(x)>>) or
    PrintT(tag \\o ToJson(x))."""
    pre = '"' + tag + "|"
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield tla_unquote(line[len(pre):-1])


# ------------------------------------------------- running the real code
def norm(x):
    """Total, JSON-safe, TLC-safe (32-bit ints) projection of any value."""
    if x is True or x is False:
        return x
    if x is None:
        return "None"
    if isinstance(x, int):
        return x if -2**31 < x < 2**31 else "I:%d" % x
    if isinstance(x, float):
        return f64(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return "B:" + bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    return "R:" + repr(x)[:200]


def f64(x):
    """Doubles cross the JSON boundary as 'F' + 16 hex digits (bit exact)."""
    import struct
    return "F" + struct.pack(">d", x).hex()


def units(s):
    """Text as the list of its UTF-16 code units (total on any value)."""
    if not isinstance(s, str):
        return ["?" + repr(s)[:80]]
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def unit_str(u):
    b = bytearray()
    for x in u:
        b += bytes((x & 255, x >> 8))
    return bytes(b).decode("utf-16-le", "surrogatepass")


def exc_class(e):
    """Coarse, refactoring-proof classification of an exception."""
    n = type(e).__name__
    return n


def _alarm(sig, frame):
    raise Hang()


def _worker_init(mem):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    dn = open(os.devnull, "w")
    sys.stdout = dn


_RUN = None


def _one(args):
    i, scn, limit = args
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            obs = _RUN(scn)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        obs = {"hang": True}
    except MachineryError as e:
        return i, {"machinery": str(e)}
    except Exception as e:
        import traceback
        where = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        inside = any(f.startswith(os.path.join(REPO, "xlrd") + os.sep) for f in where)
        if inside or not isinstance(e, (MemoryError, OSError, ImportError)):
            # the code under test raised where the scenario lets nothing be
            # raised, or returned what the observer cannot even take apart
            return i, {"crash": traceback.format_exc()[-1500:]}
        return i, {"machinery": traceback.format_exc()[-1500:]}
    except BaseException:
        import traceback
        return i, {"machinery": traceback.format_exc()[-1500:]}
    return i, obs


def run_all(run, scenarios, limit=10.0, procs=NCPU, mem=3 << 30):
    """Run run(scn) on the real code for every scenario, in worker processes.
    The runner itself must turn exceptions of xlrd into observations."""
    global _RUN
    _RUN = run
    ctx = mp.get_context("fork")
    res = [None] * len(scenarios)
    if len(scenarios) <= 40:
        procs = 1
    with ctx.Pool(procs, _worker_init, (mem,)) as pool:
        it = pool.imap_unordered(_one, ((i, s, limit) for i, s in enumerate(scenarios)),
                                 max(1, min(64, len(scenarios) // (procs * 4) or 1)))
        for i, o in it:
            res[i] = o
    # a time limit that was hit may be the machine's doing: ask again, alone
    hung = [i for i, o in enumerate(res) if isinstance(o, dict) and o.get("hang")]
    sure = 0
    for i in hung:
        if sure < 3:
            with ctx.Pool(1, _worker_init, (mem,)) as pool:
                res[i] = pool.apply(_one, ((i, scenarios[i], max(20.0, 2 * limit)),))[1]
            sure += isinstance(res[i], dict) and bool(res[i].get("hang"))
    for i, o in enumerate(res):
        if isinstance(o, dict) and "machinery" in o:
            raise MachineryError("runner failed on scenario %d: %s" % (i, o["machinery"]))
    return res


def guarded(f, *a, **k):
    """Call f; return (True, value) or (False, exception class name)."""
    try:
        return True, f(*a, **k)
    except Exception as e:
        return False, exc_class(e)


# -------------------------------------------------------------- contexts
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.thorough = tier == "thorough"
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.stages = []
        self.violations = []     # (stage, scenario, obs, clauses)
        self.known = []
        self.t0 = time.time()
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- exhaustive exploration of the specification on its own
    def model_check(self, module, cfg=None, env=None, timeout=700, tag=None, heap="6g", workers=NCPU,
                    extra=()):
        r = tlc(module, cfg, env, timeout=timeout, heap=heap, workers=workers, extra=extra)
        if not r.ok or not r.distinct:
            raise MachineryError("TLC failed on %s/%s:\n%s" % (module, cfg, _tail(r.out)))
        self.states += r.distinct
        self.transitions += r.generated
        st = {"stage": "model-check", "module": module, "config": cfg or module,
              "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)}
        docs = None
        if tag:
            docs = [json.loads(x) for x in sorted(tagged_lines(r.out, tag))]  # whatever order the workers print in
            st["behaviours_exported"] = len(docs)
        self.stages.append(st)
        return docs

    # -- run scenarios on the code and have TLC judge the recorded traces
    def validate(self, name, module, scenarios, run, limit=10.0, cfg=None, timeout=800, heap="8g",
                 chunk=None, sample=1):
        if not scenarios:
            raise MachineryError("stage %s has no scenarios" % name)
        t = time.time()
        obs = run_all(run, scenarios, limit)
        t_run = time.time() - t
        bad = 0
        distinct = generated = 0
        t = time.time()
        chunk = chunk or 20000
        for lo in range(0, len(scenarios), chunk):
            sl, ol = scenarios[lo:lo + chunk], obs[lo:lo + chunk]
            v, r = judge(module, sl, ol, cfg, timeout, heap)
            distinct += r.distinct
            generated += r.generated
            for i, clauses in enumerate(v):
                if clauses:
                    bad += 1
                    self.violation(name, sl[i], ol[i], clauses)
        self.states += distinct
        self.transitions += generated
        self.validated += len(scenarios)
        self.stages.append({"stage": "conformance", "name": name, "module": module,
                            "traces": len(scenarios), "rejected": bad,
                            "distinct_states": distinct, "states_generated": generated,
                            "run_s": round(t_run, 1), "judge_s": round(time.time() - t, 1)})
        if sample:
            for s, o in list(zip(scenarios, obs))[:sample]:
                self.samples.append({"stage": name, "scenario": _clip(s), "observed": _clip(o)})
        return obs

    def violation(self, stage, scn, obs, clauses):
        self.violations.append((stage, scn, obs, clauses))


def _clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def _judge(module, scenarios, obs, cfg, timeout, heap):
    v, todo = {}, []
    for i, o in enumerate(obs):
        k = [k for k in ("hang", "crash") if isinstance(o, dict) and o.get(k)]
        if k:
            v[i] = k  # nothing was observed that could be compared
        else:
            todo.append(i)
    if not todo:
        return v, TlcResult("", 0, 0.0)
    d = tempfile.mkdtemp(prefix="cases_")
    try:
        path = os.path.join(d, "cases.ndjson")
        with open(path, "w") as f:
            for n, i in enumerate(todo):
                f.write(json.dumps({"i": n + 1, "s": scenarios[i], "o": obs[i], "hang": False}) + "\n")
        r = tlc(module, cfg, {"CASES": path}, timeout=timeout, heap=heap)
        for doc in tagged_lines(r.out, "V"):
            i, _, cl = doc.partition("|")
            v[todo[int(i) - 1]] = json.loads(cl)
        if (not r.ok or len(v) != len(scenarios)) and os.environ.get("VERIF_DEBUG"):
            shutil.copy(path, "/tmp/debug_cases.ndjson")
        return v, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(module, scenarios, obs, cfg=None, timeout=800, heap="8g"):
    """TLC decides, per recorded trace, which clauses of the specification
    the observation breaks. Returns ([clauses per scenario], TlcResult)."""
    v, r = _judge(module, scenarios, obs, cfg, timeout, heap)
    if not r.ok or len(v) != len(scenarios):
        # TLC stopped: look for an observation that is not even of the type the
        # specification gives it (a text for a number, a list too short, ...)
        first = r
        cand = [i for i in range(len(scenarios)) if i not in v]
        while cand and "OutOfMemory" not in r.out:
            half = cand[:(len(cand) + 1) // 2]
            w, r = _judge(module, [scenarios[i] for i in half], [obs[i] for i in half], cfg, timeout, heap)
            if r.ok and len(w) == len(half):
                v.update((half[k], c) for k, c in w.items())
                cand = cand[len(half):]
            elif len(half) == 1:
                v[half[0]] = ["not of the specified type"]
                break
            else:
                cand = [i for k, i in enumerate(half) if k not in w]
        if not any(c == ["not of the specified type"] for c in v.values()):
            raise MachineryError("TLC judged %d of %d traces with %s:\n%s" %
                                 (len(v), len(scenarios), module, _tail(first.out)))
        r = first
    return [sorted(set(map(str, v.get(i, [])))) for i in range(len(scenarios))], r


def _tail(out):
    lines = [l for l in out.splitlines() if not l.startswith(('"V|', '"S|', "Parsing file", "Semantic processing", "Linting"))]
    return "\n".join(lines)[-3500:]


# -------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


# --------------------------------------------------------------- driver
def finish(ctx, level="model_checking"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.validated,
           "samples": ctx.samples[:12], "stages": ctx.stages}
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    if ctx.violations:
        for n, (stage, scn, obs, clauses) in enumerate(ctx.violations[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (ctx.prop, n))
            with open(path, "w") as f:
                json.dump({"property": ctx.prop, "stage": stage, "scenario": scn, "observed": obs,
                           "clauses": clauses}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  stage=%s broken clauses=%s" % (stage, ",".join(clauses)))
        if len(ctx.violations) > 5:
            print("  ... and %d more" % (len(ctx.violations) - 5))
        return 1
    print("OK %s: %d traces validated, %d states, %.1fs" %
          (ctx.prop, ctx.validated, ctx.states, time.time() - ctx.t0))
    return 0
