#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  - decide one property on /repo's working tree.
check.py replay <file>                   - re-run one recorded scenario."""
import os, sys, importlib, traceback, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import core


def main(argv):
    prop = argv[0]
    if prop == "replay":
        doc = json.load(open(argv[1]))
        mod = importlib.import_module("props." + doc["property"].lower())
        run, module = mod.STAGES[doc["stage"]]
        obs = core.run_all(run, [doc["scenario"]], 30.0)
        v, r = core.judge(module, [doc["scenario"]], obs)
        print(json.dumps({"observed": obs[0], "clauses": v[0]}, indent=1))
        return 1 if v[0] else 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.check(ctx)
        return core.finish(ctx)
    except core.MachineryError as e:
        if ctx.violations:
            return core.finish(ctx)
        print("MACHINERY-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return core.finish(ctx)
        print("MACHINERY-ERROR property=%s" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
