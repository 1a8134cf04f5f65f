"""python main.py <property> [quick|thorough] [--replay file]"""
import json
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from checks import CHECKS


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = args[1] if len(args) > 1 and not args[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in args:
        rep = json.load(open(args[args.index("--replay") + 1]))
        tier, seed = rep["tier"], rep["seed"]
        only = rep["session"].get("key")
    # Scratch of earlier runs
    if os.path.isdir(common.OUT):
        for name in os.listdir(common.OUT):
            p = os.path.join(common.OUT, name)
            if name.startswith(pid + "-") and not os.path.exists("/proc/" + name.split("-")[-1]):
                shutil.rmtree(p, ignore_errors=True)
    check = common.Check(pid, tier, seed)
    plan = CHECKS[pid]
    try:
        deep = tier == "thorough"
        behaviours = None
        if "behaviours" in plan:
            behaviours = {name: check.behaviours(**kw)
                          for name, kw in plan["behaviours"](deep).items()}
        check.run(plan["judge"], shards=1 if only else plan.get("shards", 3),
                  workers=plan.get("workers", 2), behaviours=behaviours,
                  models=[] if only else plan.get("models", lambda deep: [])(deep), only=only,
                  timeout=plan.get("timeout", 500) * (8 if deep else 1),
                  judge_timeout=700 * (8 if deep else 1))
        return check.finish()
    except common.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
