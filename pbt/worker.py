"""Worker process: runs one shard of one sub, or replays one case."""
import importlib
import json
import os
import resource
import sys
import traceback


def main():
    spec = json.load(open(sys.argv[1]))
    out = spec["out"]
    res = {"error": "worker died"}
    os.chdir(spec["scratch"])
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        except (ValueError, OSError):
            pass
        from . import env
        env.setup()
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = spec["scratch"]
        mod = importlib.import_module("pbt.checks." + spec["module"])
        from . import core
        check = mod.CHECK
        sub = check.subs[spec["sub"]]
        if spec["mode"] == "replay":
            sub.case_timeout *= spec.get("patience", 1)
            status, info, ctx = core.decide(sub, spec["case"])
            res = {"status": status, "info": info, "labels": ctx.labels, "nontrivial": ctx.is_nontrivial}
        else:
            c = core.Campaign(check, sub, spec["tier"], spec["seed"], spec["shard"], spec["budget_s"], spec["shrink_s"])
            res = c.run(spec["n"])
    except BaseException:
        res = {"error": traceback.format_exc()[-4000:]}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
