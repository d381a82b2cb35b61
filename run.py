#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--only GROUP-REGEX]; run.py --replay FILE"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import core
from framework.checks import CHECKS


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        # the tools every check needs; the drivers are rebuilt by the checks themselves
        import shutil
        missing = [t for t in ("g++", "valgrind") if not shutil.which(t)]
        os.makedirs(core.BUILD, exist_ok=True)
        print("setup:", "missing " + ",".join(missing) if missing else "ok")
        return 1 if missing else 0
    if args and args[0] == "--replay":
        j = json.load(open(args[1]))
        cfg = CHECKS[j["property"]]
        for d in cfg.get("drivers") or []:
            if d.name == j.get("driver"):
                d.flavours = [j["flavour"]]
                exe = core.build([d])[(d.name, j["flavour"])]
                cmd = [exe, "--group", j["group"], "--from", str(j["idx"]), "--to", str(j["idx"] + 1), "--seed",
                       str(j["seed"]), "--scratch", os.environ.get("TMPDIR", "/tmp")]
                if j["tier"] == "thorough":
                    cmd.append("--thorough")
                print(" ".join(cmd))
                os.execvpe(cmd[0], cmd, dict(os.environ, UBSAN_OPTIONS="print_stacktrace=1", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1"))
        print(json.dumps(j, indent=1))
        if j["property"] == "C29":
            from framework import scripts
            return scripts.replay(j)
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    k = 1
    while k < len(args):
        if args[k] == "--tier": tier = args[k + 1]
        if args[k] == "--seed": seed = int(args[k + 1])
        if args[k] == "--only": only = args[k + 1]
        k += 2
    t0 = time.time()
    cfg = CHECKS[prop]
    try:
        res = core.Result()
        if cfg.get("drivers"):
            core.run_drivers(cfg["drivers"], tier, seed, res, only, cfg.get("thorough_x", 1))
        if cfg.get("python"):
            cfg["python"](res, tier, seed, only)
        return core.finish(prop, tier, seed, res, cfg, t0)
    except core.HarnessError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        return 2


sys.exit(main())
