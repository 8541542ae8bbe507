#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py --replay FILE | check.py --setup"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vt"))
sys.dont_write_bytecode = True
import build, core, checks


def main():
    if sys.argv[1] == "--setup":
        checks.setup()
        return 0
    if sys.argv[1] == "--list":
        print("\n".join(sorted(checks.CHECKS)))
        return 0
    if sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        print(rep["what"])
        h = rep.get("harness")
        if rep.get("argv"):
            r = core.run_raw(rep["argv"], rep["env"], 300, stdin=None)
            print(core.how(r))
            sys.stdout.flush()
            os.write(1, r.out[-3000:] + b"\n--\n" + r.err[-3000:] + b"\n")
            return 1
        if not isinstance(h, dict):
            print("replay by: VERIF_SEED=%s check.py %s %s" % (rep["seed"], rep["property"], rep["tier"]))
            return 0
        r = core.run_raw([core.Harness(**h).exe()] + rep.get("args", []), rep["env"], 300)
        print(r.viols, core.how(r))
        print(r.out.decode("utf-8", "replace")[-2000:])
        print(r.err.decode("utf-8", "replace")[-2000:])
        return 1 if r.viols or r.rc else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(pid, tier, seed)
    for k in core.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    try:
        checks.CHECKS[pid](ctx)
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    core.write_evidence(ctx)
    if ctx.violations:
        return 1
    if ctx.evaluations == 0:
        print("nothing was observed")
        return 2
    for k, v in ctx.min_seen.items():
        if ctx.stats.get(k, 0) < v:
            print("the monitors observed too little: %s is %d, expected at least %d" % (k, ctx.stats.get(k, 0), v))
            return 2
    print("%s holds on %d evaluations, %d distinct situations (%.1f s)" % (
        pid, ctx.evaluations, len(ctx.keys), __import__("time").time() - ctx.t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
