#!/usr/bin/env python3
"""check.py run PROP [quick|thorough]   explore one property (builds first)
check.py replay FILE                  re-execute a replay file
check.py one PROP INDEX [LOGFILE]     re-execute run INDEX of the current seed and print what the oracle says"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)


def build():
    r = subprocess.run(["bash", os.path.join(V, "build", "build.sh")])
    if r.returncode:
        print("build failed")
        sys.exit(2)


def main():
    from vsim import explore as X
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    base = os.environ.get("VERIF_SEED", "1")
    if a[0] == "run":
        build()
        return X.explore(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"), base)
    if a[0] == "replay":
        build()
        hit, exact = X.replay(a[1], keep_log=a[2] if len(a) > 2 else None)
        if hit:
            print("VIOLATION property=%s replay=%s" % (json.load(open(a[1]))["property"], a[1]))
        return 1 if hit else 0
    if a[0] == "one":
        build()
        from vsim.runner import Runner, no_aslr
        no_aslr()
        mod = X.load(a[1])
        case, seed = X.make_case(mod, a[1], base, int(a[2]), os.environ.get("VERIF_TIER", "quick"))
        r = Runner()
        log = r.run(case, seed, keep_log=a[3] if len(a) > 3 else None)
        r.close()
        viol, info = mod.check(case, log)
        if len(a) > 3:
            open(a[3] + ".case", "w").write(case["config"] + "\n----\n" + case.scenario() + "\n" + "\n".join("== %s\n%s" % x for x in case.get("scripts", {}).items()))
        print(log.end, log.code, log.hash, info)
        for s, m in viol:
            print("[%s] %s" % (s, m[:3000]))
        return 0
    print(__doc__)
    return 2


sys.exit(main())
