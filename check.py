#!/usr/bin/env python3
"""python3 check.py <property id> : decide one property of /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from ticsa import build, load
from ticsa.report import Report
from ticsa.mir import Anchor


def main(pid):
    mod = importlib.import_module("ticsa.props." + pid.lower())
    rep = Report(pid, mod.RULE)
    try:
        prog = load.load()
    except build.BuildError as e:
        print(str(e))
        return 2
    rep.build_s = 0.0
    rep.count("functions", len(prog.fns))
    try:
        mod.run(prog, rep)
    except Anchor as e:
        rep.violations.append(("anchor:" + str(e), "a construct the rule is anchored on is missing", ""))
    except Exception as e:      # fail closed: a construct the rule cannot follow is not decided
        traceback.print_exc()
        rep.violations.append(("construct:" + type(e).__name__, "the rule met a construct it cannot follow: %s" % e, ""))
    return rep.finish(getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    if sys.argv[1] == "all":
        rc = 0
        for f in sorted(os.listdir(os.path.join(build.HERE, "props"))):
            if f.startswith("c") and f.endswith(".py"):
                try:
                    rc |= main(f[:-3].upper())
                except Exception:
                    traceback.print_exc()
                    rc = 2
        sys.exit(rc)
    sys.exit(main(sys.argv[1]))
