#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property for /repo's working tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf

MODULES = {}
for line in open(os.path.join(vf.V, "lib", "checks.txt")):
    if line.strip():
        p, m = line.split()
        MODULES[p] = m


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        vf.build()
        c = vf.Check(prop, tier, seed)
        try:
            getattr(importlib.import_module(MODULES[prop]), "check_" + prop)(c)
        except vf.Died as e:
            if e.rc == -9 or e.rc == 0:
                raise  # not posy's doing
            c.violation(str(e), {"op": e.op, "rc": e.rc})
        except vf.Refused as e:
            c.violation(str(e), {"refused": str(e)})
        return c.finish()
    except vf.ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
