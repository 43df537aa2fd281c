#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   - decides one property on the working tree of /repo."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import vlib

MODULES = ["rpa_checks", "rex_checks", "rvm_checks", "rlib_checks", "json_checks", "rpc_checks", "tool_checks"]


def all_checks():
    out = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "lib", m + ".py")):
            out.update(__import__(m).CHECKS)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    checks = all_checks()
    ck = vlib.Check(prop, tier)
    try:
        try:
            checks[prop](ck)
        except vlib.Hangs as h:
            for line, why in h.args[0]:
                ck.violation("%s on %s" % (why, line), {"line": line, "why": why})
        rc = ck.finish()
    except vlib.MachineryError as e:
        print("MACHINERY %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
