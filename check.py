#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
root = os.path.dirname(os.path.realpath(__file__))
sys.path[:0] = [os.path.join(root, "lib"), os.path.join(root, "checks")]
sys.dont_write_bytecode = True
import vlib

MODULES = {p: "core" for p in ("P01", "P02", "P03", "P04", "P06", "P07", "P17")}
MODULES.update({p: "names" for p in ("P08", "P09", "P11", "P23")})

MODULES["P05"] = "fields"
MODULES["P10"] = "regconc"
MODULES["P18"] = "containers"
MODULES["P19"] = "errors"
MODULES["P22"] = "primitives"
MODULES.update({p: "decl" for p in ("P20", "P21")})
MODULES["P16"] = "jsonconc"
MODULES.update({p: "jsondoc" for p in ("P12", "P13", "P14", "P15")})

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        code = importlib.import_module(MODULES[pid]).run(vlib.Check(pid))
    except vlib.CheckError as e:
        print("ERROR of the check: %s" % str(e)[-3000:])
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)

