#!/usr/bin/env python3
"""check.py <property id> [--thorough] : decides one property on the current /repo working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
def main():
    pid = sys.argv[1]
    import importlib
    mod = {"M": "c_mesh", "R": "c_mesh", "P": "c_part", "S": "c_spatial", "O": "c_ode", "L": "c_linalg", "C": "c_config", "W": "c_output", "E": "c_program"}[pid[0]]
    try:
        m = importlib.import_module(mod)
        ck = vlib.Check(pid)
        getattr(m, "check_" + pid)(ck)
        sys.exit(ck.finish())
    except vlib.CheckError as e:
        print("CHECK ERROR:", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
if __name__ == "__main__": main()
