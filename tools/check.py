#!/usr/bin/env python3
"""check.py <property> : decides a property on /repo's working tree (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def registry():
    import importlib
    reg = {}
    for m in ("g_parser", "g_server", "g_ws", "g_msg", "g_link", "g_units", "g_e2e"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        reg.update(mod.CHECKS)
    return reg


def main():
    prop = sys.argv[1]
    c = vlib.Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        registry()[prop](c)
    except vlib.Broken as e:
        if not c.violations:
            print("CHECK BROKEN:", e)
            c.evidence()
            return 2
    except Exception:
        traceback.print_exc()
        if not c.violations:
            return 2
    return c.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
