#!/usr/bin/env python3
"""check.py <property> : runs the check of one property (tier and seed from VERIF_TIER / VERIF_SEED).
check.py <property> --replay <file> : re-runs a saved failure."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp

def main():
    prop = sys.argv[1]
    import registry
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(registry.replay(prop, sys.argv[3]))
    ck = vp.Check(prop)
    try:
        registry.run(ck)
    except Exception:
        traceback.print_exc()
        if not ck.violations:
            sys.exit(3)
    sys.exit(ck.finish())

main()
