#!/usr/bin/env python3
"""check.py <property id>: decides one property (see DESIGN.md).
Environment: VERIF_SEED, VERIF_TIER (quick | thorough)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import fw
if __name__ == "__main__":
    try:
        rc = fw.main(sys.argv)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
