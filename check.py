#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property by deterministic simulation (see DESIGN.md)."""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import common  # noqa: E402
from vlib import specs   # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in specs.SPECS:
        print("usage: check.py <%s> [--replay FILE]" % "|".join(sorted(specs.SPECS)))
        return 2
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    print("%s: VERIF_SEED=%d VERIF_TIER=%s" % (prop, common.SEED, common.TIER))
    sys.stdout.flush()
    try:
        return specs.run(prop, replay)
    except common.CheckError as e:
        print("error: %s" % e)
        return 2


sys.exit(main())
