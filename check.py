#!/usr/bin/env python3
"""check.py <property>: decides one property of the fourleaf tree in /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import flv, props, tlc

def main():
    prop = sys.argv[1]
    ctx = flv.Ctx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        assumptions = props.CHECKS[prop](ctx) or props.ASSUME
        return flv.finish(ctx, assumptions)
    except (flv.ToolError, tlc.TlcError) as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
