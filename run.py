#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True

from common import CheckError, Ctx  # noqa: E402
import registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier)
    try:
        registry.CHECKS[prop](ctx)
        return ctx.finish()
    except CheckError as e:
        print("ERROR", e)
        if ctx.violations:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
