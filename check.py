#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   (see DESIGN.md)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = core.Ctx(prop, tier)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        try:
            mod.run(ctx)
        except core.Crashed:
            pass
        return core.finish(ctx, assumptions=getattr(mod, "ASSUMPTIONS", ()))
    except core.MachineryError as e:
        print(f"ERROR of the machinery ({prop}): {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
