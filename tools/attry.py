#!/usr/bin/env python3
"""attry.py NAME NUM [SEED]: replays one shared scenario set (long, anything) and judges every clause of the family (dev helper)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core, at, atprops
name, num = sys.argv[1], int(sys.argv[2])
if len(sys.argv) > 3:
    os.environ["VERIF_SEED"] = sys.argv[3]
ctx = core.Ctx("P05", "quick")
s = atprops.Set(ctx, "P05")
getattr(atprops, name)(s, num, 77)
t = time.time()
res, bad = at.replay(ctx, s.scs, ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P19", "P21", "P22", "P23"])
print(len(res), "traces", time.time() - t, "s; events", sum(len(r["ev"]) for r in res), "max data", max(len(r["ev"]) for r in res))
for b in bad[:0]: pass
core.finish(ctx)
ctx.close()
