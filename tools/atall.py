"""development aid: many scenarios, all clauses"""
import sys, random, collections, time
sys.path.insert(0, "/verif")
from lib import at, core
ctx = core.Ctx("DEV", "quick")
N = int(sys.argv[1]) if len(sys.argv) > 1 else 60
ctx.seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
rng = random.Random(ctx.seed)
scs = []
t=time.time()
def add(num, salt, kw, **g):
    for ops in at.behaviours(ctx, num, salt=salt, **g):
        k = {a: (v() if callable(v) else v) for a, v in kw.items()}
        scs.append(at.scenario(rng, len(scs)+1, ops, **k))
ch = rng.choice
add(N, 1, dict(csv=lambda: ch([True, False])), Fixes={0,1,2,3,5,10}, Modes={"same","rev","part","shuf","arr"}, FModes={"new","dup","shuf"})
add(N//2, 2, dict(cons=lambda: ch(["gsum","ghalf","g2","heq","tight","heqg"]), space=lambda: ch(["real2"]), cls=lambda: ch(["BO","ParallelBO","NoisyBO","MOBO"])), Fixes={0,1,2}, Depth=6)
add(N//2, 3, dict(), Kinds={"step","stop","rec","save","load"}, Raises={0,0,1,2,3}, Depth=6)
add(N//2, 4, dict(cls=lambda: ch(["BO","ParallelBO","AnnealingBO","NoisyBO","SelfAdaptiveBO"]), budget=lambda: ch([5,9,13]), space=lambda: ch(at.REAL+at.MIXED)), Kinds={"run","stop","rec","tell","ask"}, Raises={0,0,0,5}, Depth=3)
add(N//2, 5, dict(), Kinds={"ask","tell","slcmp","savefail","load"}, Depth=6)
add(N//2, 6, dict(warm=lambda: dict(form=ch(["sol","shuf","arr","list"]), ys=ch([[1,2,3],[at.NAN,3],[at.NAN],[2,2,2,2]]))), Depth=5)
print(len(scs), time.time()-t)
res, bad = at.replay(ctx, scs, None)
print(time.time()-t)
c = collections.Counter(b["clause"] for b in bad)
print(c)
seen=set()
for b in bad:
    if b["clause"] in seen: continue
    seen.add(b["clause"])
    ev = b["trace"]["ev"][b["step"]-1]
    print("==", b["clause"], b["trace"]["key"], "step", b["step"], {k:v for k,v in b["trace"]["scenario"].items() if k!="ops"})
    print("   op", ev["op"], {k:v for k,v in ev.items() if k not in("st","sa","sb","pa","qa")})
    print("   prev", b["trace"]["ev"][b["step"]-2]["st"] if b["step"]>1 else None)
    print("   st", ev["st"])
exc=collections.Counter((e["op"],e.get("exc")) for r in res for e in r["ev"])
print(exc)
