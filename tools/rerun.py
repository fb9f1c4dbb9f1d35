"""replay one recorded scenario with tracebacks: tools/rerun.py <replay.json> [tid]"""
import json, sys, traceback
sys.path[:0] = ["/repo", "/verif/harness"]
import asktell, common
d = json.load(open(sys.argv[1]))
sc = dict(d["trace"]["scenario"], tid=1, key="x")
S = asktell.Session(sc)
orig = asktell.exc_name
def en(e):
    traceback.print_exception(e); return orig(e)
asktell.exc_name = en
r = S.run()
print({k: v for k, v in sc.items()})
ev = r["ev"][d["step"] - 1]
print({k: v for k, v in ev.items() if k != "st"})
