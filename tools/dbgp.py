"""Random sessions of a profile against the specification (development aid): dbgp.py PROP SEED N [show]"""
import os; os.environ["VERIF_DEBUG"]="1"
import sys, time, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "harness"))
import sessions, tlc
from collections import Counter
prop, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]); show = int(sys.argv[4]) if len(sys.argv)>4 else 2
t0=time.time(); items=sessions.generate(prop, seed, n)
bad=[d for x,d in items if x is None]
print(prop, "gen", round(time.time()-t0,1), "skipped", len(bad)); 
for b in [b for b in bad if b.startswith("error")][:2]: print(b)
items=[x for x in items if x[0]]
res, r = tlc.check_sessions([d for d,_ in items])
print("tlc", round(r["wall"],1), r["states"], len(res))
print(Counter((a,b) for a,b in res.values() if a!='-'))
shown=0
for (i,l),(a,b) in sorted(res.items()):
    if b:
        shown+=1
        if shown>show: break
        d=items[i][1]; op=d["ops"][l]
        print("=====",d["key"],l,a,b, d["opts"])
        for x in d["source"]: print(x)
        print(d["tables"]); print({k:v for k,v in d["convs"].items()})
        for o in d["ops"][:l]:
            if o["op"] not in ("convert","roundtrip","twice"): print("   ", o)
        for k in ("op","m","dir","with","t","v","filename"): print("  ",k, op.get(k))
        j=r["out"].find('<<"DEBUG", %d, %d,'%(i+1,l+1)); k=r["out"].find('<<"STEP"',j+5); print(r["out"][j:min(k if k>0 else j+1500,j+1500)])
        for o in op.get("outs", [op.get("out")]): print("  OUT", {k:v for k,v in o.items() if v})
