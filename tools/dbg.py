"""Random sessions of all features against the specification (development aid)."""
import os; os.environ["VERIF_DEBUG"]="1"
import sys, random, time, pathlib, pprint
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "harness"))
from model import *; from gen import *; import run, tlc
seed0, n, prop = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
opts = eval("dict(%s)" % (sys.argv[4] if len(sys.argv) > 4 else ""))
sess=[]; t0=time.time(); data=[]
for k in range(n):
    rng = random.Random(f"{seed0}-{k}")
    try:
        g = Gen(rng, **opts).make_classes()
        prog = Program(g.decls, g.convs)
        ops=[]
        for _ in range(4):
            t = g.type()
            if rng.random() < .5:
                v = g.payload(t)
                if v is None: continue
                if rng.random()<.4: v = g.mutate(v, rng.random()<.3)
                d = "load"
            else:
                v = g.value(t)
                if v is None: continue
                if rng.random()<.25: v = g.mutate(v, rng.random()<.3)
                d = "dump"
            ops.append(dict(op="convert", m="", dir=d, v=v, t=t))
        s=dict(prog=prog, ops=ops, prop=prop)
        data.append(run.run_session(s)); sess.append(s)
    except Exception as e:
        import traceback; print("GEN", k); traceback.print_exc(limit=-4); 
        for i,x in list(getattr(locals().get("prog"),"src",{}).items()): print(x)
        sys.exit()
print("gen", time.time()-t0)
res, r = tlc.check_sessions(data)
print("tlc", r["wall"], r["states"])
from collections import Counter
print(Counter((a,b) for a,b in res.values()))
shown=0
for (i,l),(a,b) in sorted(res.items()):
    if b or a=="nofact":
        shown+=1
        if shown>4: break
        op=sess[i]["ops"][l]
        print("=====",i,l,a,b)
        for c,x in sess[i]["prog"].src.items(): print(x)
        print({k:v for k,v in enumerate(sess[i]["prog"].tables)})
        for k in ("dir","v","t"): print(k, op[k])
        j=r["out"].find('<<"DEBUG", %d, %d,'%(i+1,l+1)); print(r["out"][j:r["out"].find(">>",j+1) if 0 else j+1500].split("STEP")[0].split('<< "STEP')[0])
        print("OUT", {k:v for k,v in op["out"].items() if v})
