import os, sys, time, traceback; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
import vc, importlib
from vc import symbolic, contract
for m in "kinematics geometry shapes masks containers graph queries jets effects frames summaries".split():
    importlib.import_module("contracts."+m)
sel=sys.argv[1:]
for c in contract.REG:
    if c.mode=="concrete" or not any(c.key.startswith(s) for s in sel): continue
    t=time.time()
    try:
        r=symbolic.verify(c,"all",os.environ.get("REPO","/repo"),"quick",1)
    except BaseException as e:
        print(c.key,"CRASH",type(e),e); traceback.print_exc(limit=-8); continue
    st={}
    for o in r["obligations"]: st[o["status"]]=st.get(o["status"],0)+1
    print(f"{c.key}: {time.time()-t:.1f}s {st} {'BOUND '+str(r['bound']) if r['bound'] else ''} {r['unsupported'] or ''}",flush=True)
    n=0
    for o in r["obligations"]:
        if o["status"]!="proved":
            n+=1
            if n<=3: print("    ",o["status"],o["name"],o["kind"],o["detail"][:600],o.get("inputs"))
    import os
    if os.environ.get("VC_SLOW"):
        for o in sorted(r["obligations"],key=lambda o:-o["time"])[:12]: print("   ",round(o["time"],2),o["status"],o["backend"],o["name"],o["kind"])
