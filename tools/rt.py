import sys,os
import faulthandler; faulthandler.dump_traceback_later(int(__import__("os").environ.get("DT","100000")), exit=True)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
os.makedirs('/tmp/scr',exist_ok=True); os.chdir('/tmp/scr')
import importlib.util, glob, logging
logging.disable(logging.CRITICAL)
from dv import contract as K
pat=sys.argv[1]
K.ALL="-a" in sys.argv
sys.path.insert(0,'/verif/contracts')
for p in sorted(glob.glob('/verif/contracts/*.py')):
    spec=importlib.util.spec_from_file_location(os.path.basename(p)[:-3],p); m=importlib.util.module_from_spec(spec); sys.modules[spec.name]=m; spec.loader.exec_module(m)
import time
for prop,cs in K.CONTRACTS.items():
    for c in cs:
        if pat in f"{prop}/{c.name}":
            r=K.run_symbolic(c,log=print)
            st={}
            for o in r["obligations"]: st[(o["status"],o["backend"])]=st.get((o["status"],o["backend"]),0)+1
            print(prop,c.name,"->",r["status"],f'{r["wall"]:.1f}s paths={r["paths"]}',st,r["note"], r["functions"] if "-f" in sys.argv else "")
            if r["status"]=="unsupported": print(r.get("tb",""))
            for o in r["obligations"]:
                if o["status"]=="raise": print(o["name"],o["tb"])
            n={}
            t0=time.time()
            for s in range(30):
                k,d,rec,np_=K.run_concrete(c,s)
                n[k]=n.get(k,0)+1
                if k=="fail" and n[k]<=1: print("  CONCRETE FAIL",d,str(rec)[:800])
            print("   concrete",n,f"{time.time()-t0:.1f}s")
