"""Print obligations of contracts whose name contains PAT, with their normal forms: dbg.py MODULE PAT [only-first]"""
import sys,os,time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/contracts'); sys.path.insert(0,'/repo')
os.makedirs('/tmp/scr',exist_ok=True); os.chdir('/tmp/scr')
import importlib, faulthandler
from dv import contract as K, solve as S, terms as T, loader, ctx as C
from dv import poly as P
faulthandler.dump_traceback_later(int(os.environ.get("DT","100")), exit=True)
def obligations(modname, pat):
    importlib.import_module(modname)
    for prop,cs in K.CONTRACTS.items():
        for c in cs:
            if pat in c.name:
                ld=loader.fresh()
                for cx,o,v in C.explore(lambda cx:c.fn(K.SymB(ld))):
                    print(c.name,o,v if o!="return" else "")
                    for ob in cx.obligations: yield cx,ob
for cx,ob in obligations(sys.argv[1], sys.argv[2]):
    name,goal,hyps=ob[:3]
    if goal is T.TRUE: continue
    t0=time.time()
    print("==",name,len(T.subterms([goal])),"subterms", {o:sum(u.op==o for u in T.subterms([goal])) for o in ("ite","sqrt","inv","atan2","asin","acos","sin","cos","psum")})
    hy=S.instantiate(S.flatten_and(hyps),[goal]); print("inst",round(time.time()-t0,2),len(hy))
    hy=[S.radnorm(h,[x for x in hy if x is not h]) for h in hy]; print("hyps",round(time.time()-t0,2))
    for h in hy[:12]: print("   H",T.show(h)[:200])
    g=S.radnorm(goal,hy); print("norm",round(time.time()-t0,2),len(T.subterms([g])),{o:sum(u.op==o for u in T.subterms([g])) for o in ("ite","sqrt","inv","atan2","asin","acos","sin","cos")})
    for u in T.subterms([g]):
        if u.op in("sqrt","inv","atan2","ite"): print("   ",u.op,T.show(u.args[0])[:300])
    if len(sys.argv)>3: break
