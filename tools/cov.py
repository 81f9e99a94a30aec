"""Lines of the code under contract that no contract executes (development aid)."""
import ast, glob, importlib.util, logging, os, sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo'); sys.path.insert(0,'/verif/contracts')
os.makedirs('/tmp/scr',exist_ok=True); os.chdir('/tmp/scr')
logging.disable(logging.CRITICAL)
from dv import contract as K
for p in sorted(glob.glob('/verif/contracts/c*.py')):
    spec=importlib.util.spec_from_file_location(os.path.basename(p)[:-3],p); m=importlib.util.module_from_spec(spec); sys.modules[spec.name]=m; spec.loader.exec_module(m)
m=sys.monitoring; m.use_tool_id(4,"cov"); hit={}
def line(code,no):
    f=code.co_filename
    if f.startswith('/repo/artist/'): hit.setdefault(f,set()).add(no)
    return m.DISABLE
m.register_callback(4,m.events.LINE,line); m.set_events(4,m.events.LINE)
for prop,cs in K.CONTRACTS.items():
    for c in cs:
        for s in range(int(sys.argv[1]) if len(sys.argv)>1 else 25): K.run_concrete(c,s)
m.set_events(4,0)
def lines(code,f):
    out={}
    for c in code.co_consts:
        if hasattr(c,'co_code'): out.update(lines(c,f))
    if code.co_name!='<module>': out.setdefault(code.co_qualname,set()).update(l for _,_,l in code.co_lines() if l and l!=code.co_firstlineno)
    return out
for f in sorted(glob.glob('/repo/artist/**/*.py',recursive=True)):
    src=open(f).read(); code=compile(src,f,'exec'); h=hit.get(f,set())
    for q,ls in lines(code,f).items():
        miss=sorted(ls-h)
        if not (ls&h): print("NONE  ",f[6:],q,len(ls)); continue
        if miss: print("part  ",f[6:],q,f"{len(ls&h)}/{len(ls)}",miss)
        else: print("full  ",f[6:],q)
