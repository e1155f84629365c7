import sys, os, math
HERE=os.path.dirname(os.path.abspath(__file__)); os.environ["CCBLADE_REPO"]=HERE
sys.path.insert(0,"/verif/sa"); sys.path.insert(0,HERE)
import core, world, npmodel, pyinterp
import numpy as np
import importlib.util
mod = sys.argv[1] if len(sys.argv)>1 and not sys.argv[1].startswith("t") else "snip"
spec=importlib.util.spec_from_file_location("real",HERE+"/ccblade/%s.py"%mod); real=importlib.util.module_from_spec(spec); spec.loader.exec_module(real)
def cv(v):
    if isinstance(v, core.Node):
        if v.f is not None: return float(v.f)
        return repr(v)
    if isinstance(v, np.ndarray): return cv(v.tolist())
    if isinstance(v, (list,tuple)): return [cv(x) for x in v]
    if isinstance(v, (set,frozenset)): return sorted([cv(x) for x in v], key=repr)
    if isinstance(v, dict): return {cv(k): cv(x) for k,x in v.items()}
    if isinstance(v, (bool,np.bool_)): return bool(v)
    if isinstance(v, (int,float,np.integer,np.floating)): return float(v)
    if isinstance(v, (str,type(None))): return v
    return "<%s>" % type(v).__name__
def same(a,b):
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    if isinstance(a,dict) and isinstance(b,dict): return set(a)==set(b) and all(same(a[k],b[k]) for k in a)
    if isinstance(a,(float,bool)) and isinstance(b,(float,bool)): return math.isclose(a,b,rel_tol=1e-9,abs_tol=1e-12)
    return a==b
only=[a for a in sys.argv[1:] if a.startswith("t")]
for n in sorted((n for n in dir(real) if n[0]=="t" and n[1:].isdigit()), key=lambda s:int(s[1:])):
    if only and n not in only: continue
    want=getattr(real,n)()
    def fn():
        I=world.fresh(); m=I.load("ccblade.%s" % mod); return I.call(I.getattr(m,n),[],{})
    try:
        got=None
        for p in core.run_paths(fn):
            got=p.result if hasattr(p,"result") else p; break
        if isinstance(got, pyinterp.PyRaise): print(n,"RAISE",repr(got.exc)[:200], got.where); continue
    except BaseException as e:
        print(n,"EXC",type(e).__name__,str(e)[:200]); continue
    w,g=cv(want),cv(got)
    if not same(w,g):
        if isinstance(w,list) and isinstance(g,list) and len(w)==len(g):
            for i,(x,y) in enumerate(zip(w,g)):
                if not same(x,y): print(n,"DIFF item",i,"want",str(x)[:150],"got",str(y)[:150])
        else: print(n,"DIFF",str(w)[:200],str(g)[:200])
print("done")
