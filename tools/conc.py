#!/usr/bin/env python3
"""conc.py MODULE[,MODULE] [N]: development aid, not a check: run the equalities and inequalities of specs/MODULE concretely, to find obligations that are false statements.

Run with the interpreter that has the repository's dependencies (/opt/venv/bin/python)."""
import sys,types,ast,random,json,traceback,warnings,os,signal
warnings.simplefilter('ignore'); sys.path[:0]=['/repo','/verif']; sys.dont_write_bytecode=True
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
import numpy as np
S=types.ModuleType('spec'); sys.modules['spec']=S
cur=[None]; bad={}; n=[0]
def flat(v):
    if isinstance(v,(tuple,list)): 
        o=[]
        for x in v: o+=flat(x)
        return o
    if hasattr(v,'columns') and hasattr(v,'to_numpy'): return flat(v.to_numpy())
    a=np.asarray(v)
    if a.dtype==object: 
        if a.ndim==0: return []
        return flat(list(a))
    if a.dtype.kind not in 'biufc': return []
    return list(a.ravel())
def fail(label,msg):
    bad.setdefault((cur[0],label),[]).append(msg)
def eq(a,b,label='',dev=None,finding=None,tol=1e-7,strict=False,**k):
    n[0]+=1
    x,y=flat(a),flat(b)
    if finding: return
    if len(x)!=len(y):
        if len(x)==1: x=x*len(y)
        elif len(y)==1: y=y*len(x)
        else: return fail(label,'len %d %d'%(len(x),len(y)))
    s=max([abs(v) for v in y if v==v and abs(v)<1e300] or [0])
    for p,q in zip(x,y):
        if p!=p and q!=q or p==q: continue
        if p!=p or q!=q or abs(p-q)>max(tol,1e-7)*max(abs(p),abs(q))+1e-7*s: return fail(label,'%r vs %r'%(p,q))
def le(a,b,label='',finding=None,tol=1e-9,**k):
    if finding: return
    x,y=flat(a),flat(b)
    if len(x)==1: x=x*len(y)
    if len(y)==1: y=y*len(x)
    for p,q in zip(x,y):
        if not (p<=q or abs(p-q)<=1e-7*max(abs(p),abs(q),1e-30)+1e-9*0): return fail(label,'%r > %r'%(p,q))
S.eq=eq; S.le=le
def fresh(*a,**k): return None
for nm in 'differs fact copy scribble raises fresh statesame noeffects plotcalls drawn dtype sigof slope'.split(): setattr(S,nm,lambda *a,**k:None)
class Stop(Exception): pass
def st(*a,**k): raise Stop
S.raises=lambda *a,**k:None
def parse(a):
    s=a.strip(); integer=s.startswith('int ')
    if integer: s=s[4:]
    suf=None
    for x in ('list','series','tuple'):
        if s.endswith(x): suf=x; s=s[:-len(x)].strip()
    shp=()
    if '[' in s:
        s,r=s.split('[',1); shp=tuple(int(v) for v in r.rstrip(']').replace('x',',').split(',') if v.strip())
    lo,hi=s.split('..'); lo,hi=float(eval(lo)),float(eval(hi))
    return integer,lo,hi,shp,suf
def draw(p,r):
    integer,lo,hi,shp,suf=p
    def one():
        m=r.random()
        if m<.05: v=lo
        elif m<.1: v=hi
        else: v=r.uniform(lo,hi) if lo<=0 or hi/lo<50 else lo*(hi/lo)**r.random()
        return int(round(v)) if integer else v
    if not shp: return one()
    a=np.array([one() for _ in range(int(np.prod(shp)))]).reshape(shp)
    if suf in('list',): return a.tolist()
    if suf=='tuple': return tuple(a.tolist())
    if suf=='series':
        import pandas as pd; return pd.Series(a)
    return a
import importlib
wide=json.load(open('/verif/specs/wide.json')) if os.path.exists('/verif/specs/wide.json') else {}
N=int(sys.argv[2]) if len(sys.argv)>2 else 60
errs={}
def alarm(*a): raise TimeoutError
signal.signal(signal.SIGALRM,alarm)
for mod in sys.argv[1].split(','):
    try: m=importlib.import_module('specs.'+mod)
    except Exception as e: print('IMPORT',mod,e); continue
    for nm,f in list(vars(m).items()):
        if not nm.startswith('ob_'): continue
        cur[0]=mod+'.'+nm
        try: ps={k:parse(v) for k,v in f.__annotations__.items()}
        except Exception as e: errs[cur[0]]='parse %s'%e; continue
        r=random.Random(1)
        for t in range(N):
            args={k:draw(p,r) for k,p in ps.items()}
            before=len(bad)
            try:
                signal.alarm(10); f(**args); signal.alarm(0)
            except BaseException as e:
                signal.alarm(0)
                errs.setdefault(cur[0],'%s: %s @%s'%(type(e).__name__,str(e)[:100],traceback.extract_tb(e.__traceback__)[-1][:2])); 
                if t>3: break
            plt.close('all')
for k,v in bad.items(): print('FAIL',k,len(v),v[0])
for k,v in errs.items(): print('ERR',k,v)
print(n[0],'eqs')
