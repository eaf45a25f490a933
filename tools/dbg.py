import sys; sys.path.insert(0,'/verif')
import importlib,pkgutil,obligations
from mfsa.check import *
import mfsa.check as C
for m in pkgutil.iter_modules(obligations.__path__): importlib.import_module('obligations.'+m.name)
def dd(a,b,path=''):
    if a is b: return
    if type(a)!=type(b): print(path,'TYPE',a,b); return
    if isinstance(a,E):
        ta=[m for m in a.terms if a.terms[m]!=b.terms.get(m)]; tb=[m for m in b.terms if b.terms[m]!=a.terms.get(m)]
        if len(ta)==1 and len(tb)==1 and a.terms[ta[0]]==b.terms[tb[0]]: return dd(ta[0],tb[0],path+'/t')
        print(path,'E',len(ta),len(tb)); 
        for m in ta[:3]: print('   A',a.terms[m],str(show_mono(m))[:700])
        for m in tb[:3]: print('   B',b.terms[m],str(show_mono(m))[:700])
        return
    if isinstance(a,Mono):
        ia=[p for p in a.items if p not in b.items]; ib=[p for p in b.items if p not in a.items]
        if len(ia)==len(ib)==1:
            dd(ia[0][0],ib[0][0],path+'/f'); 
            if isinstance(ia[0][1],E): dd(ia[0][1],ex(ib[0][1]),path+'/exp')
            return
        print(path,'MONO',len(ia),len(ib)); print('   A',[(show_atom(x)[:300],e) for x,e in ia][:4]); print('   B',[(show_atom(x)[:300],e) for x,e in ib][:4]); return
    if isinstance(a,X.Atom):
        if a.kind!=b.kind or len(a.args)!=len(b.args): print(path,'ATOM',show_atom(a)[:300],'||',show_atom(b)[:300]); return
        return dd(a.args,b.args,path+'/'+a.kind+(':'+str(a.args[0]) if a.kind=='fn' else ''))
    if isinstance(a,tuple):
        if len(a)!=len(b): print(path,'LEN',a,b); return
        for x,y in zip(a,b): dd(x,y,path)
        return
    if isinstance(a,(Lam,)): dd(a.body,b.body,path+'/lam'); return
    if isinstance(a,X.ScanDef):
        print(path,'scan',len(a.inits),len(b.inits))
        dd(a.inits,b.inits,path+'/init'); dd(a.updates,b.updates,path+'/up'); dd(a.out,b.out,path+'/out'); return
    if a!=b: print(path,a,b)
orig=Ctx._eval
def ev(self,label,A,B,x,y,vs,tol):
    print('DIFF',label); dd(x,y)
Ctx._eval=ev
sys.setrecursionlimit(100000)
for o in OBLIGATIONS:
    if sys.argv[1] in o.name:
        c=Ctx(o,o.sizes[int(sys.argv[2]) if len(sys.argv)>2 else 0],'quick',None); o.fn(c); print(o.name,[(r[0],r[1]) for r in c.results])
