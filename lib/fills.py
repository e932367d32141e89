"""What a function writes into an array: entries and runs of entries, in program order."""
from alg import *
from flow import *
class Fill:
    """entries lo, lo+step, ... (n of them; one entry when n is None) receive val(k), k counting from 0"""
    def __init__(s,e,lo,step,n,L,val): s.e=e; s.lo=lo; s.step=step; s.n=n; s.L=L; s.v=val
    def val(s,k):
        return subst(s.v,{("lv",s.L):k}) if s.L is not None else s.v
    def __repr__(s): return "Fill(%s step %s n %s = %s)"%(show(s.lo),s.step,show(s.n) if s.n is not None else None,show(s.v)[:80])
def fills(fl,root,sz=8,effects=None):
    """None when a write to the array has a shape not understood"""
    out=[]
    for e in (effects if effects is not None else fl.effects):
        if e.kind=="store":
            if e.root!=root: continue
            if e.sz!=sz: return None
            off=e.off.scale(Fraction(1,sz))
            ls=[L for L in e.loops if ("lv",L) in deep_atoms(off) or ("lv",L) in deep_atoms(e.val)]
            inner=[L for L in e.loops]
            if not inner: out.append(Fill(e,off,0,None,None,e.val)); continue
            if len(inner)!=1: return None
            L=inner[0]; a=atom(("lv",L))
            st=ZERO
            for m,c in off.t.items():
                if dict(m).get(a,0)==1 and len(m)==1: st=st+const(c)
                elif dict(m).get(a,0): return None
            lo=off-st*var(("lv",L))
            if ("lv",L) in deep_atoms(lo) or not st.isconst(): return None
            n=fl.loopinfo.get(L,{}).get("trip")
            if n is None: return None
            out.append(Fill(e,lo,st.cval(),n,L,e.val))
        elif e.kind in("memcpy",):
            if fl.root(e.dst)==root: return None
        elif e.kind=="memset":
            if fl.root(e.dst)==root:
                off=(e.dst-var(root)).scale(Fraction(1,sz))
                if e.loops or not(e.val.isconst() and e.val.cval()==0): return None
                out.append(Fill(e,off,1,e.len.scale(Fraction(1,sz)),("memset",id(e)),ZERO))
    return out

def visits(fl,e,exprs,leaf=None,loadf=None,guard=True,limit=20000):
    """tuples of values of `exprs` over all iterations in which effect e happens, for one abstract input"""
    from ev import Ev,V,Unknown
    out=[]; env={}
    def lf(k,ev):
        if k[0]=="lv":
            if k[1] in env: return env[k[1]]
            raise Unknown("loop variable outside its loop")
        return leaf(k,ev) if leaf else None
    n=[0]
    def rec(ls):
        if not ls:
            n[0]+=1
            if n[0]>limit: raise Unknown("too many iterations")
            ev=Ev(loadf=loadf,leaf=lf)
            if guard and not ev.cond(e.guard): return
            out.append(tuple(ev.poly(x).n if not ev.poly(x).b else ev.poly(x).key() for x in exprs)); return
        L=ls[0]; t=fl.loopinfo.get(L,{}).get("trip")
        if t is None: raise Unknown("trip count")
        c=Ev(loadf=loadf,leaf=lf)(t)
        for x in range(max(0,int(c))):
            env[L]=x; rec(ls[1:])
        env.pop(L,None)
    rec(list(e.loops)); return out
