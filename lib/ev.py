"""Evaluation of extracted value graphs over a finite abstract domain.

The abstract points are chosen by a rule (order types, small extents, parities ...);
only the value graph computed by flow.py is evaluated, never the analysed program.
"""
from fractions import Fraction
from alg import *
import math
class Unknown(Exception): pass
class V:
    """number plus formal pointer bases"""
    __slots__=("n","b")
    def __init__(s,n=0,b=None): s.n=n; s.b=b or {}
    def add(s,o,k=1):
        b=dict(s.b)
        for r,c in o.b.items():
            x=b.get(r,0)+c*k
            if x==0: b.pop(r,None)
            else: b[r]=x
        return V(s.n+o.n*k,b)
    def num(s):
        if s.b: raise Unknown("pointer where a number is expected")
        return s.n
    def ptr(s):
        if len(s.b)==1:
            (r,c),=s.b.items()
            if c==1: return r,s.n
        return None
    def key(s): return (s.n,tuple(sorted(s.b.items(),key=repr)))
    def __repr__(s): return "V(%s,%s)"%(s.n,s.b)

class Ev:
    """leaf(kind,key,ev): value for atoms; loadf(base,off,key,ev) -> number | V | None"""
    def __init__(s,loadf=None,leaf=None,call=None,condf=None):
        s.loadf=loadf; s.leaf=leaf; s.callf=call; s.condf=condf; s.m={}; s.cm={}
    def __call__(s,p): return s.poly(p).num()
    def ptr(s,p):
        r=s.poly(p).ptr()
        if r is None: raise Unknown("not a pointer: "+show(p))
        return r
    def poly(s,p):
        acc=V(0)
        for m,c in p.t.items():
            if not m: acc=acc.add(V(c)); continue
            if len(m)==1 and m[0][1]==1:
                acc=acc.add(s.at(m[0][0]),c); continue
            x=c
            for a,e in m:
                v=s.at(a).num()
                if e<0:
                    if v==0: raise Unknown("division by zero")
                    x=x*Fraction(v)**e if not isinstance(v,float) else x*v**e
                else: x=x*v**e
            acc=acc.add(V(x))
        return acc
    def at(s,a):
        r=s.m.get(a)
        if r is not None: return r
        k=akey(a); r=None
        if s.leaf: r=s.leaf(k,s)
        if r is None: r=s.atom(k)
        if not isinstance(r,V): r=V(r)
        s.m[a]=r; return r
    def atom(s,k):
        t=k[0]
        if t=="ite": return s.poly(k[2] if s.cond(k[1]) else k[3])
        if t=="inv":
            v=s(k[1])
            if v==0: raise Unknown("division by zero")
            return 1/Fraction(v) if not isinstance(v,float) else 1/v
        if t=="fmul": return s(k[1])*s(k[2])
        if t in("arg","alloca","g"): return V(0,{k:1})
        if t=="b": return 1 if s.cond(k[1]) else 0
        if t=="idiv":
            a,b=s(k[1]),s(k[2])
            if b==0: raise Unknown("division by zero")
            q=abs(a)//abs(b); return q if (a<0)==(b<0) else -q
        if t=="irem":
            a,b=s(k[1]),s(k[2])
            if b==0: raise Unknown("division by zero")
            r=abs(a)%abs(b); return r if a>=0 else -r
        if t in("and","or","xor"):
            a,b=int(s(k[1])),int(s(k[2])); return a&b if t=="and" else a|b if t=="or" else a^b
        if t=="toint":
            v=s(k[1]); return math.trunc(v)
        if t=="load":
            pv=s.poly(k[1]); pt=pv.ptr()
            if pt is None: raise Unknown("load through "+show(k[1]))
            if s.loadf:
                r=s.loadf(pt[0],pt[1],k,s)
                if r is not None: return r
            if k[3]=="ptr": return V(0,{("mem",pt[0],pt[1]):1})
            raise Unknown("load "+show(k[1]))
        if t=="call":
            if s.callf:
                r=s.callf(k,s)
                if r is not None: return r
            n=k[1]; A=k[2]
            if n=="fabs": return abs(s(A[0]))
            if n in("exp","log","sqrt","pow","sin","cos","tan"):
                return getattr(math,n)(*[float(s(x)) for x in A])
            if k[-1]=="ptr": return V(0,{k:1})
        if t=="sqrtc": return math.sqrt(s(k[1]))
        raise Unknown(str(t))
    def cond(s,c):
        while c>1:
            v,l,h=bnode(c)
            try: c=h if s.cv(v) else l
            except Unknown:
                a=s.cond(l)
                if a==s.cond(h): return a
                raise
        return c==T
    def cv(s,v):
        if v in s.cm: return s.cm[v]
        k=ckey(v); r=None
        if s.condf: r=s.condf(k,s)
        if r is None:
            t=k[0]
            if t=="eq":
                x=s.poly(k[1]); r=(x.n==0 and not x.b)
            elif t=="spos": r=s(k[1])>0
            elif t=="ult":
                a=s.poly(k[1]).add(s.poly(k[2]),-1)
                if a.b: raise Unknown("pointer order")
                x,y=s.poly(k[1]),s.poly(k[2])
                if not x.b and not y.b:
                    xm,ym=(z.n if z.n>=0 else z.n+2**64 for z in (x,y)); r=xm<ym
                else: r=a.n<0
            elif t=="flt": r=s(k[1])<s(k[2])
            elif t=="feq": r=s(k[1])==0
            elif t=="nan": r=False
            elif t=="bool": r=bool(s(k[1]))
            elif t=="throws": r=False
            elif t=="overflow": r=False
            else: raise Unknown("condition "+t)
        s.cm[v]=r; return r
