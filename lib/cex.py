"""Implications between extracted conditions: proved on the decision diagram, or refuted by an assignment of the leaves."""
from ev import *
from flow import *
import random
MATH={"fabs","sqrt","exp","log","pow","sin","cos","tan"}
def under(p,g):
    """p with the choices decided by g made"""
    def am(k):
        if k[0]=="ite":
            if bimp(g,k[1]): return rw.poly(k[2])
            if band(g,k[1])==F: return rw.poly(k[3])
        if k[0]=="b":
            if bimp(g,k[1]): return ONE
            if band(g,k[1])==F: return ZERO
        return None
    rw=Rewriter(am); return rw.poly(p)
def tob(p):
    """truth value of a flag"""
    if p.isconst(): return T if p.cval() else F
    k=p.single()
    if k and k[0]=="ite": return bor(band(k[1],tob(k[2])),band(bnot(k[1]),tob(k[3])))
    if k and k[0]=="b": return k[1]
    if len(p.t)>1:
        c=p.t.get((),0); q=p-const(c)
        if len(q.t)==1:
            (m,cc),=q.t.items()
            if len(m)==1 and m[0][1]==1 and cc in(1,-1,Fraction(1),Fraction(-1)):
                k=akey(m[0][0])
                if k[0] in("b","ite") and c in(1,-1,0) and cc*1+c in(0,1): return bnot(tob(var(k))) if cc==-1 else tob(var(k))
    return cvar(("bool",p))
VALS=[0,1,-1,2,-2,3,Fraction(1,2),Fraction(-3,2),5,-7,Fraction(1,10**6),11]
def find(g,tries=400,seed=1,vals=VALS,fix=None,leafs=None):
    """an assignment of the leaves making g true, or None"""
    if g==F: return None
    R=random.Random(seed)
    for t in range(tries):
        m={}
        def leaf(k,ev):
            if fix:
                r=fix(k,ev)
                if r is not None: return r
            if k[0]=="call" and k[1] in MATH: return None
            if k[0] in("load","call","mu","arg","lv","g"):
                if k not in m: m[k]=R.choice(vals)
                return m[k]
            return None
        try:
            if Ev(leaf=leaf).cond(g): return m
        except (Unknown,ValueError,OverflowError,ZeroDivisionError): continue
    return None
def implies(g,c,**kw):
    """True when proved, False when refuted by an assignment, None otherwise"""
    if bimp(g,c): return True
    b=band(g,bnot(c))
    return False if find(b,**kw) is not None else None
