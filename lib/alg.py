"""Canonical values: Laurent polynomials over interned atoms, and BDD conditions.

Everything the dataflow engine computes is a Poly (sum of rational coefficients
times monomials in atoms).  Atoms are interned tuples, e.g. ("load",addr,ver,ty),
("arg",k), ("call",name,args,site), ("ite",cond,a,b), ("lv",loop), ("inv",poly).
Conditions are reduced ordered BDDs over interned condition atoms.
"""
from fractions import Fraction
import math, struct, sys
sys.setrecursionlimit(200000)

_atoms={}; _alist=[]
def atom(key):
    i=_atoms.get(key)
    if i is None:
        i=len(_alist); _atoms[key]=i; _alist.append(key)
    return i
def akey(i): return _alist[i]

class Poly:
    __slots__=("t","_h","_k")
    def __init__(self,t):
        self.t=t; self._h=None; self._k=None
    def key(self):
        if self._k is None: self._k=frozenset(self.t.items())
        return self._k
    def __hash__(self):
        if self._h is None: self._h=hash(self.key())
        return self._h
    def __eq__(self,o):
        if self is o: return True
        return isinstance(o,Poly) and self.t==o.t
    def __ne__(self,o): return not self==o
    # -- arithmetic
    def __add__(self,o):
        if isinstance(o,(int,Fraction)): o=const(o)
        if len(o.t)>len(self.t): self,o=o,self
        t=dict(self.t)
        for m,c in o.t.items():
            n=t.get(m,0)+c
            if n==0: t.pop(m,None)
            else: t[m]=n
        return Poly(t)
    __radd__=__add__
    def __neg__(self): return Poly({m:-c for m,c in self.t.items()})
    def __sub__(self,o):
        if isinstance(o,(int,Fraction)): o=const(o)
        return self+(-o)
    def __rsub__(self,o): return (-self)+o
    def scale(self,k):
        if k==0: return ZERO
        if k==1: return self
        return Poly({m:c*k for m,c in self.t.items()})
    def __mul__(self,o):
        if isinstance(o,(int,Fraction)): return self.scale(o)
        if len(self.t)==1 and () in self.t: return o.scale(self.t[()])
        if len(o.t)==1 and () in o.t: return self.scale(o.t[()])
        t={}
        for m1,c1 in self.t.items():
            for m2,c2 in o.t.items():
                m=mmul(m1,m2)
                n=t.get(m,0)+c1*c2
                if n==0: t.pop(m,None)
                else: t[m]=n
        return Poly(t)
    __rmul__=__mul__
    def pow(self,n):
        if n<0: return self.inv().pow(-n)
        r=ONE; b=self
        while n:
            if n&1: r=r*b
            b=b*b; n>>=1
        return r
    def inv(self):
        if len(self.t)==1:
            (m,c),=self.t.items()
            return Poly({tuple((a,-e) for a,e in m):Fraction(1)/c})
        if not self.t: return var(("inf",))
        # normalise: leading coefficient 1
        lead=min(self.t.items(),key=lambda x:mkey(x[0]))[1]
        p=self.scale(Fraction(1)/lead)
        return Poly({((atom(("inv",p)),1),):Fraction(1)/lead})
    def __truediv__(self,o):
        if isinstance(o,(int,Fraction)): return self.scale(Fraction(1)/o)
        return self*o.inv()
    # -- queries
    def isconst(self): return not self.t or (len(self.t)==1 and () in self.t)
    def cval(self): return self.t.get((),0) if self.isconst() else None
    def atoms(self):
        s=set()
        for m in self.t:
            for a,e in m: s.add(a)
        return s
    def single(self):
        """atom key if this is exactly one atom with coefficient 1, else None"""
        if len(self.t)==1:
            (m,c),=self.t.items()
            if c==1 and len(m)==1 and m[0][1]==1: return akey(m[0][0])
        return None
    def __repr__(self): return show(self)

def mkey(m): return m
def mmul(a,b):
    if not a: return b
    if not b: return a
    i=j=0; r=[]
    la,lb=len(a),len(b)
    while i<la and j<lb:
        x=a[i]; y=b[j]
        if x[0]==y[0]:
            e=x[1]+y[1]
            if e: r.append((x[0],e))
            i+=1; j+=1
        elif x[0]<y[0]: r.append(x); i+=1
        else: r.append(y); j+=1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

_cc={}
def const(v):
    if isinstance(v,float): v=fr(v)
    p=_cc.get(v)
    if p is None:
        p=Poly({():v} if v!=0 else {}); _cc[v]=p
    return p
ZERO=const(0); ONE=const(1)
def var(key): return Poly({((atom(key),1),):1})

def fr(d):
    """simplest rational that rounds to the double d"""
    if d!=d or d in (float("inf"),float("-inf")): return None
    if d==int(d) and abs(d)<2**53: return int(d)
    f=Fraction(d)
    # continued fraction expansion until it rounds back
    x=abs(f); h0,h1=0,1; k0,k1=1,0; n=x
    for _ in range(64):
        a=n.numerator//n.denominator
        h0,h1=h1,a*h1+h0; k0,k1=k1,a*k1+k0
        if float(Fraction(h1,k1))==abs(d): 
            # only treat short fractions as exact reconstructions
            r=Fraction(h1,k1)
            return r if d>0 else -r
        n=n-a
        if n==0: break
        n=1/n
    return f

# ---------------------------------------------------------------- BDDs
# node: 0=False,1=True, else (var,lo,hi)
_bn=[None,None]; _bu={}; _cv={}; _cl=[]
F,T=0,1
def _mk(v,lo,hi):
    if lo==hi: return lo
    k=(v,lo,hi); r=_bu.get(k)
    if r is None:
        r=len(_bn); _bn.append(k); _bu[k]=r
    return r
def cvar(key):
    """condition variable for an interned condition atom"""
    i=_cv.get(key)
    if i is None:
        i=len(_cl); _cv[key]=i; _cl.append(key)
    return _mk(i,F,T)
def ckey(v): return _cl[v]
_ic={}
def bite(f,g,h):
    if f==T: return g
    if f==F: return h
    if g==h: return g
    if g==T and h==F: return f
    k=(f,g,h); r=_ic.get(k)
    if r is not None: return r
    v=min(_bn[x][0] for x in (f,g,h) if x>1)
    def co(x,b):
        if x>1 and _bn[x][0]==v: return _bn[x][2 if b else 1]
        return x
    r=_mk(v,bite(co(f,0),co(g,0),co(h,0)),bite(co(f,1),co(g,1),co(h,1)))
    _ic[k]=r; return r
def band(*a):
    r=T
    for x in a: r=bite(r,x,F)
    return r
def bor(*a):
    r=F
    for x in a: r=bite(r,T,x)
    return r
def bnot(a): return bite(a,F,T)
def bimp(a,b): return bite(a,b,T)==T
def bvars(f,seen=None):
    s=set(); st=[f]; seen=set()
    while st:
        x=st.pop()
        if x<2 or x in seen: continue
        seen.add(x); v,l,h=_bn[x]; s.add(v); st+=[l,h]
    return s
def brestrict(f,v,val,memo=None):
    if memo is None: memo={}
    if f<2: return f
    if f in memo: return memo[f]
    w,l,h=_bn[f]
    if w==v: r=h if val else l
    elif w>v and False: r=f
    else: r=_mk(w,brestrict(l,v,val,memo),brestrict(h,v,val,memo))
    memo[f]=r; return r
def bcofac_simplify(f,g):
    """simplify f assuming g (generalised cofactor by literals only)"""
    # literals implied by g
    for v in bvars(g):
        if v not in bvars(f): continue
        c=_mk(v,F,T)
        if bimp(g,c): f=brestrict(f,v,True)
        elif bimp(g,bnot(c)): f=brestrict(f,v,False)
    if band(f,g)==F: return F
    if bimp(g,f): return T
    return f
def bcubes(f,limit=200):
    """disjoint cubes of f as lists of (var,bool)"""
    out=[]
    def rec(x,acc):
        if len(out)>=limit: return
        if x==F: return
        if x==T: out.append(list(acc)); return
        v,l,h=_bn[x]
        acc.append((v,False)); rec(l,acc); acc.pop()
        acc.append((v,True)); rec(h,acc); acc.pop()
    rec(f,[]); return out
def bnode(f): return _bn[f]

# ---------------------------------------------------------------- condition constructors
def _lead(p):
    return min(p.t.items(),key=lambda x:mkey(x[0]))[1] if p.t else 0
def ceq(a,b):
    d=a-b
    if d.isconst(): return T if d.cval()==0 else F
    its=[(m,c) for m,c in d.t.items() if len(m)==1 and m[0][1]==1 and akey(m[0][0])[0]=="ite"]
    if len(its)==1:
        (m,c),=its; k=akey(m[0][0]); rest=d-Poly({m:c})
        if (rest.isconst() and (k[2].isconst() or k[3].isconst())):
            return bite(k[1],ceq(rest+k[2].scale(c),ZERO),ceq(rest+k[3].scale(c),ZERO))
    k=d.single() or (-d).single()
    if k is not None and k[0]=="call" and k[1] in("_Znwm","_Znam"): return F
    if _lead(d)<0: d=-d
    return cvar(("eq",d))
def cult(a,b):
    """unsigned a<b"""
    if a==b: return F
    if b.isconst() and b.cval()==1: return ceq(a,ZERO)
    if b.isconst() and b.cval()==0: return F
    if a.isconst() and a.cval()==0: return bnot(ceq(b,ZERO))
    if a.isconst() and b.isconst():
        x,y=a.cval(),b.cval()
        if x>=0 and y>=0: return T if x<y else F
        return T if (x>=0 and y<0) else F if (x<0 and y>=0) else (T if x<y else F)
    return cvar(("ult",a,b))
def cslt(a,b):
    d=b-a
    if d.isconst(): return T if d.cval()>0 else F
    return cvar(("spos",d))     # d>0 as mathematical integers
def cflt(a,b):
    d=b-a
    if d.isconst(): return T if d.cval()>0 else F
    return cvar(("flt",a,b))
def cfeq(a,b):
    d=a-b
    if d.isconst(): return T if d.cval()==0 else F
    if _lead(d)<0: d=-d
    return cvar(("feq",d))

def ite(c,a,b):
    if c==T: return a
    if c==F: return b
    if a==b: return a
    # nested with the same condition
    ka=a.single()
    if ka and ka[0]=="ite" and ka[1]==c: a=ka[2]
    kb=b.single()
    if kb and kb[0]=="ite" and kb[1]==c: b=kb[3]
    if kb and kb[0]=="ite" and kb[2]==a:   # ite(c,a,ite(d,a,x)) = ite(c|d,a,x)
        return ite(bor(c,kb[1]),a,kb[3])
    if ka and ka[0]=="ite" and ka[3]==b:   # ite(c,ite(d,x,b),b) = ite(c&d,x,b)
        return ite(band(c,ka[1]),ka[2],b)
    # canonical polarity
    nc=bnot(c)
    if nc<c: c,a,b=nc,b,a
    return var(("ite",c,a,b))

# ---------------------------------------------------------------- deep rewriting
def rebuild_key(k,f,fc):
    """rebuild an atom/condition key tuple, applying f to polys, fc to bdds"""
    if k[0]=="ite":
        return None
    ch=False; out=[]
    for x in k:
        y=x
        if isinstance(x,Poly): y=f(x)
        elif isinstance(x,tuple): 
            y=rebuild_tuple(x,f,fc)
        if y is not x: ch=True
        out.append(y)
    return tuple(out) if ch else k
def rebuild_tuple(x,f,fc):
    ch=False; out=[]
    for y in x:
        z=y
        if isinstance(y,Poly): z=f(y)
        elif isinstance(y,tuple): z=rebuild_tuple(y,f,fc)
        if z is not y: ch=True
        out.append(z)
    return tuple(out) if ch else x

class Rewriter:
    """deep substitution. amap(atomkey)->Poly or None; cmap(condkey)->True/False/None/bdd"""
    def __init__(self,amap=None,cmap=None):
        self.amap=amap; self.cmap=cmap; self.pm={}; self.am={}; self.bm={}; self.cm={}
    def poly(self,p):
        r=self.pm.get(p)
        if r is not None: return r
        ch=False; acc=None
        amap={}
        for a in p.atoms():
            x=self.at(a)
            amap[a]=x
            if x is not None: ch=True
        if not ch: r=p
        else:
            acc=ZERO; same={}
            for m,c in p.t.items():
                if all(amap[a] is None for a,e in m): same[m]=c; continue
                q=const(c); rest=[]
                for a,e in m:
                    if amap[a] is None: rest.append((a,e))
                    else: q=q*amap[a].pow(e)
                if rest: q=q*Poly({tuple(rest):1})
                acc=acc+q
            r=acc+Poly(same)
        self.pm[p]=r; return r
    def at(self,a):
        if a in self.am: return self.am[a]
        k=akey(a); r=None
        if self.amap:
            r=self.amap(k)
        if r is None:
            if k[0]=="ite":
                c=self.cond(k[1]); x=self.poly(k[2]); y=self.poly(k[3])
                if c!=k[1] or x is not k[2] or y is not k[3]:
                    r=ite(c,x,y)
            elif k[0]=="inv":
                x=self.poly(k[1])
                if x is not k[1]: r=x.inv()
            elif k[0]=="b":
                c=self.cond(k[1])
                if c!=k[1]: r=ite(c,ONE,ZERO)
            else:
                nk=rebuild_key(k,self.poly,self.cond)
                if nk is not k: r=mkatom(nk)
        if r is not None and r.single()==k: r=None
        self.am[a]=r; return r
    def cond(self,f):
        if f<2: return f
        if f in self.bm: return self.bm[f]
        v,l,h=_bn[f]
        c=self.cv(v)
        r=bite(c,self.cond(h),self.cond(l))
        self.bm[f]=r; return r
    def cv(self,v):
        if v in self.cm: return self.cm[v]
        k=ckey(v); r=None
        if self.cmap: r=self.cmap(k)
        if r is None:
            nk=rebuild_key(k,self.poly,self.cond)
            r=mkcond(nk) if nk is not k else _mk(v,F,T)
        else:
            r=T if r is True else F if r is False else r
        self.cm[v]=r; return r

_folders=[]
def mkatom(k):
    for f in _folders:
        r=f(k)
        if r is not None: return r
    return var(k)
def mkcond(k):
    if k[0]=="eq": return ceq(k[1],ZERO)
    if k[0]=="ult": return cult(k[1],k[2])
    if k[0]=="spos": return cslt(ZERO,k[1])
    if k[0]=="flt": return cflt(k[1],k[2])
    if k[0]=="feq": return cfeq(k[1],ZERO)
    return cvar(k)

def subst(p,m):
    """substitute atoms: m maps atom key -> Poly"""
    return Rewriter(lambda k:m.get(k)).poly(p)

def conds_in(p,acc=None):
    """all condition variables occurring (deeply) in ite atoms of p"""
    acc=set() if acc is None else acc
    seen=set()
    def walk(x):
        if isinstance(x,Poly):
            if x in seen: return
            seen.add(x)
            for a in x.atoms(): walk_k(akey(a))
        elif isinstance(x,tuple):
            for y in x: walk(y)
    def walk_k(k):
        if k in seen: return
        seen.add(k)
        if k[0] in("ite","b"):
            for v in bvars(k[1]):
                acc.add(v); walk_k(ckey(v))
        for y in k[1:]:
            if isinstance(y,(Poly,tuple)): walk(y)
    walk(p); return acc

def deep_atoms(p):
    """all atom keys occurring anywhere inside p (addresses, conditions, ...)"""
    out=set(); seen=set()
    def walk(x):
        if isinstance(x,Poly):
            if x in seen: return
            seen.add(x)
            for a in x.atoms(): wk(akey(a))
        elif isinstance(x,tuple):
            for y in x: walk(y)
    def wk(k):
        if k in out: return
        out.add(k)
        if k[0] in("ite","b"):
            for v in bvars(k[1]):
                for y in ckey(v)[1:]:
                    if isinstance(y,(Poly,tuple)): walk(y)
        for y in k[1:]:
            if isinstance(y,(Poly,tuple)): walk(y)
    walk(p); return out

def cond_atoms(c):
    out=set()
    for v in bvars(c):
        for y in ckey(v)[1:]:
            if isinstance(y,Poly): out|=deep_atoms(y)
            elif isinstance(y,tuple):
                for z in y:
                    if isinstance(z,Poly): out|=deep_atoms(z)
    return out

# ---------------------------------------------------------------- case splitting
class TooMany(Exception): pass
def cases(polys,guard=T,feasible=None,limit=512):
    """Split a tuple of polys on every condition they depend on.
    Returns [(guard,{condkey:bool},polys)] with no ite atoms left."""
    out=[]
    def pick(ps):
        for p in ps:
            best=None
            cs=conds_in(p)
            if not cs: continue
            # choose a condition whose own polys contain no ite
            for v in sorted(cs):
                k=ckey(v)
                inner=set()
                for y in k[1:]:
                    if isinstance(y,Poly): inner|=conds_in(y)
                if not inner: return v
            return sorted(cs)[0]
        return None
    def rec(ps,g,lits):
        if len(out)>limit: raise TooMany()
        v=pick(ps)
        if v is None:
            out.append((g,dict(lits),ps)); return
        k=ckey(v); c=_mk(v,F,T)
        for val in (True,False):
            g2=band(g,c if val else bnot(c))
            if g2==F: continue
            l2=dict(lits); l2[k]=val
            if feasible and not feasible(l2): continue
            rw=Rewriter(None,lambda kk,k=k,val=val: val if kk==k else None)
            rec(tuple(rw.poly(p) for p in ps),g2,l2)
    rec(tuple(polys),guard,{})
    return out

# ---------------------------------------------------------------- printing
def show(p,depth=4):
    if not isinstance(p,Poly): return repr(p)
    if not p.t: return "0"
    s=[]
    for m,c in sorted(p.t.items(),key=lambda x:(len(x[0]),x[0])):
        f=[]
        for a,e in m:
            f.append(showa(akey(a),depth-1)+("" if e==1 else "^%d"%e))
        mono="*".join(f)
        if not mono: s.append(str(c))
        elif c==1: s.append(mono)
        elif c==-1: s.append("-"+mono)
        else: s.append("%s*%s"%(c,mono))
        if len(s)>14: s.append("..."); break
    return " + ".join(s).replace("+ -","- ")
def showa(k,depth=4):
    if depth<0: return k[0]+"(..)"
    if k[0]=="arg": return k[2] if len(k)>2 and k[2] else "arg%d"%k[1]
    if k[0]=="ite": return "(%s ? %s : %s)"%(showc(k[1],depth-1),show(k[2],depth-1),show(k[3],depth-1))
    if k[0]=="load": return "[%s]%s"%(show(k[1],depth),"" if not k[2] else "@%s"%(k[2],))
    if k[0]=="inv": return "1/(%s)"%show(k[1],depth)
    if k[0]=="lv": return "i%s"%(k[1],)
    if k[0]=="alloca": return "&%s"%(k[2] or k[1])
    if k[0]=="g": return "@"+k[1]
    if k[0]=="b": return showc(k[1],depth-1)
    def sh(y):
        if isinstance(y,Poly): return show(y,depth-1)
        if isinstance(y,tuple): return "("+",".join(sh(z) for z in y)+")"
        return str(y)
    return "%s(%s)"%(k[0],",".join(sh(y) for y in k[1:]))
def showc(c,depth=3):
    if c==T: return "true"
    if c==F: return "false"
    cs=bcubes(c,6); r=[]
    for cu in cs:
        r.append(" & ".join(("" if b else "!")+showa(ckey(v),depth-1) for v,b in cu))
    return " | ".join(r) if len(r)>1 else r[0]

def close(p,q=None,tol=1e-11):
    """equality of polynomials up to relative rounding of coefficients"""
    d=p if q is None else p-q
    if not d.t: return True
    ref=max([abs(float(c)) for c in (list(p.t.values())+(list(q.t.values()) if q is not None else []))]+[1e-300])
    return all(abs(float(c))<=tol*ref for c in d.t.values())

def ratsimp_zero(p,tol=1e-11,depth=6):
    """is p identically zero as a rational function? clears 'inv' atoms. True/False"""
    for _ in range(depth):
        if not p.t: return True
        invs=[a for a in p.atoms() if akey(a)[0]=="inv"]
        # also inverse powers of atoms
        mine={}
        for m in p.t:
            for a,e in m:
                if e<0: mine[a]=min(mine.get(a,0),e)
        if mine:
            p=p*Poly({tuple(sorted((a,-e) for a,e in mine.items())):1}); continue
        if not invs: break
        a=invs[0]; q=akey(a)[1]
        mx=max(e for m in p.t for b,e in m if b==a)
        acc=ZERO
        for m,c in p.t.items():
            e=dict(m).get(a,0)
            rest=tuple((b,x) for b,x in m if b!=a)
            acc=acc+Poly({rest:c})*q.pow(mx-e)
        p=acc
    if not p.t: return True
    ref=max(abs(float(c)) for c in p.t.values())
    return all(abs(float(c))<=tol for c in p.t.values()) if ref<tol else False
