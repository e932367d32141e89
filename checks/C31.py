#!/usr/bin/env python3
"""C31: cross-section queries: zero for sterile neutrinos, refusal above the table, otherwise the table of the flavour, particle type and current asked for, inside its bounds."""
from xslib import *
RULE=("the value of every query, as a closed form over the stored tables, evaluated for every flavour, particle type and current and every kind of energy (below, at, between, at the top and above the tabulated ones), "
      "is zero for sterile neutrinos, refused above the table, and otherwise made of the tables read under the name of the flavour, particle type and current asked for; every entry read on the way exists; every conversion to an index is defined.")
DBL_MIN=Q(1,2**1022)
class Thrown(Exception): pass
class Tab:
    """a numeric object and a function evaluated on it"""
    def __init__(s,u,R): s.u=u; s.R=R
def strlit(u,fl,a,before):
    """text of the string object at address a when call `before` is made"""
    best=None
    for e in fl.effects:
        if e is before: break
        if e.kind=="call" and e.args and e.args[0]==a and "basic_string(char const*" in (e.dem or ""):
            k=e.args[1].single(); g=u.G.get(k[1]) if k and k[0]=="g" else None; best=g.get("str") if g else None
        elif e.kind=="call" and e.args and e.args[0]==a and re.search(r"basic_string.*::(operator\+?=|append|assign|basic_string\()",e.dem or "") and "basic_string(char const*" not in e.dem: best=None
    return best
def direct(u,fl,a,e):
    k=a.single()
    if k and k[0]=="g":
        g=u.G.get(k[1]); return g.get("str") if g else None
    return strlit(u,fl,a,e)
# ------------------------------------------------------------------ interpolating class
def names2(u,R):
    """interpolator inside the data of one flavour -> names of the data set it is built from"""
    fl=u.flow(r"vp::make\(.*"); out={}; buf={}; tmp={}
    def inside(a):
        r=fl.root(a)
        if r is None: return None
        o=a-var(r) if a is not None else None
        return (r,int(o.cval())) if o is not None and o.isconst() else None
    for e in fl.effects:
        if e.kind!="call" or not e.dem: continue
        d=e.dem
        if re.match(r"void nusquids::readArrayH5<",d): buf[e.args[2]]=direct(u,fl,e.args[1],e)
        elif re.search(r"marray<double, \du.*::marray\(nusquids::marray<.*&",d) and e.args[1] in buf: buf[e.args[0]]=buf[e.args[1]]
        elif re.match(r"nusquids::AkimaSpline::AkimaSpline\(",d) and len(e.args)>=3:
            k=e.args[2].single()
            if k and k[0]=="load":
                for b,n in buf.items():
                    o=k[1]-b
                    if o.isconst() and 0<=o.cval()<48: tmp[e.args[0]]=n
        elif re.match(r"nusquids::BiCubicInterpolator::BiCubicInterpolator\(nusquids::marray<double, 2",d): tmp[e.args[0]]=buf.get(e.args[1])
        elif re.match(r"nusquids::(AkimaSpline|BiCubicInterpolator)::operator=",d):
            n=tmp.get(e.args[1])
            o=[c for m,c in e.args[0].t.items() if not m]; o=int(o[0]) if o else 0
            if n is not None: out.setdefault(o,set()).add(n)
    return out
def ctor_consts(u,rx):
    """members that a constructor sets to a number"""
    fl=u.flow(rx); p=var(("arg",0,fl.f.args[0]["name"],fl.f.args[0]["ty"])); out={}
    for e in fl.effects:
        if e.kind=="store" and e.val is not None:
            o=e.addr-p
            if o.isconst() and (e.val.isconst() or (e.val.single() or (0,))[0]=="fconst"):
                out.setdefault(int(o.cval()),[]).append((e.val,e.sz))
    return {o:v[0][0] for o,v in out.items() if len(v)==1}
def finder(d):
    """a lookup in an associative container: where the value lies in what it returns"""
    m=re.search(r"std::(unordered_map|map)<(nusquids::[A-Za-z:]*(NeutrinoFlavor|PDGCode)).*::(find|at|count)\(",d or "")
    return (m.group(1),m.group(4)) if m else None
class Run:
    """evaluation of one function at one point; res -> ('value',x) | ('throw',) | ('undecided',why)"""
    def __init__(s,u,scal,arrs,have,args,fl,virt,log10=None,bad=None):
        s.u=u; s.fl=fl; s.scal=scal; s.arrs=arrs; s.have=have; s.args=args; s.virt=virt; s.bad=bad if bad is not None else []
        s.by={e.i["id"]:e for e in fl.effects if e.kind=="call"}
        s.log=log10; s.sizes={m["off"]+m["size"]-32 for m in u.layouts.get(T2 if scal else LIB,{}).get("members",()) if m["type"].startswith("std::unordered_map")} if not arrs else (); s.ev=Ev(leaf=s.leaf,call=s.call)
    def leaf(s,k,ev):
        if k[0]=="toint":                              # conversion of a number to an index
            v=s.ev(k[1])
            if isinstance(v,float) and (math.isnan(v) or math.isinf(v)) or not -1<v<2**64:
                s.bad.append("%g is converted to an index"%float(v)); return V(2**63)
            return V(math.trunc(v))
        if k[0]=="arg":
            if k[1] in s.args: return V(s.args[k[1]])
            if k[1]==0: return V(0,{("obj",):1})
        if k[0]=="load":
            pt=ev.poly(k[1]).ptr()
            if pt is None: raise Unknown("load through "+show(k[1]))
            b,off=pt
            if b==("obj",):
                if off in s.sizes: return V(len(s.have))
                if off in s.scal: return V(s.scal[off])
                for (o,sz,rk,name),(ext,vals) in s.arrs.items():
                    if o<=off<o+sz:
                        j=off-o
                        if rk=="vec":
                            if j==0: return V(0,{("data",o):1})
                            return V(8*ext[0],{("data",o):1})
                        if j<8*rk and j%8==0: return V(ext[j//8])
                        if j==8*rk: return V(math.prod(ext))
                        return V(0,{("data",o):1})
            if b[0]=="data":
                (o,sz,rk,name),(ext,vals)=next(x for x in s.arrs.items() if x[0][0]==b[1])
                n=math.prod(ext); i=off/8 if not isinstance(off,int) else Q(off,8)
                if i.denominator!=1 or not 0<=i<n: s.bad.append("%s[%s] read, it has %d entries"%(name,i,n)); return V(H(("outside",name),i))
                return V(vals[int(i)])
            if b[0]=="node":
                if k[3]=="ptr": return V(0,{("tab",b[1]):1} if s.have.get(b[1])!="null" else {})
                return V(b[1])
            if b[0]=="g": 
                g=s.u.G.get(b[1])
            if k[3]=="ptr": return V(0,{k:1})
            raise Unknown("load "+show(k[1]))
        return None
    def key(s,e):
        v=s.fl.at_call(e,e.args[1],4,"i32"); return int(s.ev(v))
    def call(s,k,ev):
        n=k[1]; e=s.by.get(k[3]) if len(k)>3 and k[3] is not None else None
        if n in("log10","log"):
            x=ev(k[2][0]); return s.log(n,x)
        if n in("pow","exp10","exp"):
            a=[float(ev(x)) for x in k[2]]
            return 10.0**a[0] if n=="exp10" else math.exp(a[0]) if n=="exp" else a[0]**a[1]
        if n in("fmin","fmax"): return (min if n=="fmin" else max)(ev(k[2][0]),ev(k[2][1]))
        if e is not None:
            f=finder(e.dem)
            if f:
                fl=s.key(e)
                if f[1]=="count": return V(1 if fl in s.have else 0)
                if fl not in s.have:
                    if f[1]=="at": raise Thrown()
                    return V(0)
                return V(0,{("node",fl):1})
            m=re.search(r"shared_ptr(_access)?<.*>::(operator bool|get|operator\*|operator->|_M_get)\(",e.dem or "")
            if m:
                p=ev.poly(k[2][0]).ptr()
                if p is None or p[0][0]!="node": raise Unknown("shared pointer "+show(k[2][0]))
                null=s.have.get(p[0][1])=="null"
                if m.group(2)=="operator bool": return V(0 if null else 1)
                return V(0) if null else V(0,{("tab",p[0][1]):1})
            if (e.dem or "").startswith("nusquids::AkimaSpline::operator()") or (e.dem or "").startswith("nusquids::BiCubicInterpolator::operator()"):
                p=ev.poly(k[2][0]).ptr()
                if p is None and not ev.poly(k[2][0]).b: s.bad.append("a table that is not there is read"); return H(("nothing",),0)
                if p is None or p[0][0]!="tab": raise Unknown("interpolation of "+show(k[2][0]))
                return H((p[0][1],int(p[1])),*[ev(x) for x in k[2][1:]])
            sl=slot(e)
            if sl is not None or (e.dem or "") in s.virt.values() or any((e.dem or "")==x.f.dem for x in s.virt.values() if not isinstance(x,str)):
                A=e.args if e.fp is None or sl is not None else e.args
                fn=s.virt.get(sl[1]) if sl is not None else next(x for x in s.virt.values() if x.f.dem==e.dem)
                if fn is None: raise Unknown("virtual call")
                o=ev.poly(A[0]).ptr()
                if o is None or o[0]!=("obj",): raise Unknown("virtual call on another object")
                r=Run(s.u,s.scal,s.arrs,s.have,{i:ev(a) for i,a in enumerate(A) if i},fn,s.virt,s.log,s.bad).run()
                if r[0]=="throw": raise Thrown()
                if r[0]!="value": raise Unknown(r[1])
                return r[1]
        return None
    def run(s):
        fl=s.fl
        try:
            for e in fl.effects:                       # what happens on the way, in order
                if e.kind not in("load","throw"): continue
                if e.loops: raise Unknown("loop")
                if not s.ev.cond(e.guard): continue
                if e.kind=="throw": return ("throw",)
                if e.addr is None: continue
                try: pt=s.ev.poly(e.addr).ptr()
                except Unknown: continue
                if pt and pt[0][0]=="data":
                    (o,sz,rk,name),(ext,vals)=next(x for x in s.arrs.items() if x[0][0]==pt[0][1]); n=math.prod(ext)
                    if not 0<=pt[1]<8*n: s.bad.append("%s read at entry %s of %d"%(name,Q(pt[1])/8,n))
            if not s.ev.cond(fl.retguard): return ("throw",)
            return ("value",s.ev(fl.ret))
        except Thrown: return ("throw",)
        except Unknown as x: return ("undecided",str(x))
        except (OverflowError,ValueError) as x: return ("undecided",str(x))
def close(a,b):
    try: a,b=float(a),float(b)
    except Exception: return False
    return a==b or abs(a-b)<=1e-9*max(abs(a),abs(b))
def interpolating(R,u):
    names=names2(u,R)
    nm={o:next(iter(s)) for o,s in names.items() if len(s)==1}
    if len(nm)<8 or None in nm.values(): R.und("names of the tables of one flavour",T2); return
    inv={}
    for o,n in nm.items(): inv.setdefault(n,o)
    em,eM=offset(u,r"vp::emin\(.*"),offset(u,r"vp::emax\(.*"); cs=ctor_consts(u,r"vp::make\(.*")
    if em is None or eM is None: R.und("where the energy range is kept",T2); return
    GeV=10**9
    virt=methods(u,T2)
    for tag,lo,hi in(("from 100 GeV",100*GeV,10**6*GeV),("from 1 GeV",GeV,10**5*GeV),("from 10 GeV",10*GeV,10**5*GeV)):
        scal={o:Q(v.cval()) for o,v in cs.items() if v.isconst()}; scal[em]=Q(lo); scal[eM]=Q(hi)
        lg=lambda n,x: math.log10(float(x)) if n=="log10" and x>0 else math.log(float(x)) if x>0 else (_ for _ in()).throw(Unknown("logarithm"))
        for kind,fl in(("total",virt.get("total")),("single",virt.get("single"))):
            if fl is None: R.und("%s query"%kind,T2); continue
            R.fn(fl.f)
            for fv in range(4):
                for nt in(0,1):
                    for cu in(0,1):
                        what="%s of %s %s %s, table %s"%("TotalCrossSection" if kind=="total" else "SingleDifferentialCrossSection",FLAV[fv],KIND[nt],CUR[cu],tag); ok=True; why=None; und=None
                        pts=[Q(lo,2),Q(lo),Q(lo)*Q(3,2),Q(hi,7),Q(hi),Q(hi)+1,Q(hi)*2,Q(12*GeV),Q(5*GeV)]
                        if kind=="total": P=[(e,) for e in pts]
                        else: P=[(e,o) for e in pts for o in(Q(lo,3),Q(lo),(e+lo)/2,e)]
                        for have in({0:1,1:1,2:1},{0:1,1:1,2:1,fv:"null"},{x:1 for x in range(3) if x!=fv}):
                            full=have=={0:1,1:1,2:1}
                            if fv==3 and not full: continue
                            for p in P if full else P[-1:]+[(Q(hi,7),Q(hi,14))[:len(P[0])]]:
                                n=len(p); args=dict(enumerate(p,1)); args.update({n+1:fv,n+2:nt,n+3:cu}); bad=[]
                                r=Run(u,scal,{},have,args,fl,virt["slots"],lg,bad).run()
                                x=exp2(kind,p,fv,nt,cu,lo,hi,inv,full,GeV)
                                if r[0]=="undecided": und=und or "E=%s: %s"%(tuple(float(y) for y in p),r[1]); continue
                                if not agrees(r,x): ok=False; why=why or "E=%s GeV%s: %s instead of %s"%(tuple(float(y/GeV) for y in p),"" if full else " without a table for the flavour",text(r),text(x))
                                if bad: ok=False; why=why or bad[0]
                        if not ok: R.check(False,what,fl.f,detail=why)
                        elif und: R.und(what+": "+und,fl.f)
                        else: R.ok(what,fl.f)
def text(r): return "refused" if r[0]=="throw" else "negligible" if r[0]=="tiny" else "%.6g"%float(r[1]) if r[0]=="value" else "anything" if r[0]=="any" else str(r)
def agrees(r,x):
    if x[0]=="any": return True
    if x[0]=="throw": return r[0]=="throw"
    if r[0]!="value": return False
    if x[0]=="tiny": return 0<=r[1]<=Q(1,10**100)
    return close(r[1],x[1])
def exp2(kind,p,fv,nt,cu,lo,hi,inv,full,GeV):
    """what a query is to give"""
    if fv==3: return ("value",0)
    E=p[0]; suf="%s_%s"%("CC" if cu==0 else "NC","nu" if nt==0 else "nubar")
    if E>hi: return ("throw",)
    if kind=="total":
        if E<10*GeV and lo>10*GeV: return ("tiny",)
        if not full: return ("throw",)
        t=(fv,inv["s_"+suf])
        s=lambda e: 10.0**float(H(t,math.log10(float(e))))
        return ("value",s(E)) if E>=lo else ("value",s(lo)*float(E/lo))
    if E<=lo: return ("tiny",)
    if not full: return ("throw",)
    t=(fv,inv["dsdy_"+suf]); z=float((p[1]-lo)/(E-lo)); v=float(H(t,math.log10(float(E)),z))
    if p[1]<=lo: v=min(v,float(H(t,math.log10(float(E)),0.)))
    return ("value",10.0**v/float(E/GeV))
def methods(u,K):
    """what virtual calls on an object of class K do"""
    sl=slots(u); out={"slots":{}}; N={"total":"TotalCrossSection","single":"SingleDifferentialCrossSection"}
    for pos,n in sl.items():
        if n not in N: continue
        m=re.match(r"\[(?:(\d+) \+ )?\[x\]\]",pos); o=int(m.group(1) or 0) if m else None
        fl=None
        for d in u.fns:
            if re.match(re.escape(K)+"::"+N[n]+r"\([^$]*\) const$",d) and "::$" not in d: fl=u.flow(re.escape(d)+"$")
        out[n]=fl
        if o is not None and fl is not None: out["slots"][o]=fl
    return out
# ------------------------------------------------------------------ tabulated class
def names1(u):
    fl=u.flow(r"vp::make1\(.*"); p=var(("arg",0,fl.f.args[0]["name"],fl.f.args[0]["ty"])); out={}
    for e in fl.effects:
        if e.kind=="call" and re.match(r"void nusquids::readArrayH5<",e.dem or ""):
            o=e.args[2]-p
            if o.isconst(): out[int(o.cval())]=direct(u,fl,e.args[1],e)
    return out
def tabulated(R,u):
    nm=names1(u); A=arrays(u,T1); em,eM,nd=(offset(u,"vp::%s\\(.*"%x) for x in("emin1","emax1","nume1")); cs=ctor_consts(u,r"vp::make1\(.*")
    by={nm.get(o):(o,sz,rk,n) for o,sz,rk,n in A}
    vec=[a for a in A if a[2]=="vec"]
    if None in(em,eM,nd) or not all(x in by for x in("s_CC","s_NC","dsDE_CC","dsDE_NC")) or len(vec)!=1: R.und("tables by name",T1); return
    virt=methods(u,T1); GeV=10**9
    for n in(2,3,4):
        for lo in(Q(2),Q(64)):
            nodes=[lo*2**i for i in range(n)]; l0,dl=Q(3,2),Q(1,4)
            def lg(name,x,nodes=nodes,n=n):
                # an increasing function, exact at the nodes
                if name!="log": raise Unknown(name)
                x=Q(x)
                if x<0: return float("nan")
                if x==0: return float("-inf")
                j=0
                for y in nodes:
                    if abs(x-y)<y*Q(1,10**12): x=y      # logarithms are rounded
                while x>=nodes[0]*Q(2)**(j+1): j+=1
                while x<nodes[0]*Q(2)**j: j-=1
                a=nodes[0]*Q(2)**j
                return l0+dl*(j+(x-a)/a)
            L=lambda x: lg("log",x)
            tab={}; scal={o:Q(v.cval()) for o,v in cs.items() if v.isconst()}; scal.update({em:nodes[0]*GeV,eM:nodes[-1]*GeV,nd:n,8:1}); cont={}
            for name in("s_CC","s_NC","dsDE_CC","dsDE_NC"):
                o,sz,rk,mn=by[name]; ext=[2,3]+[n]*(rk-2); vals=[]
                for i in range(math.prod(ext)):
                    idx=[]; j=i
                    for x in reversed(ext): idx.append(j%x); j//=x
                    idx=tuple(reversed(idx)); v=H((name,)+idx)
                    if rk==4 and idx[3]>=idx[2]: v=Q(0)      # no outgoing energy above the incoming one
                    vals.append(v); tab[(name,)+idx]=v
                cont[by[name]]=(ext,vals)
            cont[vec[0]]=([n],[l0+dl*i for i in range(n)])
            for kind in("total","single"):
                fl=virt.get(kind)
                if fl is None: R.und(kind+" query",T1); continue
                R.fn(fl.f)
                mids=[nodes[i]*Q(k,4) for i in range(n-1) for k in(4,5,7)]+[nodes[-1]]
                out=[nodes[0]/2,nodes[0]*Q(3,4),nodes[-1]*Q(5,4),nodes[-1]*4]+([Q(5)] if lo>10 else [])
                for fv in range(4):
                    for nt in(0,1):
                        for cu in(0,1,2) if kind=="single" else(0,1):
                            what="%s of %s %s %s in %d energies from %s GeV"%("TotalCrossSection" if kind=="total" else "SingleDifferentialCrossSection",FLAV[fv],KIND[nt],CUR[cu],n,lo); why=und=None
                            P=[(e,) for e in mids+out] if kind=="total" else [(e,o) for e in mids+out for o in mids+[nodes[0]/2,nodes[0]/8,nodes[0]*Q(3,4),Q(0),-Q(1),nodes[-1]*2,nodes[-1]*(1-Q(1,10**15))]]
                            for p in P:
                                args={i+1:x*GeV for i,x in enumerate(p)}; k=len(p); args.update({k+1:fv,k+2:nt,k+3:cu}); bad=[]
                                r=Run(u,scal,cont,{},args,fl,virt["slots"],lg,bad).run()
                                x=exp1(kind,p,fv,nt,cu,nodes,L,tab,l0,dl,n)
                                if bad: why=why or "E=%s GeV: %s"%(tuple(map(float,p)),bad[0]); continue
                                if r[0]=="undecided": und=und or "E=%s GeV: %s"%(tuple(map(float,p)),r[1]); continue
                                if not agrees(r,x): why=why or "E=%s GeV: %s instead of %s"%(tuple(map(float,p)),text(r),text(x))
                            if why: R.check(False,what,fl.f,detail=why)
                            elif und: R.und(what+": "+und,fl.f)
                            else: R.ok(what,fl.f)
def exp1(kind,p,fv,nt,cu,nodes,L,tab,l0,dl,n):
    if fv==3: return ("value",0)
    E=p[0]; cn="CC" if cu==0 else "NC"
    if E>nodes[-1]: return ("throw",)
    def cell(l):
        i=min(int((l-l0)/dl),n-2); return i,(l-l0)/dl-i
    if kind=="total":
        def s(e):
            i,f=cell(L(e)); return tab[("s_"+cn,nt,fv,i)]*(1-f)+tab[("s_"+cn,nt,fv,i+1)]*f
        if E<10 and nodes[0]>10: return ("tiny",)
        return ("value",s(E)) if E>=nodes[0] else ("value",s(nodes[0])*E/nodes[0])
    if E<nodes[0]: return ("tiny",)
    O=p[1]
    if cu==2: return ("any",)
    if O>=E: return ("value",0)
    if O<nodes[0] or 0<nodes[-1]-O<Q(1,10**6): return ("any",)
    i,f=cell(L(E)); j,g=cell(L(O)); T=lambda a,b: tab[("dsDE_"+cn,nt,fv,a,b)]
    if i==j:
        # the corner above the diagonal is not physical: the plane through the other three
        z1,z2,z3=T(i,j),T(i+1,j),T(i+1,j+1)
        return ("value",z1+(z2-z1)*f+(z3-z2)*g)
    return ("value",(T(i,j)*(1-g)+T(i,j+1)*g)*(1-f)+(T(i+1,j)*(1-g)+T(i+1,j+1)*g)*f)
# ------------------------------------------------------------------ library
def library(R,u):
    for d in u.fns:
        m=re.match(re.escape(LIB)+r"::(crossSectionForTarget|hasTarget)\(",d)
        if m:
            fl=u.flow(re.escape(d)+"$"); R.fn(fl.f); f=[e for e in fl.effects if e.kind=="call" and finder(e.dem)]
            for present in(True,False):
                r=Run(u,{},{},{2212:1} if present else {11:1},{1 if m.group(1)=="hasTarget" else 2:2212},fl,{})
                try:
                    if m.group(1)=="hasTarget":
                        v=bool(r.ev(fl.ret)); R.check(v==present,"a target is reported to be there iff it was added (%s)"%("added" if present else "another one added"),fl.f)
                    else:
                        got=None
                        for e in fl.effects:
                            if e.kind=="call" and re.search(r"shared_ptr<.*>::(shared_ptr|__shared_ptr)\(",e.dem or "") and r.ev.cond(e.guard):
                                got="none" if len(e.args)<2 else r.ev.poly(e.args[1]).ptr()
                        want=("node",2212)
                        R.check(None if got is None else (got!="none" and got is not None and got[0]==want) if present else got=="none","the cross sections returned are those of the target asked for (%s)"%("present" if present else "absent"),fl.f)
                except (Unknown,Thrown) as x: R.und("library lookup: %s"%x,fl.f)
    for rx in(r"vp::add\(.*",r"vp::addcopy\(.*"):
        try: fl=u.flow(rx)
        except Exception: R.und("adding a target",LIB); continue
        R.fn(fl.f)
        for present in(True,False):
            r=Run(u,{},{},{2212:1} if present else {11:1},{1:2212},fl,{})
            try:
                t=any(e.kind=="throw" and r.ev.cond(e.guard) for e in fl.effects) or not r.ev.cond(fl.retguard)
                R.check(t==present,"a target is %s"%("not redefined" if present else "accepted when it is new"),fl.f)
                if not present:
                    em=[e for e in fl.effects if e.kind=="call" and re.search(r"_M_emplace|unordered_map<.*>::(emplace|insert|operator\[\]|insert_or_assign)|_M_insert",e.dem or "") and r.ev.cond(e.guard)]
                    ok=None
                    if em:
                        ok=False
                        for e in em:
                            for a in e.args:
                                try:
                                    v=fl.at_call(e,a,4,"i32")
                                    if int(r.ev(v))==2212: ok=True
                                except (Unknown,Exception): pass
                    R.check(ok or None,"the new target is recorded under its own code",fl.f)
            except (Unknown,Thrown) as x: R.und("adding a target: %s"%x,fl.f)
def null(R,u):
    for n in("null_total","null_single"):
        fl=u.flow(r"vp::%s\(.*"%n); R.fn(fl.f)
        R.check(fl.ret.iszero() if hasattr(fl.ret,"iszero") else (fl.ret.isconst() and fl.ret.cval()==0),"absent cross sections are zero",fl.f)
def body(R):
    u=unit((r"vp::.*",QUERY,re.escape(LIB)+"::.*"))
    R.scope("every query of the cross-section classes at every flavour, particle type, current and kind of energy, tables of 2 to 4 energies for the bilinear class, three ranges for the interpolating one")
    for f in(interpolating,tabulated,library,null):
        try: f(R,u)
        except (Unknown,KeyError,StopIteration) as x: R.und("%s: %s"%(f.__name__,x),"src/xsections.cpp")
if __name__=="__main__": main("C31",RULE,body)
