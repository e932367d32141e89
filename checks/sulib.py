"""Algebra elements of the propagator as linear forms: which projectors, states and Hamiltonians they are made of, and with which weights."""
from proplib import *
import hashlib
def H(*k):
    """the number standing for an unknown quantity, told apart by what it is"""
    h=int.from_bytes(hashlib.sha256(repr(k).encode()).digest()[:6],"big")
    return Q(1+h%9973,7919)
class Lin:
    """sum of weighted basis elements; basis: ("P",i) mass projector, ("R",element,mixing) rotated, ("E",element,hamiltonian,time,filters) evolved, ("S",e,r) a state"""
    def __init__(s,d=(),back=None,dim=None): s.d={k:v for k,v in dict(d).items() if v!=0}; s.back=back
    def copy(s): return s
    def key(s): return tuple(sorted((k,Q(v) if not isinstance(v,float) else v) for k,v in s.d.items()))
    def __add__(s,o):
        d=dict(s.d)
        for k,v in o.d.items(): d[k]=d.get(k,0)+v
        return Lin(d,s.back)
    def scale(s,x): return Lin({k:v*x for k,v in s.d.items()},s.back)
    def __eq__(s,o): return isinstance(o,Lin) and close_lin(s,o)
    def __repr__(s): return " + ".join("%.6g*%s"%(float(v),name(k)) for k,v in sorted(s.d.items(),key=lambda x:repr(x))) or "0"
def name(k):
    if k[0]=="P": return "P%d"%k[1]
    if k[0]=="S": return "state[%d][%d]"%k[1:]
    if k[0]=="R": return "rotated("+name(k[1])+")"
    if k[0]=="E": return "evolved("+name(k[1])+")"
    return str(k)
def near(a,b):
    if a==b: return True
    a,b=float(a),float(b)
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b): return False
    return abs(a-b)<=1e-9*max(abs(a),abs(b))
def close_lin(a,b):
    big=max([abs(float(v)) for v in list(a.d.values())+list(b.d.values())]+[0])
    return all(abs(float(a.d.get(k,0))-float(b.d.get(k,0)))<=1e-9*big for k in set(a.d)|set(b.d))
def inner(a,b):
    t=0
    for k,x in a.d.items():
        for l,y in b.d.items(): t+=x*y*H("ip",*sorted((repr(k),repr(l))))
    return t
def each(a,f):
    """apply a linear map given on basis elements"""
    r=Lin()
    for k,v in a.d.items(): r=r+Lin({f(k):v})
    return r
def rotated(a,par): return each(a,lambda k:("R",k,par))
def evolved(a,buf):
    if not buf[0] or (len(buf)==2 and buf[1]==0): return a     # no Hamiltonian or no time: nothing turns
    return each(a,lambda k:("E",k)+buf)
@first(r"std::__shared_ptr<.*>::reset(<.*>)?\(")
def _(s,e,d):
    v=s.ev.poly(e.args[1]) if len(e.args)>1 else V(0)
    s.put(s.A(e,0),Ptr(v if v.b else None))
@first(r"(void )?nusquids::marray<squids::SU_vector, (\d+)u.*>::resize[<(]")
def _(s,e,d):
    R=int(re.search(r"SU_vector, (\d+)u",d).group(1)); x=extents(s,e,R)
    if x is None:
        # a list object: where its numbers are and how many
        b,o=s.A(e,1); p=s.cells.get((b,o)); p=p.ptr() if p is not None else None; n=s.cells.get((b,o+8))
        if p is not None and n is not None and n.num()==R: x=[int(s.cells[(p[0],p[1]+8*i)].num()) for i in range(R)]
    if x is None: raise Unknown("new extents of an array")
    s.put(s.A(e,0),Projs(x,[Lin()]*math.prod(x)))
class Block:
    """allocated memory: its size in bytes and the parts given to algebra elements"""
    def __init__(s,n,used=()): s.n=n; s.used=list(used)
    def copy(s): return Block(s.n,s.used)
@first(r"operator new(\[\])?\(unsigned long\)")
def _(s,e,d):
    b=s.fresh("heap"); s.obj[(b,-1)]=Block(s.ev(e.args[0])); return V(0,{b:1})
class Buf:
    """phases prepared by a Hamiltonian for a time"""
    def __init__(s,k): s.k=k
    def copy(s): return s
SUV=r"squids::SU_vector::"
def at(s,a):
    b,o=a
    if b[0]=="data":
        x=s.heap[b]; i=Q(o)/getattr(x,"width",8)
        if i.denominator!=1 or not 0<=i<len(x.vals): s.issues.append("element %s of %d read"%(i,len(x.vals))); raise Unknown("element outside the array")
        v=x.vals[int(i)]; return v if isinstance(v,Lin) else Lin()
    v=s.obj.get(a)
    if not isinstance(v,Lin): raise Unknown("algebra element never set")
    return v
def get(s,e,i): return at(s,s.A(e,i))
def put(s,a,v,keep=False):
    b,o=a
    if b[0]=="data":
        x=s.heap[b]; i=Q(o)/getattr(x,"width",8)
        if i.denominator!=1 or not 0<=i<len(x.vals): s.issues.append("element %s of %d written"%(i,len(x.vals))); return
        old=x.vals[int(i)]
        x.vals[int(i)]=Lin(v.d,old.back if isinstance(old,Lin) else None)
    else:
        old=s.obj.get(a); s.obj[a]=Lin(v.d,v.back if keep else old.back if isinstance(old,Lin) else None)
@first(SUV+r"SU_vector\(")
def _(s,e,d):
    a=s.A(e,0)
    if "()" in d: s.obj[a]=Lin() if a[0][0]!="data" else None; return
    if "double*" in d:
        b,o=s.A(e,2); n=int(s.ev(e.args[1])); blk=s.obj.get((b,-1))
        if isinstance(blk,Block) and not (0<=o and o+8*n*n<=blk.n): s.issues.append("components [%s,%s) of an element in a block of %s bytes"%(o,o+8*n*n,blk.n))
        if isinstance(blk,Block):
            for lo,hi in blk.used:
                if lo<o+8*n*n and o<hi: s.issues.append("two elements share their components")
            blk.used.append((o,o+8*n*n))
        s.obj[a]=Lin((),back=(b,o)); return
    if "(unsigned int)" in d: put(s,a,Lin()); return
    if "(squids::SU_vector" in d or "Proxy" in d:
        v=get(s,e,1); s.obj.pop(a,None) if a[0][0]!="data" else None; put(s,a,Lin(v.d,v.back if "&&" in d else None),True); return
    return NO
@first(SUV+r"operator=\(")
def _(s,e,d):
    v=get(s,e,1); a=s.A(e,0)
    if v.back is not None and "&&" in d and a[0][0]=="data":
        x=s.heap[a[0]]; x.vals[int(Q(a[1])/x.width)]=v
    else: put(s,a,v)
    return s.ev.poly(e.args[0])
@first(SUV+r"operator([-+])=\(")
def _(s,e,d):
    a=get(s,e,0); b=get(s,e,1); put(s,s.A(e,0),a+(b if "operator+=" in d else b.scale(-1))); return s.ev.poly(e.args[0])
@first(SUV+r"operator\*=\(double\)")
def _(s,e,d): put(s,s.A(e,0),get(s,e,0).scale(s.ev(e.args[1]))); return s.ev.poly(e.args[0])
@first(SUV+r"operator/=\(double\)")
def _(s,e,d): put(s,s.A(e,0),get(s,e,0).scale(Q(1)/Q(s.ev(e.args[1])))); return s.ev.poly(e.args[0])
@first(SUV+r"operator\*\(double\) const")
def _(s,e,d): put(s,s.A(e,0),get(s,e,1).scale(s.ev(e.args[2])))
@first(SUV+r"operator\*\(squids::SU_vector const&\) const")
def _(s,e,d): return V(inner(get(s,e,0),get(s,e,1)))
@first(r"double squids::SUTrace<|squids::SUTrace\(|(double )?squids::SUTrace")
def _(s,e,d): return V(inner(get(s,e,0),get(s,e,1)))
@first(SUV+r"operator([-+])\(squids::SU_vector const&\) const")
def _(s,e,d): b=get(s,e,2); put(s,s.A(e,0),get(s,e,1)+(b if "operator+" in d else b.scale(-1)))
@first(SUV+r"operator-\(\) const")
def _(s,e,d): put(s,s.A(e,0),get(s,e,1).scale(-1))
@first(r"squids::operator\*\(double, ")
def _(s,e,d): put(s,s.A(e,0),get(s,e,2).scale(s.ev(e.args[1])))
@first(r"squids::operator\*\(squids::.*, double\)")
def _(s,e,d): put(s,s.A(e,0),get(s,e,1).scale(s.ev(e.args[2])))
@first(r"squids::operator([-+])\(squids::")
def _(s,e,d): b=get(s,e,2); put(s,s.A(e,0),get(s,e,1)+(b if "operator+" in d else b.scale(-1)))
@first(r"squids::detail::Proxy squids::detail::guarantee<|squids::detail::Proxy::Proxy\(")
def _(s,e,d): put(s,s.A(e,0),get(s,e,1))
@first(SUV+r"Projector\(")
def _(s,e,d):
    n,i=int(s.ev(e.args[1])),int(s.ev(e.args[2]))
    if not 0<=i<n: s.issues.append("projector %d of %d"%(i,n)); raise Unknown("projector")
    put(s,s.A(e,0),Lin({("P",i):1}))
@first(SUV+r"Identity\(")
def _(s,e,d): put(s,s.A(e,0),Lin({("P",i):1 for i in range(int(s.ev(e.args[1])))}))
@first(SUV+r"SetAllComponents\(")
def _(s,e,d):
    x=s.ev(e.args[1]); put(s,s.A(e,0),Lin() if x==0 else Lin({("ALL",):x}))
def mixing(s,e,i):
    o=s.obj.get(s.A(e,i))
    if not isinstance(o,Params): raise Unknown("mixing parameters")
    return tuple(sorted((k,v) for k,v in o.d.items() if k[0]!="EnergyDifference" and v!=0))
@first(SUV+r"RotateToB1\(")
def _(s,e,d): put(s,s.A(e,0),rotated(get(s,e,0),mixing(s,e,1)))
@first(SUV+r"RotateToB0\(")
def _(s,e,d): p=mixing(s,e,1); put(s,s.A(e,0),each(get(s,e,0),lambda k:k[1] if k[0]=="R" and k[2]==p else ("R0",k,p)))
@first(SUV+r"GetEvolveBufferSize\(")
def _(s,e,d): return V(64)
@first(SUV+r"PrepareEvolve\(")
def _(s,e,d):
    s.obj[s.A(e,1)]=Buf((get(s,e,0).key(),Q(s.ev(e.args[2])))+tuple(("avg",) for _ in e.args[3:]))
@first(SUV+r"LowPassFilter\(")
def _(s,e,d):
    a=s.A(e,1); o=s.obj.get(a)
    if not isinstance(o,Buf): raise Unknown("phases")
    s.obj[a]=Buf(o.k+(("low pass",get(s,e,0).key(),Q(s.ev(e.args[2])),Q(s.ev(e.args[3]))),))
@first(SUV+r"Evolve\(double const\*\) const")
def _(s,e,d):
    o=s.obj.get(s.A(e,2))
    if not isinstance(o,Buf): raise Unknown("phases")
    put(s,s.A(e,0),evolved(get(s,e,1),o.k))
@first(SUV+r"Evolve\(squids::SU_vector const&, double\) const")
def _(s,e,d): put(s,s.A(e,0),evolved(get(s,e,1),(get(s,e,2).key(),Q(s.ev(e.args[3])))))
@first(SUV+r"UTransform\(squids::SU_vector const&")
def _(s,e,d):
    h=get(s,e,2).key(); t=[Q(s.ev(a)) for a in e.args[3:]]; put(s,s.A(e,0),each(get(s,e,1),lambda k:("U",k,h,tuple(t))))
# the base class: one element per node and particle type
@first(r"squids::SQuIDS::ini\(")
def _(s,e,d):
    b,o=s.A(e,0); n=[int(s.ev(e.args[i])) for i in range(1,5)]
    for m,v in zip(("nx","nsun","nrhos","nscalars"),n): s.cells[(b,o+member(s.u,SQ,m))]=V(v)
    for m in("t","t_ini"): s.cells[(b,o+member(s.u,SQ,m))]=V(s.ev(e.args[5]))
    for m in("state","estate"):
        s.cells[(b,o+member(s.u,SQ,m))]=V(0,{("squids"+m,):1})
        for i in range(n[0]):
            s.cells[(("squids"+m,),16*i)]=V(0,{("rho" if m=="state" else "erho",i):1})
            for r in range(n[2]): s.obj[(("rho" if m=="state" else "erho",i),24*r)]=Lin()
@first(r"squids::SQuIDS::SQuIDS\(\)")
def _(s,e,d):
    b,o=s.A(e,0)
    for n in("nx","nsun","nrhos","nscalars","t","t_ini"): s.cells[(b,o+member(s.u,SQ,n))]=V(0)
    for n in("state","estate"): s.cells[(b,o+member(s.u,SQ,n))]=V(0)
    s.cells[(b,o+member(s.u,SQ,"h"))]=V(H("unit","step"))
    p=o+member(s.u,SQ,"params")
    for m in s.u.layouts["squids::Const"]["members"]:
        if m["type"]=="double": s.cells[(b,p+m["off"])]=V(H("unit",m["name"]))
    s.obj[(b,p)]=Params()
@first(r"squids::SQuIDS::Set_(\w+)\(")
def _(s,e,d):
    w=re.match(r"squids::SQuIDS::Set_(\w+)\(",d).group(1)
    try: s.did.append((w,s.ev(e.args[1])))
    except Unknown: s.did.append((w,None))
    if w=="AnyNumerics": s.cells[(s.A(e,0)[0],"numerics")]=bool(int(s.ev(e.args[1]))&1)
    if w=="CoherentRhoTerms" and int(s.ev(e.args[1]))&1: s.cells[(s.A(e,0)[0],"numerics")]=True
    if w in("h","h_min","h_max","rel_error","abs_error"): s.cells[(s.A(e,0)[0],s.A(e,0)[1]+member(s.u,SQ,w))]=V(s.ev(e.args[1]))
@first(r"squids::SQuIDS::Get_h\(\)")
def _(s,e,d): return s.cells.get((s.A(e,0)[0],s.A(e,0)[1]+member(s.u,SQ,"h")))
@first(r"squids::SQuIDS::Evolve\(double\)")
def _(s,e,d):
    x=Q(s.ev(e.args[1])); b,o=s.A(e,0); on=s.cells.get((b,"numerics"),True); k=(b,o+member(s.u,SQ,"t"))
    s.did.append(("evolve",x,on,s.cells[(b,o+member(s.u,SQ,"h"))].num() if (b,o+member(s.u,SQ,"h")) in s.cells else None))
    s.cells[k]=V(s.cells[k].num()+x)
    if on:
        for (c,q),v in list(s.obj.items()):
            if c[0]in("rho","erho") and isinstance(v,Lin): s.obj[(c,q)]=each(v,lambda z:("N",z,x))
    else: s.invoke("nusquids::nuSQUIDS::PreDerive(double)",[V(0,{b:1}) if o==0 else V(o,{b:1}),s.cells[k]])
    return V(0)
def iterator(s,e,a):
    """where an iterator over numbers points to"""
    p=s.ev.poly(a).ptr()
    if p is not None and p in s.cells: q=s.cells[p].ptr()
    else: q=s.ev.poly(s.fl.at_call(e,a,8,"ptr")).ptr()
    if q is None: raise Unknown("where an iterator points to")
    return q
@first(r"std::vector<double, std::allocator<double>>::vector(\(std::initializer_list|<nusquids::marray<double, 1u.*iterator_type|<double( const)?\*)")
def _(s,e,d):
    if "initializer_list" in d:
        n=int(s.ev(e.args[2])); s.put(s.A(e,0),Vec([s.mem(e,e.args[1]+const(8*i),8,"double") for i in range(n)])); return
    if "iterator_type" in d: a,b=iterator(s,e,e.args[1]),iterator(s,e,e.args[2])
    else: a,b=s.A(e,1),s.A(e,2)
    if a[0]!=b[0] or a[0] not in s.heap: raise Unknown("range of numbers")
    i,j=int(a[1])//8,int(b[1])//8; v=s.heap[a[0]].vals
    if not 0<=i<=j<=len(v): s.issues.append("range of numbers outside of the array")
    s.put(s.A(e,0),Vec(v[i:j]))
@first(r"squids::SQuIDS::Set_xrange\(std::vector")
def _(s,e,d): s.did.append(("xrange",None)); s.cells[(s.A(e,0)[0],"xrange")]=tuple(Q(x) for x in s.O(e,1,Vec).vals)
def between(s,b,r,x):
    """state at an energy: the nodes around it in proportion"""
    X=s.cells.get((b,"xrange"))
    if not X: raise Unknown("energies of the nodes")
    st=lambda i:s.obj[(("rho",i),24*r)]
    if len(X)==1: return st(0)
    i=max([k for k in range(len(X)-1) if X[k]<=x] or [0]); f=(x-X[i])/(X[i+1]-X[i])
    return st(i).scale(1-f)+st(i+1).scale(f)
def h0_at(s,b,x,r):
    s.nid+=1; o=(("h0",s.nid),0); s.invoke("nusquids::nuSQUIDS::H0(double, unsigned int) const",[V(0,{o[0]:1}),V(0,{b:1}),V(x),V(r)])
    return s.obj[o]
for _n in("GetExpectationValue","GetExpectationValueD"):
    @first(r"squids::SQuIDS::%s\("%_n)
    def _(s,e,d,_n=_n):
        """mean of an operator evolved with the vacuum Hamiltonian of that energy for as long as the state was"""
        b,o=s.A(e,0); r=int(s.ev(e.args[2])); n=Q(s.ev(e.args[3])); avg=()
        if "expectationValueDBuffer" in d: raise Unknown("buffered evaluation")
        if len(e.args)>4: avg=(("avg",Q(s.ev(e.args[4])),s.A(e,5)),)
        s.did.append((_n,r,n))
        X=s.cells.get((b,"xrange"))
        if _n=="GetExpectationValue":
            if not X or n>=len(X): raise Unknown("energy of the node")
            x=X[int(n)]; st=s.obj[(("rho",int(n)),24*r)]
        else: x=n; st=between(s,b,r,x)
        dt=s.cells[(b,o+member(s.u,SQ,"t"))].num()-s.cells[(b,o+member(s.u,SQ,"t_ini"))].num()
        return V(inner(evolved(get(s,e,1),(h0_at(s,b,x,r).key(),Q(dt))+avg),st))
@first(r"squids::SQuIDS::GetIntermediateState\(")
def _(s,e,d): put(s,s.A(e,0),between(s,s.A(e,1)[0],int(s.ev(e.args[2])),Q(s.ev(e.args[3]))))
# what the harness's body and cross sections answer
@first(r"vp_density$")
def _(s,e,d): return V(s.w.density(s.mem_x(s.A(e,0))))
@first(r"vp_constant$")
def _(s,e,d): return V(int(s.w.constant))
@first(r"vp_ye$")
def _(s,e,d): return V(s.w.ye(s.mem_x(s.A(e,0))))
@first(r"vp_flux$")
def _(s,e,d):
    o=s.O(e,0,Arr); n=0
    for i in range(o.ext[0]):
        for r in range(o.ext[1]):
            for f in range(o.ext[2]): o.vals[n]=s.w.flux(i,r,f); n+=1
@first(r"vp_(total|single|avtotal|avsingle)$")
def _(s,e,d):
    t=s.A(e,0)[0]; return V(s.w.xs(d[3:],t[1],*[s.ev(a) for a in e.args[1:]]))
@first(r"nusquids::CrossSectionLibrary::hasTarget\(")
def _(s,e,d): return V(int(int(s.ev(e.args[1])) in s.w.targets))
@first(r"nusquids::CrossSectionLibrary::crossSectionForTarget\(")
def _(s,e,d):
    t=int(s.ev(e.args[2]))
    if t not in s.w.targets and t not in s.w.more: s.put(s.A(e,0),Ptr()); return
    b=("target",t); s.cells[(b,0)]=V(16,{("g","_ZTVN2vp1TE"):1}); s.put(s.A(e,0),Ptr(V(0,{b:1})))
@first(r"nusquids::TauDecaySpectra::dNdEnu_(All|Lep)\(")
def _(s,e,d): return V(s.w.tau("All" if "All" in d else "Lep",*[int(s.ev(a)) for a in e.args[1:]]))
@first(r"nusquids::TauDecaySpectra::Init\(")
def _(s,e,d): return None
class IntMap:
    def __init__(s,d=None): s.d=dict(d or {})
    def copy(s): return IntMap(s.d)
IM=r"std::map<unsigned int, [^,]*, "
@first(IM+r".*>::map\(std::initializer_list")
def _(s,e,d):
    n=int(s.ev(e.args[2])); m={}
    for i in range(n): m.setdefault(int(s.mem(e,e.args[1]+const(8*i))),int(s.mem(e,e.args[1]+const(8*i+4))))
    s.put(s.A(e,0),IntMap(m))
@first(IM+r".*>::map\(\)")
def _(s,e,d): s.put(s.A(e,0),IntMap())
@first("(.* )?"+IM+r".*>::(operator=|swap)\(|"+IM+r".*>::map\(std::map")
def _(s,e,d):
    if "initializer_list" in d:
        n=int(s.ev(e.args[2])); m={}
        for i in range(n): m.setdefault(int(s.mem(e,e.args[1]+const(8*i))),int(s.mem(e,e.args[1]+const(8*i+4))))
        s.put(s.A(e,0),IntMap(m)); return s.ev.poly(e.args[0])
    if "swap" in d:
        a,b=s.O(e,0,IntMap),s.O(e,1,IntMap); s.put(s.A(e,0),b); s.put(s.A(e,1),a); return
    s.put(s.A(e,0),s.O(e,1,IntMap).copy()); return s.ev.poly(e.args[0])
@first("(.* )?"+IM+r".*>::(operator\[\]|at)\(")
def _(s,e,d):
    m=s.O(e,0,IntMap); k=int(s.mem(e,e.args[1]))
    if k not in m.d:
        if "::at(" in d: raise Refused(e)
        m.d[k]=0
    a=s.fresh("entry"); s.cells[(a,0)]=V(m.d[k]); return V(0,{a:1})
class AVec(Vec):
    """vector behind an allocator with state"""
    def copy(s): return AVec(s.vals)
@first(r"std::vector<double, (nusquids::)?aligned_allocator<double>>::vector\(")
def _(s,e,d):
    a=s.A(e,0)
    if "initializer_list" in d or "vector<" in d.split("::vector(",1)[1]: return NO
    n=int(s.ev(e.args[1])); v=0
    if "double const&" in d: v=s.mem(e,e.args[2],8,"double")
    s.put(a,AVec([v]*n))
class Codes(Vec):
    """vector of 32-bit codes"""
    width=4
    def copy(s): return Codes(s.vals)
@first(r"(.* )?std::vector<nusquids::PDGCode, .*>::(vector|operator=|~vector|operator\[\]|at|size)\(")
def _(s,e,d):
    a=s.A(e,0)
    if "~vector" in d: return
    if "::size(" in d: return V(len(s.O(e,0,Codes).vals))
    if "operator[]" in d or "::at(" in d: return V(4*s.ev(e.args[1]),{s.data(s.O(e,0,Codes)):1})
    if "initializer_list" in d:
        p=e.args[1]; n=int(s.ev(e.args[2])); q=s.ev.poly(p).ptr(); g=s.u.G.get(q[0][1]) if q and q[0][0]=="g" else None
        s.put(a,Codes([int(s.mem(e,p+const(4*j),4,"i32")) for j in range(n)]))
    elif "vector()" in d: s.put(a,Codes())
    else: s.put(a,cp(s.O(e,1,Codes)))
    return s.ev.poly(e.args[0])
@first(r"nusquids::marray<double, (\d+)u.*>::marray[<(]")
def _(s,e,d):
    if re.search(r"::marray\(nusquids::marray",d): return NO
    R=int(re.search(r"marray<double, (\d+)u",d).group(1)); x=extents(s,e,R)
    if x is None: return NO
    s.put(s.A(e,0),Arr(x,[None if "no_init" in d else 0]*math.prod(x)))
@first(r"(.* )?nusquids::marray<double, (\d+)u.*>::resize[<(]")
def _(s,e,d):
    R=int(re.search(r"marray<double, (\d+)u",d).group(1)); o=s.O(e,0,Arr)
    if re.search(r"::resize(<.*>)?\(unsigned (int|long), unsigned (int|long)\)",d): raise Unknown("resize of one extent")
    x=extents(s,e,R)
    if x is None: raise Unknown("new extents of an array")
    n=Arr(x,[0]*math.prod(x))
    import itertools
    for ix in itertools.product(*[range(min(p,q)) for p,q in zip(x,o.ext)]):
        f=lambda E: sum(i*math.prod(E[k+1:]) for k,i in enumerate(ix))
        n.vals[f(x)]=o.vals[f(o.ext)]
    # pointers to the old storage are not followed
    s.put(s.A(e,0),n)
class Term(Deep):
    """walker with algebra elements"""
    deep=8
    def leaf(s,k,ev):
        if k[0] in("and","irem"):
            # low bits of an address: blocks are taken to start half way between two multiples of 32
            x,m=(k[2],k[1]) if k[0]=="and" else (k[1],k[2])
            try: v=ev.poly(x)
            except Unknown: v=None
            if v is not None and v.ptr() is not None and v.b:
                mm=int(m) if isinstance(m,int) else int(ev(m))
                if k[0]=="and" and 0<=mm<4096: return V(int(16+v.n)&mm)
                if k[0]=="irem" and 0<mm<4096: return V(int(16+v.n)%mm)
        if k[0]=="ext":
            q=k[1].single() if hasattr(k[1],"single") else k[1]
            if q and q[0]=="call" and q[1]=="gsl_complex_rect": return V(ev(q[2][k[2][0]]))
        return super().leaf(k,ev)
    def load(s,a,ty,k):
        p=a.ptr()
        if p is not None and p not in s.cells and p not in s.obj:
            # data pointer behind the state of an allocator
            for (b,o),x in s.obj.items():
                if b==p[0] and isinstance(x,AVec) and p[1]-o in(8,16): return V(0 if p[1]-o==8 else 8*len(x.vals),{s.data(x):1})
                if b==p[0] and isinstance(x,Arr) and not isinstance(x,Vec) and p[1]-o==8*len(x.ext)+16: return V(0,{s.data(x):1})
        return super().load(a,ty,k)
    def condv(s,k,ev):
        if k[0]=="fpclass":
            x=ev(k[1]); m=int(ev(k[2]))
            if isinstance(x,float) and math.isnan(x): return bool(m&3)
            if isinstance(x,float) and math.isinf(x): return bool(m&(0x200 if x>0 else 4))
            return bool(m&((0x40|0x20) if x==0 else 0x180 if x>0 else 0x18))
        return super().condv(k,ev)
    def callv(s,k,ev):
        r=super().callv(k,ev)
        if r is None and len(k)>4 and k[4]=="ptr" and k[3] not in s.res: raise Unknown("result of a call not made: %s"%(s.u.sym.get(k[1],k[1]) if hasattr(s.u,"sym") else k[1],))
        return r
    def nested(s,w): w.issues=s.issues; w.trace=s.trace
    def mem_x(s,a):
        return s.cells[(a[0],a[1]+member(s.u,"nusquids::Body::Track","x"))].num()
    def blockop(s,e):
        if e.kind=="memset":
            p=s.ev.poly(e.addr if getattr(e,"addr",None) is not None else e.dst).ptr()
            if p is None: raise Unknown("memory cleared")
            v=s.ev(e.val) if getattr(e,"val",None) is not None else 0
            n=int(s.ev(e.len))
            if p[0][0]=="data":
                o=s.heap[p[0]]; w=getattr(o,"width",8)
                if v!=0: raise Unknown("memory set")
                for i in range(n//w):
                    k=int(p[1])//w+i
                    if not 0<=k<len(o.vals): s.issues.append("entry %d of %d cleared"%(k,len(o.vals))); break
                    o.vals[k]=0
                return
            for (b,o) in [k for k in s.cells if k[0]==p[0] and p[1]<=k[1]<p[1]+n]: s.cells[(b,o)]=V(0)
            # components of elements stored there
            for o in s.obj.values():
                if isinstance(o,Projs): o.vals=[Lin((),x.back) if isinstance(x,Lin) and x.back and x.back[0]==p[0] and p[1]<=x.back[1]<p[1]+n else x for x in o.vals]
            k=s.obj.get((p[0],-1))
            if isinstance(k,Block) and p[1]+n>k.n: s.issues.append("%s bytes cleared in a block of %s"%(n,k.n))
            return
        return super().blockop(e)
class TWorld(World):
    constant=False
    targets=(2212,2112); more=(11,)
    def density(s,x): return H("density",Q(x))
    def ye(s,x): return H("ye",Q(x))/2
    def flux(s,e,r,f): return H("flux",e,r,f)
    def xs(s,kind,target,*k): return H("xs",kind,target,*[float(x) for x in k])
    def tau(s,*k): return H("tau",*k)
def terms():
    kept=(r".*nusquids::marray<.*>::(marray|operator=|resize|~marray)[<(].*",r".*std::map<unsigned int, .*>::(operator\[\]|at|map|operator=)\(.*",
      names("PreDerive|UpdateInteractions|GetCrossSections|InitializeInteractions|InitializeInteractionVectors|EvolveProjectors|SetUpInteractionCache|PositivizeFlavors|ProgressBar|H0|HI|AntineutrinoCPFix|SetIniFlavorProyectors|iniProjectors|iniH0|GammaRho|InteractionsRho|GetTargetNumberFractions|GetTargetNumberDensities"))
    bc=lower(harness("terms.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=(r"(bool |double |unsigned int |unsigned long |squids::SU_vector const& |nusquids::[A-Za-z:]+ const& )?vp::.*",names("Set_.*|InitializeInteractions|InitializeInteractionVectors|iniProjectors|SetIniFlavorProyectors|AntineutrinoCPFix|UpdateInteractions|GetCrossSections|PreDerive|EvolveProjectors|H0|HI|GammaRho|InteractionsRho|GetTarget.*|iniH0|PositivizeFlavors|SetUpInteractionCache")),noinline=kept,layouts=True)
class Machine(Prop):
    """propagator whose algebra elements are linear forms; everything it owns is kept between operations"""
    walker=Term
    def __init__(s,u,world=None): super().__init__(u); s.w=world or TWorld(); s.nid=1
    def copy(s):
        p=type(s)(s.u,s.w); p.cells=dict(s.cells); p.obj={k:cp(v) for k,v in s.obj.items()}; p.hist=list(s.hist); p.nid=s.nid
        return p
    def do(s,name,*args,leaf=None):
        fl=s.u.flow(r"([a-z].* )?vp::%s\("%name)
        obj={k:cp(v) for k,v in s.obj.items() if k[0][0] not in("arg","out")}; A={}
        s.fl=fl; s.last=None; s.where=next((e.loc for e in fl.effects if e.loc and e.kind in('throw','store','call') and in_repo(e.loc)),fl.f)
        off=0 if fl.f.args[0]["name"]!="o" else 1
        if off: A[0]=V(0,{("out",):1})
        A[off]=V(0,{SELF:1})
        for i,a in enumerate(args):
            i+=1+off
            if isinstance(a,(int,float,Q)): A[i]=V(a)
            elif isinstance(a,V): A[i]=a
            elif isinstance(a,str): obj[(("arg",i),0)]=a; A[i]=V(0,{("arg",i):1})
            elif a is None: obj[(("arg",i),0)]=Ptr(); A[i]=V(0,{("arg",i):1})
            elif isinstance(a,tuple): obj[(("arg",i),0)]=Ptr(V(0,{a:1})); A[i]=V(0,{("arg",i):1})
            else: obj[(("arg",i),0)]=cp(a); A[i]=V(0,{("arg",i):1})
        w=s.walker(s.u,fl,s.w,obj=obj,args=A,leaf=leaf); s.nid+=1
        w.nid=10**9*s.nid
        w.cells={k:v for k,v in s.cells.items() if k[0][0] not in("arg","out")}
        s.last=w
        r=w.run()[0]; s.out=w.obj.get((("out",),0)); s.did=w.did
        if r=="returned": s.cells=w.cells; s.obj=w.obj; s.hist.append(name)
        s.ret=None
        if r=="returned" and fl.ret is not None:
            try: s.ret=w.ev.poly(fl.ret)
            except Unknown: pass
        return r
    def track(s,xini,xend,base=("track",)):
        for m,x in(("x",xini),("xini",xini),("xend",xend)): s.cells[(base,member(s.u,"nusquids::Body::Track",m))]=V(x)
    def state(s,e,r,v=None,which="rho"):
        """what the state of node e, type r is ("erho": while integrating); set it when v is given"""
        if v is not None: s.obj[((which,e),24*r)]=v
        return s.obj[((which,e),24*r)]
