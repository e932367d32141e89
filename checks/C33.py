#!/usr/bin/env python3
"""C33: a saved propagator, read again, is the one that was saved."""
from sulib import *
RULE=("a propagator is set up, evolved and saved by walking its own operations over a model of the file (groups, datasets and attributes by name, with their shapes), and another one, made for a different problem, reads it; every documented getter, evaluation and "
      "derivative term must then answer as the saved one does, an unchanged part of the file must still restore its own state, and whatever was opened is released; a value that differs, a name that was never written or a table of another shape is a violation, an operation outside the model is undecided")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR,INT=1,2,3
H5=r"(H5LT)?"
class SWorld(TWorld):
    def __init__(s): super().__init__(); s.file=None; s.saved={}; s.handles={}; s.released=set(); s.absent=[]; s.wipe()
    def wipe(s): s.h5={}; s.alias={}; s.written=[]; s.groups=set(); s.types={}; s.strings={}
    def has(s,p): return p.rstrip("/")=="" or super().has(p) or norm(p) in getattr(s,"groups",set()) or any(k.startswith(norm(p)+"/") for k in s.groups)
def norm(p): return "/"+"/".join(x for x in p.split("/") if x)
def sw(s): return isinstance(s.w,SWorld)
def words(s,e,i,n,sz=8,ty="i64"):
    """n numbers in memory at an argument"""
    a=s.A(e,i); out=[]
    for k in range(n):
        c=s.cells.get((a[0],a[1]+sz*k))
        out.append(c.num() if c is not None else s.mem(e,e.args[i]+const(sz*k),sz,ty))
    return out
def loc(s,e,i):
    n=int(s.ev(e.args[i])); p=s.w.handles.get(n)
    if p is None: s.issues.append("a handle which is not open is used"); raise Unknown("handle")
    return p
def handle(s,p): n=1000+len(s.w.handles); s.w.handles[n]=p; return V(n)
@first(r"H5[A-Z]+[a-z_]\w*$")
def _(s,e,d):
    if not sw(s): return NO
    raise Unknown("an HDF5 operation outside the model: "+d)
@first(r"H5(open|Eset_auto2?|Eget_auto2?|Eprint2?|garbage_collect)$")
def _(s,e,d): return V(0) if sw(s) else NO
@first(r"H5[A-Z]close$")
def _(s,e,d):
    if not sw(s): return NO
    n=int(s.ev(e.args[0])); ok=n in s.w.handles and n not in s.w.released
    if not ok: s.issues.append("a handle which is not open is closed")
    s.w.released.add(n); return V(0 if ok else -1)
class Han:
    def __init__(s,n): s.n=n
    def copy(s): return Han(s.n)
@first(r"nusquids::H5(File|Handle)::")
def _(s,e,d):
    if not sw(s): return NO
    a=s.A(e,0); f=re.match(r"nusquids::H5(File|Handle)::(~?[\w ]+=?)\(",d).group(2); K="Handle" if "Handle::" in d else "File"
    if f in("H5File","H5Handle"):
        if "()" in d: s.obj[a]=Han(-1)
        elif "(long" in d:
            n=int(s.ev(e.args[1])); s.obj[a]=Han(n)
            if n<0 and K=="Handle": raise Refused(e)
        else: o=s.obj.get(s.A(e,1)); s.obj[a]=Han(o.n); o.n=-1
        return
    if f.startswith("~"):
        o=s.obj.pop(a,None)
        if isinstance(o,Han): s.w.released.add(o.n)
        return
    o=s.obj.get(a)
    if not isinstance(o,Han): raise Unknown("handle")
    if f=="operator=": x=s.obj.get(s.A(e,1)); o.n,x.n=x.n,o.n; return V(a[1],{a[0]:1})
    return V(o.n)
def child(p,n): return norm(n if n.startswith("/") else p+"/"+n)
@first(r"H5F(open|create)$")
def _(s,e,d):
    if not sw(s): return NO
    n=s.text(e,0); s.did.append((d,n))
    if d=="H5Fcreate": s.w.wipe(); s.w.file=n; return handle(s,"/")
    if s.w.file!=n: return V(-1)
    return handle(s,"/")
@first(r"H5G(open|create)2?$")
def _(s,e,d):
    if not sw(s): return NO
    p=child(loc(s,e,0),s.text(e,1)); w=s.w
    if "create" in d:
        if w.has(p): return V(-1)
        w.groups.add(p)
    elif p!="/" and p not in w.groups: return V(-1)
    return handle(s,p)
@first(r"nusquids::h5ObjectExists\(")
def _(s,e,d):
    if not sw(s): return NO
    p=child(loc(s,e,0),s.text(e,1)); return V(int(p=="/" or p in s.w.groups or p in s.w.h5))
@first(r"H5LTmake_dataset(_double)?$")
def _(s,e,d):
    if not sw(s): return NO
    p=child(loc(s,e,0),s.text(e,1)); r=int(s.ev(e.args[2])); dims=[int(x) for x in words(s,e,3,r)]
    if p in s.w.h5: s.issues.append("%s is written twice"%p); return V(-1)
    k=4 if d.endswith("double") else 5; v=s.ev.poly(e.args[k])
    s.w.h5[p]=Arr(dims,numbers(s,e,k,math.prod(dims)) if v.b else [0]*math.prod(dims)); return V(0)
def numbers(s,e,i,n):
    a=s.A(e,i); b,o=a
    if b[0]=="data":
        x=s.heap[b]; k=int(Q(o)/8)
        if k+n>len(x.vals): s.issues.append("%d values read of an array of %d"%(n,len(x.vals)-k)); raise Unknown("array")
        return list(x.vals[k:k+n])
    return words(s,e,i,n,8,"double")
def store(s,e,i,vals):
    b,o=s.A(e,i)
    if b[0]=="data":
        x=s.heap[b]; k=int(Q(o)/8)
        if k+len(vals)>len(x.vals): s.issues.append("%d values put into an array of %d"%(len(vals),len(x.vals)-k)); raise Unknown("array")
        x.vals[k:k+len(vals)]=vals; return
    blk=s.obj.get((b,-1))
    if isinstance(blk,Block) and o+8*len(vals)>blk.n: s.issues.append("%d values put into a block of %s bytes"%(len(vals),blk.n))
    for k,v in enumerate(vals): s.cells[(b,o+8*k)]=V(v)
@first(r"H5LTset_attribute_(int|uint|double|string)$")
def _(s,e,d):
    if not sw(s): return NO
    o=child(loc(s,e,0),s.text(e,1)); n=s.text(e,2); t=d.split("_")[-1]
    if o not in s.w.h5 and o not in s.w.groups: s.issues.append("attribute %s of %s, which does not exist"%(n,o)); return V(-1)
    if t=="string": s.w.h5[o+"@"+n]=("string",s.text(e,3)); return V(0)
    k=int(s.ev(e.args[4]))
    if k!=1: raise Unknown("attribute of several values")
    sz,ty=(8,"double") if t=="double" else (4,"i32")
    s.w.h5[o+"@"+n]=(t,words(s,e,3,1,sz,ty)[0]); return V(0)
@first(r"H5LTget_attribute_(int|uint|double|string)$")
def _(s,e,d):
    if not sw(s): return NO
    o=child(loc(s,e,0),s.text(e,1)); n=s.text(e,2); t=d.split("_")[-1]; v=s.w.h5.get(o+"@"+n)
    if v is None: s.w.absent.append(o+"@"+n); return V(-1)
    a=s.A(e,3)
    if t=="string":
        if v[0]!="string": raise Unknown("attribute kind")
        s.obj[a]=v[1]; return V(0)
    s.cells[a]=V(v[1]); return V(0)
@first(r"H5LTget_dataset_info$")
def _(s,e,d):
    if not sw(s): return NO
    p=child(loc(s,e,0),s.text(e,1)); o=s.w.h5.get(p)
    if o is None: s.w.absent.append(p); return V(-1)
    a=s.A(e,2)
    for k,x in enumerate(o.ext): s.cells[(a[0],a[1]+8*k)]=V(x)
    return V(0)
@first(r"H5LTread_dataset_double$")
def _(s,e,d):
    if not sw(s): return NO
    p=child(loc(s,e,0),s.text(e,1)); o=s.w.h5.get(p)
    if o is None: s.w.absent.append(p); return V(-1)
    store(s,e,2,list(o.vals)); return V(0)
@first(r"(.* )?(nusquids::)?(\(anonymous namespace\)::)?getStringAttribute(\[abi:cxx11\])?\(")
def _(s,e,d):
    if not sw(s): return NO
    o=child(loc(s,e,1),s.text(e,2)); v=s.w.h5.get(o+"@"+s.text(e,3))
    if v is None: raise Refused(e)
    s.put(s.A(e,0),v[1])
@first(r"vp_save_(body|track)$")
def _(s,e,d):
    k="body" if "body" in d else "track"; p=loc(s,e,1); a=s.A(e,0); s.w.h5[p+"@name"]=("string",k+" of a test"); 
    if k=="track": s.w.saved[p]={m:s.cells.get((a[0],a[1]+member(s.u,"nusquids::Body::Track",m))) for m in("x","xini","xend")}
    else: s.w.saved[p]={}
@first(r"nusquids::Get(Body|Track)Deserializer\(")
def _(s,e,d): s.put(s.A(e,0),("maker",s.text(e,1)))
@first(r"std::function<std::shared_ptr<nusquids::.*>.*>::operator\(\)\(long\)")
def _(s,e,d):
    o=s.obj.get(s.A(e,1)); p=loc(s,e,2)
    if p not in s.w.saved: raise Refused(e)
    if "body" not in o[1] and not s.w.saved[p]: raise Refused(e)
    if "body" in o[1]: b=("body restored",); s.cells[(b,0)]=V(16,{("g","_ZTVN2vp2SBE"):1})
    else:
        b=("track restored",); s.cells[(b,0)]=V(16,{("g","_ZTVN2vp2STE"):1})
        for m,v in s.w.saved[p].items():
            if v is not None: s.cells[(b,member(s.u,"nusquids::Body::Track",m))]=v
    s.put(s.A(e,0),Ptr(V(0,{b:1})))
@first(r"squids::SU_vector::operator\[\]\(int\)")
def _(s,e,d):
    if not sw(s): return NO
    a=s.A(e,0); v=get(s,e,0); b=("comp",)+a; i=int(s.ev(e.args[1]))
    if s.obj.get((b,-1))!=v.key():
        for k in [k for k in s.cells if k[0]==b]: del s.cells[k]
        s.obj[(b,-1)]=v.key()
    if (b,8*i) not in s.cells: s.cells[(b,8*i)]=V(component(v,i))
    return V(8*i,{b:1})
def component(v,i): return H("component",v.key(),i)
@first(r"squids::SQuIDS::Set_t\(double\)")
def _(s,e,d):
    b,o=s.A(e,0); s.cells[(b,o+member(s.u,SQ,"t"))]=s.ev.poly(e.args[1])
@first(r"strncmp$")
def _(s,e,d): 
    n=int(s.ev(e.args[2])); return V(int(s.text(e,0)[:n]!=s.text(e,1)[:n]))
@first(r"STR::(operator\[\]|front|back|at)\(")
def _(s,e,d):
    if not sw(s): return NO
    t=s.text(e,0); f=d.split("::")[-1]; i=0 if "front(" in d else len(t)-1 if "back(" in d else int(s.ev(e.args[1]))
    return V(i,{("chars",t):1})
@first(r"STR::(empty|size|length)\(")
def _(s,e,d):
    if not sw(s): return NO
    n=len(s.text(e,0)); return V(int(n==0) if "::empty(" in d else n)
@first(r"STR::substr\(")
def _(s,e,d):
    if not sw(s): return NO
    t=s.text(e,1); a,n=int(s.ev(e.args[2])),int(s.ev(e.args[3])); s.put(s.A(e,0),t[a:a+n] if 0<=n<2**62 else t[a:])
@first(r"STR::compare\((char const\*|std::__cxx11::basic_string<.*>( const)?&)\)")
def _(s,e,d):
    if not sw(s): return NO
    x,y=s.text(e,0),s.text(e,1); return V((x>y)-(x<y))
class SaveWalk(Term):
    def load(s,a,ty,k):
        p=a.ptr()
        if p is not None and p[0][0]=="chars" and ty=="i8":
            t=p[0][1]+"\0"
            if not 0<=p[1]<len(t): s.issues.append("character %s of a string of %d is read"%(p[1],len(t)-1)); raise Unknown("character")
            return V(ord(t[int(p[1])]))
        return super().load(a,ty,k)
    def text(s,e,i):
        p=s.ev.poly(e.args[i]).ptr()
        if p is not None and p[0][0]=="g" and p[0][1].startswith(".str") and (s.u.G.get(p[0][1]) or {}).get("str") is None: return ""
        return super().text(e,i)
    def stream(s,e,i):
        p=s.ev.poly(e.args[i]).ptr()
        if p is not None and p[0][0]=="g" and p[0][1] in("_ZSt4cout","_ZSt4cerr"): return s.obj.setdefault(p,Stream(p[0][1],True))
        return super().stream(e,i)
class Saver(Machine): walker=SaveWalk
@first(r"bool std::operator(==|!=)<char,")
def _(s,e,d):
    if not sw(s): return NO
    r=s.text(e,0)==s.text(e,1); return V(int(r==("operator==" in d)))
@first(r"(STR )?std::(__cxx11::)?to_string\(|.*std::__cxx11::to_string\(|.* std::to_string\(")
def _(s,e,d):
    if not sw(s): return NO
    if "double" in d: return NO
    s.put(s.A(e,0),str(int(s.ev(e.args[1]))))
def unit33():
    kept=(r".*nusquids::marray<.*>::(marray|operator=|resize|~marray)[<(].*",r".*std::map<unsigned int, .*>::(operator\[\]|at|map|operator=)\(.*",r".*getStringAttribute(\[abi:cxx11\])?\(.*",r"nusquids::H5(File|Handle)::.*",r".*nusquids::(add|read|write)(H5Attribute|ArrayH5).*",
      names("PreDerive|UpdateInteractions|GetCrossSections|InitializeInteractions|InitializeInteractionVectors|EvolveProjectors|SetUpInteractionCache|PositivizeFlavors|ProgressBar|H0|HI|AntineutrinoCPFix|SetIniFlavorProyectors|iniProjectors|iniH0|GammaRho|InteractionsRho|GetTargetNumberFractions|GetTargetNumberDensities|init|Set_.*"))
    bc=lower(harness("saves.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug","-fno-access-control"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=(r"(bool |double |unsigned int |unsigned long |std::.* |squids::SU_vector const& |nusquids::[A-Za-z:]+ const& )?vp::.*",names("Set_.*|init|InitializeInteractions|InitializeInteractionVectors|iniProjectors|SetIniFlavorProyectors|AntineutrinoCPFix|UpdateInteractions|GetCrossSections|PreDerive|EvolveProjectors|H0|HI|GammaRho|InteractionsRho|GetTarget.*|iniH0|PositivizeFlavors|SetUpInteractionCache")),noinline=kept,layouts=True)

def new(u,w,n=0): m=Saver(u,w); m.nid=1+10*n; return m
def walked(R,m,t,what,*a,want="returned"):
    w=m.w; w.absent=[]; n=len(w.handles); w.released=set()
    try: r=m.do(what,*a)
    except (Unknown,NotBuilt) as x:
        for i in(m.last.issues[:1] if m.last is not None else []): R.bad(t+what+": "+i,m.where); raise Stop()
        if w.absent and what.startswith("Read"): R.bad(t+"reads %s, which is not written"%w.absent[-1],m.where); raise Stop()
        R.und(t+what+": %s"%x); raise Stop()
    for i in m.last.issues[:1]: R.bad(t+what+": "+i,m.where)
    if want is not None and not R.check(r==want,t+what+(" is accepted" if want=="returned" else " is refused"),m.where): raise Stop()
    left=[w.handles[k] for k in w.handles if k>=1000+n and k not in w.released]
    if what[:4] in("Read","Writ") and r=="returned": R.check(not left,t+what+" releases what it opens",m.where,detail="%s stays open"%(left[:1],))
    return r
class Stop(Exception): pass
class Cfg:
    def __init__(s,NT=BOTH,n=3,ne=3,inter=False,osc=True,tau=False,gr=False,evolve=True,single=False,seed=0): s.__dict__.update(locals()); del s.__dict__["s"]
    def name(s): return "%s, %d flavours, %s%s%s%s%s%s: "%({1:"neutrinos",2:"antineutrinos",3:"both types"}[s.NT],s.n,"single energy" if s.single else "%d energies"%s.ne,", interactions" if s.inter else "",", no oscillations" if not s.osc else "",", tau regeneration" if s.tau else "",", Glashow resonance" if s.gr else "","" if s.evolve else ", not evolved")
def prepare(R,u,w,c,t,k):
    m=new(u,w,k); E=[Q(3,2)*(i+1)+Q(i*i,4)+c.seed for i in range(1 if c.single else c.ne)]; m.E=E; go=lambda what,*a: walked(R,m,t,what,*a)
    if c.single: go("c_single",c.n,c.NT); go("Set_E",E[0])
    else: go("c_multi",Arr([c.ne],E),c.n,c.NT,int(c.inter))
    m.track(Q(1,2),Q(9,2)); m.cells[(("body",),0)]=V(16,{("g","_ZTVN2vp2SBE"):1}); m.cells[(("track",),0)]=V(16,{("g","_ZTVN2vp2STE"):1})
    for i in range(c.n):
        for j in range(i+1,c.n): go("Set_MixingAngle",i,j,H("th",c.seed,i,j)); go("Set_CPPhase",i,j,H("cp",c.seed,i,j))
        if i: go("Set_SquareMassDifference",i,H("dm",c.seed,i))
    go("Set_Body",("body",)); go("Set_Track",("track",))
    if c.tau: go("Set_TauRegeneration",1)
    if c.gr: go("Set_GlashowResonance",1)
    if not c.osc: go("Set_IncludeOscillations",0)
    if c.inter: go("SetNeutrinoCrossSections",("xs",))
    nr=2 if c.NT==BOTH else 1; v=[Q(1+i%7+c.seed,5) for i in range(len(E)*nr*c.n)]
    if c.single: go("Set_initial_state_1",Arr([c.n],v),FLAVOR)
    elif nr==1: go("Set_initial_state_2",Arr([c.ne,c.n],v),FLAVOR)
    else: go("Set_initial_state_3",Arr([c.ne,2,c.n],v),FLAVOR)
    if c.evolve:
        go("EvolveState")
        x=m.cells.get((("track",),member(u,"nusquids::Body::Track","xend")))   # the integrator, which moves along the trajectory, is outside
        m.cells[(("track",),member(u,"nusquids::Body::Track","x"))]=x
    for e in range(len(E)):
        for r in range(nr): m.state(e,r,Lin({("S",c.seed,e,r):1}))
    return m
def answer(R,m,t,what,*a):
    """what an operation answers, compared as a value"""
    c=m.copy()
    try: r=c.do(what,*a)
    except (Unknown,NotBuilt) as x: return ("unknown",str(x)),c
    if r!="returned": return ("refused",),c
    o=c.out
    if c.ret is not None: return ("value",float(c.ret.num())) if not c.ret.b else ("address",),c
    if isinstance(o,Lin): return ("element",o),c
    if isinstance(o,Arr): return ("array",tuple(o.ext),tuple(float(x) for x in o.vals)),c
    return ("done",),c
def agree(a,b):
    if a[0]=="unknown" or b[0]=="unknown": return None
    if a[0]!=b[0]: return False
    if a[0]=="value": return abs(a[1]-b[1])<=1e-9*max(1,abs(a[1]))
    if a[0]=="array": return a[1]==b[1] and all(abs(x-y)<=1e-9*max(1,abs(x)) for x,y in zip(a[2],b[2]))
    if a[0]=="element": return close_lin(a[1],b[1])
    return True
def same(R,u,c,t,m,k):
    """the restored propagator answers as the saved one"""
    nr=2 if c.NT==BOTH else 1; ne=len(m.E); loc=k.where
    for e in range(ne):
        for r in range(nr):
            b=("comp",("rho",e),24*r); v=m.state(e,r)
            got=[k.cells.get((b,8*i)) for i in range(c.n**2)]
            R.check(all(x is not None and not x.b and near(x.num(),component(v,i)) for i,x in enumerate(got)),t+"the state of energy %d, type %d is the saved one"%(e,r),loc,detail="other components" if None not in got else "components are never restored")
            k.state(e,r,v)
    asks=[("GetNumE",()),("GetNumNeu",()),("GetNumRho",()),("GetERange",()),("Time",()),("Time_initial",()),("Oscillations",()),("Interactions",())]
    asks+=[(f,(i,j)) for f in("Get_MixingAngle","Get_CPPhase") for i in range(c.n) for j in range(i+1,c.n)]+[("Get_SquareMassDifference",(i,)) for i in range(1,c.n)]
    for f in(0,c.n-1):
        if c.single: asks+=[("EvalFlavor_S",(f,)),("EvalMass_S",(f,))]
        else: asks+=[(g,(f,e,r)) for g in("EvalFlavorAtNode","EvalMassAtNode") for e in(0,ne-1) for r in range(nr)]+[(g,(f,y,r)) for g in("EvalFlavor_E","EvalMass_E") for r in range(nr) for y in({m.E[0],(m.E[0]+m.E[-1])/2})]
    for what,a in asks:
        x,_=answer(R,m,t,what,*a); y,z=answer(R,k,t,what,*a)
        R.check(agree(x,y),t+"%s%s answers as before"%(what,a if a else ""),z.where,detail="%s instead of %s"%(y[1:] if len(y)>1 and y[0]!="element" else y[0],x[1:] if len(x)>1 and x[0]!="element" else x[0]))
    # the derivative, here and further along the trajectory
    t0=Q(m.cells[(SELF,member(u,SQ,"t"))].num()); m2,k2=m.copy(),k.copy()
    for dt in(0,Q(3,4)):
        for q in(m2,k2):
            r=walked(R,q,t,"PreDerive",t0+dt)
            for e in range(ne):
                for rr in range(nr): q.state(e,rr,Lin({("E",e,rr):1}),"erho")
        for what in("H0","HI")+(("GammaRho","InteractionsRho") if c.inter else ()):
            for e in(0,ne-1):
                for r in range(nr):
                    a=(m.E[e],r) if what=="H0" else (e,r)
                    x,_=answer(R,m2,t,what,*a); y,z=answer(R,k2,t,what,*a)
                    R.check(agree(x,y),t+"%s of energy %d, type %d%s is as before"%(what,e,r,"" if not dt else " further on"),z.where,detail="another term")
def roundtrip(R,u,c,grp,other,xs):
    t=c.name()+"group '%s'%s: "%(grp,", tables in '%s'"%xs if c.inter and xs else ""); w=SWorld()
    try:
        m=prepare(R,u,w,c,t,0)
        if grp in("/",): walked(R,m,t,"Write","a.h5",grp,1,xs,1)
        else:
            d=prepare(R,u,w,Cfg(NT=NU,n=3,ne=2,seed=7),t+"another one in the file, ",20)
            walked(R,d,t,"Write","a.h5","/first",1,"",1); walked(R,m,t,"Write","a.h5",grp,1,xs,0)
        for i,o in enumerate(other):
            for how in(0,1):
                k=new(u,w,40+2*i+how); q=t+"read%s by one for %s "%(" with shared tables" if how else "",o.name())
                if o.single: walked(R,k,q,"c_single",o.n,o.NT)
                else: walked(R,k,q,"c_multi",Arr([o.ne],[Q(j+1) for j in range(o.ne)]),o.n,o.NT,int(o.inter))
                if not how: walked(R,k,q,"Read","a.h5",grp,xs)
                else:
                    k.cells[(("none",),0)]=V(0); k.obj[(("none",),0)]=Ptr(None); walked(R,k,q,"Read_shared","a.h5",grp,("none",))
                same(R,u,c,q,m,k); z=k.copy()
                walked(R,z,q,"Write","a.h5","/again %d"%len(w.groups),1,"",0); walked(R,z,q,"EvolveState")
        if grp!="/":
            k=new(u,w,60); walked(R,k,t,"c_single",3,NU); walked(R,k,t+"the other one: ","Read","a.h5","/first",""); same(R,u,Cfg(NT=NU,n=3,ne=2,seed=7),t+"the other one: ",d,k)
        k=new(u,w,80); walked(R,k,t,"c_single",3,NU)
        walked(R,k.copy(),t+"a group that is not there: ","Read","a.h5","/missing","",want="refused")
        walked(R,k.copy(),t+"a file that is not there: ","Read","b.h5",grp,"",want="refused")
    except Stop: pass
def refusals(R,u):
    w=SWorld(); t="saving too early: "
    try:
        for k,(what,steps) in enumerate((("without a trajectory",()),("without a state",("b","t")))):
            m=new(u,w,k*10); walked(R,m,t,"c_multi",Arr([2],[Q(1),Q(2)]),3,BOTH,0); m.track(Q(1,2),Q(9,2))
            m.cells[(("body",),0)]=V(16,{("g","_ZTVN2vp2SBE"):1}); m.cells[(("track",),0)]=V(16,{("g","_ZTVN2vp2STE"):1})
            if "b" in steps: walked(R,m,t,"Set_Body",("body",)); walked(R,m,t,"Set_Track",("track",))
            walked(R,m,t+what+", ","Write","a.h5","/",1,"",1,want="refused")
            R.check(w.file is None,t+what+" no file is touched",m.where)
    except Stop: pass
def body(R):
    u=unit33()
    for n in sorted(u.dropped): R.und("entry point does not compile: %s"%n)
    for f in sorted(u.fns):
        try: u.flow(re.escape(f)+"$")
        except Exception: pass
    A=[Cfg(single=True,NT=NU,n=3),Cfg(NT=BOTH,n=4,ne=2)]; B=[Cfg(NT=ANU,n=5,ne=5),Cfg(NT=BOTH,n=3,ne=3,inter=True)]
    jobs=[]
    for c,g,o,x in((Cfg(),"/",A,""),(Cfg(NT=NU,n=3,ne=2),"/state",B,""),(Cfg(NT=ANU,n=6,ne=3),"state",A,""),(Cfg(single=True,NT=NU),"/",A[1:],""),(Cfg(single=True,NT=ANU,n=4),"/one",B,""),
        (Cfg(n=4,ne=2,evolve=False),"/",B,""),(Cfg(osc=False),"/x",A,""),(Cfg(n=3,ne=1),"/",A,""),(Cfg(NT=NU,n=3,ne=1),"/",B,""))+INTER:
        jobs.append(lambda R,a=(c,g,o,x): roundtrip(R,u,*a))
    jobs.append(lambda R: refusals(R,u))
    def guarded(j):
        def run(R):
            try: j(R)
            except (Unknown,NotBuilt) as x: R.und("%s"%x)
        return run
    spread(R,[guarded(j) for j in jobs])
    for f in sorted(u.fns):
        if re.search(r"vp::",f): R.fn(f)
    R.scope("%d saved configurations, each read by propagators made for other problems"%(len(jobs)-1))
INTER=()
if __name__=="__main__": main("C33",RULE,body)
