"""The propagator as a machine: its public operations walked one after another on one object."""
from common import *
from walklib import *
NSQ="nusquids::nuSQUIDS"; SELF=("self",); SQ="squids::SQuIDS"
def names(rx): return r"nusquids::nuSQUIDS::(%s)\(.*"%rx
KEPT=(r".*nusquids::marray<.*>::(marray|operator=|resize|~marray)[<(].*",
      names("PreDerive|UpdateInteractions|GetCrossSections|InitializeInteractions|InitializeInteractionVectors|EvolveProjectors|SetUpInteractionCache|PositivizeFlavors|ProgressBar|H0|HI|AntineutrinoCPFix|SetIniFlavorProyectors|iniProjectors|iniH0"))
def unit():
    bc=lower(harness("guards.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=(r"(bool |double |unsigned int |unsigned long |squids::SU_vector const& |nusquids::[A-Za-z:]+ const& )?vp::.*",names("Set_.*|InitializeInteractions|iniProjectors|SetIniFlavorProyectors|AntineutrinoCPFix")),noinline=KEPT,layouts=True)
def whole(u):
    """also follow what is done on the way to an exception"""
    f=u.flow; u.flow=lambda rx,exc=False,**k: f(rx,exc,**{"keep_abort":True,**k}); return u
class Projs(Arr):
    """array of algebra elements, 24 bytes each"""
    width=24
    def copy(s): return Projs(s.ext,s.vals)
class Bits(Vec):
    """vector<bool> of fewer than 64 entries"""
    def copy(s): return Bits(s.vals)
def member(u,K,name):
    """offset of a data member, own or inherited"""
    for m in u.layouts[K]["members"]:
        if m["name"]==name: return m["off"]
        if m["inh"]:
            o=member(u,m["type"],name)
            if o is not None: return m["off"]+o
@model(r"squids::SQuIDS::SQuIDS\(\)")
def _(s,e,d):
    b,o=s.A(e,0)
    for n in("nx","nsun","nrhos","nscalars"): s.cells[(b,o+member(s.u,SQ,n))]=V(0)
    s.cells[(b,o+member(s.u,SQ,"state"))]=V(0); s.cells[(b,o+member(s.u,SQ,"t"))]=V(0); s.cells[(b,o+member(s.u,SQ,"t_ini"))]=V(0)
@model(r"squids::SQuIDS::ini\(")
def _(s,e,d):
    b,o=s.A(e,0)
    for n,i in(("nx",1),("nsun",2),("nrhos",3),("nscalars",4),("t",5),("t_ini",5)):
        try: s.cells[(b,o+member(s.u,SQ,n))]=s.ev.poly(e.args[i])
        except Unknown: s.cells.pop((b,o+member(s.u,SQ,n)),None)
    s.cells[(b,o+member(s.u,SQ,"state"))]=V(0,{("squidsstate",):1})
@model(r"squids::SQuIDS::Get_t(_initial)?\(\) const")
def _(s,e,d):
    b,o=s.A(e,0); return s.cells.get((b,o+member(s.u,SQ,"t_ini" if "initial" in d else "t")))
@model(r"squids::SQuIDS::Get_h\(\)")
def _(s,e,d): return s.cells.get((s.A(e,0)[0],"h"),V(Q(1,16)))
@model(r"squids::SQuIDS::Set_h\(double\)")
def _(s,e,d): 
    try: s.cells[(s.A(e,0)[0],"h")]=s.ev.poly(e.args[1])
    except Unknown: pass
    return V(0)
@model(r"squids::SQuIDS::Evolve\(double\)")
def _(s,e,d): s.did.append(("evolve",s.ev(e.args[1]))); return V(0)
@model(r"(void )?nusquids::marray<squids::SU_vector, (\d+)u.*>::resize[<(]")
def _(s,e,d):
    R=int(re.search(r"SU_vector, (\d+)u",d).group(1))
    v=s.O(e,1,Vec)
    n=math.prod(int(x) for x in v.vals); s.put(s.A(e,0),Projs([int(x) for x in v.vals],[0]*n))
@model(r"nusquids::marray<squids::SU_vector, (\d+)u.*>::marray\(std::allocator")
def _(s,e,d): s.put(s.A(e,0),Projs([0]*int(re.search(r"SU_vector, (\d+)u",d).group(1)),[]))
@model(r"operator new\(unsigned long\)")
def _(s,e,d): return V(0,{s.fresh("heap"):1})
def first(rx):
    def dec(f): MODELS.insert(0,(re.compile(rx.replace("STR::",re.escape("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"))),f)); return f
    return dec
@first(r"std::__shared_ptr<.*>::__shared_ptr<[^&]*\*\)$")
def _(s,e,d):
    if len(e.args)!=2: return NO
    v=s.ev.poly(e.args[1]); s.put(s.A(e,0),Ptr(v if v.b else None))
@model(r"std::__shared_ptr<.*>::swap\(")
def _(s,e,d):
    a,b=s.A(e,0),s.A(e,1); x,y=s.obj.get(a,Ptr()),s.obj.get(b,Ptr()); s.obj[a],s.obj[b]=y,x
@model(r"nusquids::CrossSectionLibrary::hasTarget\(")
def _(s,e,d): return V(1)
class Params:
    """mixing parameters: angles, phases and mass differences by their indices"""
    def __init__(s,d=None): s.d=dict(d or {})
    def copy(s): return Params(s.d)
    def key(s): return tuple(sorted(s.d.items()))
def params(s,e):
    a=s.A(e,0); o=s.obj.get(a)
    if not isinstance(o,Params): o=Params(); s.obj[a]=o
    return o
@model(r"squids::Const::Set(MixingAngle|Phase|EnergyDifference)\(")
def _(s,e,d):
    o=params(s,e); w=re.search(r"Set(\w+)",d).group(1)
    o.d[(w,)+tuple(int(s.ev(a)) for a in e.args[1:-1])]=s.ev(e.args[-1])
@model(r"squids::Const::Get(MixingAngle|Phase|EnergyDifference)\(")
def _(s,e,d):
    o=params(s,e); w=re.search(r"Get(\w+)\(",d).group(1)
    return V(o.d.get((w,)+tuple(int(s.ev(a)) for a in e.args[1:]),0))
class Deep(Walk):
    """runs what is called too when its body is at hand; remembers the calls that are not"""
    deep=4
    def nested(s,w): pass
    def __init__(s,*a,**k): super().__init__(*a,**k); s.calls=[]; s.did=[]; s.depth=0; s.names=[]
    def load(s,a,ty,k):
        p=a.ptr()
        if p is not None and p[0][0]=="g" and p[0][1].startswith("_ZTV"):
            g=s.u.G.get(p[0][1])
            try: return V(0,{("g",g["init"][1][1+int(p[1])//8][1]):1})
            except (TypeError,KeyError,IndexError): pass
        if p is not None and p not in s.cells:
            for (b,o),x in s.obj.items():
                if isinstance(x,Bits) and b==p[0] and o<=p[1]<o+32: return {0:V(0,{s.data(x):1}),8:V(0),16:V(0,{s.data(x):1}),24:V(len(x.vals))}[int(p[1]-o)]
        return super().load(a,ty,k)
    def call(s,e):
        d=e.dem or e.name or ""
        fn=None
        if e.name is None and getattr(e,"fp",None) is not None:
            try: p=s.ev.poly(e.fp).ptr()
            except Unknown: p=None
            if p and p[0][0]=="g" and p[1]==0: d=dem_of(s.u,p[0][1]) or d
        s.names.append(d)
        for rx,f in MODELS:
            if rx.match(d):
                r=f(s,e,d)
                if r is not NO: return r
        if e.noreturn: raise Refused(e)
        if d in s.u.fns and s.depth<s.deep: return s.invoke(d,[s.ev.poly(a) for a in e.args])
        s.trace.append(d)
        A=[]
        for a in e.args:
            try: A.append(s.ev.poly(a))
            except Unknown: A.append(None)
        s.calls.append((d,A,e))
        return None
    def invoke(s,d,args):
        """runs a function of the unit on the same memory"""
        fl=s.u.flow(re.escape(d)+"$")
        w=type(s)(s.u,fl,s.w,obj=s.obj,args=dict(enumerate(args)),leaf=s.xleaf)
        w.cells=s.cells; w.heap=s.heap; w.calls=s.calls; w.did=s.did; w.names=s.names; w.depth=s.depth+1; s.nid+=1; w.nid=1000*(s.nid+1); s.nested(w)
        r=w.run()
        if r[0]=="refused": raise Refused(r[1])
        return w.ev.poly(fl.ret) if fl.ret is not None else None
_D={}
def dem_of(u,sym):
    if id(u) not in _D:
        m={}
        def walk(x):
            if isinstance(x,(list,tuple)):
                if len(x)>=3 and x[0]=="g": m[x[1]]=x[2]
                for y in x: walk(y)
        for g in u.G.values(): walk(g.get("init"))
        _D[id(u)]=m
    return _D[id(u)].get(sym)
def in_repo(l): return any('nuSQuIDS' in str(x) for x in (l if isinstance(l,(list,tuple)) else [l]))
class Prop:
    """one propagator object and what has been done to it"""
    def __init__(s,u): s.u=u; s.cells={}; s.obj={}; s.hist=[]; s.last=None
    def copy(s):
        p=Prop(s.u); p.cells=dict(s.cells); p.hist=list(s.hist)
        p.obj={k:cp(v) for k,v in s.obj.items()}
        return p
    def do(s,name,*args,leaf=None,const=False):
        """'returned' | 'refused' | Unknown; the object moves on only when the operation returns"""
        fl=s.u.flow(r"([a-z].* )?vp::%s\("%name)
        obj={k:cp(v) for k,v in s.obj.items() if k[0]==SELF}; A={}
        s.fl=fl; s.last=None; s.where=next((e.loc for e in fl.effects if e.loc and e.kind in('throw','store','call') and in_repo(e.loc)),fl.f)
        off=0 if fl.f.args[0]["name"]!="o" else 1
        if off: A[0]=V(0,{("out",):1})
        A[off]=V(0,{SELF:1})
        for i,a in enumerate(args):
            i+=1+off
            if isinstance(a,(int,float,Q)): A[i]=V(a)
            elif isinstance(a,str): obj[(("arg",i),0)]=a; A[i]=V(0,{("arg",i):1})
            elif a is None: obj[(("arg",i),0)]=Ptr(); A[i]=V(0,{("arg",i):1})
            elif isinstance(a,tuple): obj[(("arg",i),0)]=Ptr(V(0,{a:1})); A[i]=V(0,{("arg",i):1})
            else: obj[(("arg",i),0)]=cp(a); A[i]=V(0,{("arg",i):1})
        w=Deep(s.u,fl,World(),obj=obj,args=A,leaf=leaf)
        w.cells={k:v for k,v in s.cells.items() if k[0]==SELF or k[0][0] in("squidsstate","track","body")}
        s.last=w
        for m,x in(("x",Q(3,2)),("xini",Q(1,2)),("xend",Q(9,2))):
            o=member(s.u,"nusquids::Body::Track",m)
            if o is not None: w.cells.setdefault((("track",),o),V(x))
        r=w.run()[0]
        s.fl=fl
        if r=="returned": s.cells=w.cells; s.obj=w.obj; s.hist.append(name)
        s.ret=None
        if r=="returned" and fl.ret is not None:
            try: s.ret=w.ev.poly(fl.ret)
            except Unknown: pass
        return r

class Rec:
    """what a worker found, replayed into the report"""
    def __init__(s): s.L=[]
    def ok(s,w,l=None): s.L.append(("ok",w,loc(l)))
    def bad(s,w,l=None): s.L.append(("bad",w,loc(l)))
    def und(s,w,l=None): s.L.append(("und",w,loc(l)))
    def check(s,c,w,l=None,detail=None):
        if c is None: s.und(w,l)
        elif c: s.ok(w,l)
        else: s.bad(w+(": "+detail if detail else ""),l)
        return c
    def replay(s,R):
        for k,w,l in s.L: getattr(R,k)(w,l)
def loc(l): return l if l is None or isinstance(l,(str,tuple,list)) else "%s:%s"%(getattr(l,"file",""),getattr(l,"line",""))
def spread(R,jobs):
    """run jobs (functions of a recorder) side by side"""
    import multiprocessing as mp
    global _JOBS
    _JOBS=jobs
    with mp.get_context("fork").Pool(min(8,len(jobs))) as P:
        for L,x in P.imap(_one,range(len(jobs)),chunksize=1):
            r=Rec(); r.L=L; r.replay(R)
            if x: R.und("analysis stopped: "+x)
def _one(i):
    r=Rec()
    try: _JOBS[i](r); return r.L,None
    except Exception as x:
        import traceback
        if os.environ.get("NSQ_DEBUG"): traceback.print_exc()
        return r.L,"%s: %s"%(type(x).__name__,x)
