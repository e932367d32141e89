#!/usr/bin/env python3
"""C37: the atmospheric propagator forwards settings to, evolves and evaluates all of its zenith nodes."""
from sulib import *
RULE=("the public operations of nuSQUIDSAtm are walked on one abstract object whose zenith nodes only record what is asked of them: a setting must reach every node (or the one asked for) with the value given, every node gets its own slice of the initial state, "
      "its trajectory and the body; EvolveState evolves each node once, whether tasks run at once or late, and is refused when any of them fails; evaluations must equal the interpolation between the enclosing nodes.")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR=1,2
ATM="nusquids::nuSQUIDSAtm<nusquids::nuSQUIDS, void>"; NODES=("nodes",)
def unit():
    bc=lower(harness("nodes.cpp"),extra=["-I"+VERIF+"/stub","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    kept=(r".*nusquids::marray<.*>::(marray|operator=|resize|~marray)[<(].*",r"nusquids::nuSQUIDS::.*",r".*ThreadPool::.*",r"nusquids::EarthAtm::.*",
          r".*std::vector<(std::future<void>|std::shared_ptr<.*>|nusquids::nuSQUIDS), .*>::(emplace_back|push_back|_M_emplace_back_aux|_M_realloc_insert|_M_realloc_append)[<(].*",r".*'lambda.*'\(.*\)::operator\(\).*")
    return extract(bc,roots=(r"([a-z].* )?vp::.*",r".*'lambda.*'\(.*\)::operator\(\).*",r".*std::_Bind<.*>::operator\(\).*"),noinline=kept,layouts=True)
class Nodes(TWorld):
    def __init__(s): s.n=3; s.N=0; s.nr=2; s.E=[]; s.cos=[]; s.inter=False; s.fail=set(); s.lazy=False; s.did=[]; s.tasks=[]; s.earth=("earth",); s.size=None; s.el={}; s.hw=0; s.NT=BOTH
    def length(s,earth,c): return H("length",earth,Q(c))
    def run(s,w,k):
        t=s.tasks[k]
        if t["done"]: return
        t["done"]=True
        try: w.invoke(t["fn"],[V(0,{t["at"]:1})])
        except Refused: t["failed"]=True
def node(s,e):
    """(argument position, node) of a call on a node"""
    for i in(0,1):
        if len(e.args)<=i: break
        try: p=s.ev.poly(e.args[i]).ptr()
        except Unknown: continue
        if p and p[0]==NODES:
            k=Q(p[1])/s.w.size
            if k.denominator!=1 or not 0<=k<s.w.N: s.issues.append("zenith node %s of %d is used"%(float(k),s.w.N)); raise Unknown("node outside")
            return i,int(k)
def val(s,e,a):
    """what an argument is: number, array, or what a shared pointer refers to"""
    v=s.ev.poly(a); p=v.ptr()
    if p is None: return v.num() if not v.b else v.key()
    o=s.obj.get(p)
    if isinstance(o,Ptr): return o.to.key() if o.to is not None else None
    if isinstance(o,Arr): return (tuple(o.ext),tuple(o.vals))
    return v.key()
def shared(s,e,i,to): s.put(s.A(e,i),Ptr(V(0,{to:1}) if to is not None else None))
def track_at(s,b,off,length,where):
    a,z=member(s.u,"nusquids::Body::Track","xini"),member(s.u,"nusquids::Body::Track","xend"); x0=H("start",where)
    s.cells[(b,off+a)]=V(x0); s.cells[(b,off+z)]=V(x0+length); x=member(s.u,"nusquids::Body::Track","x"); s.cells[(b,off+x)]=V(x0)
@first(r"(nusquids::nuSQUIDS|squids::SQuIDS)::~?(\w+)\(")
def _(s,e,d):
    if not isinstance(s.w,Nodes): return NO
    w=s.w; x=node(s,e); m=re.match(r"(nusquids::nuSQUIDS|squids::SQuIDS)::(~?\w+)\(",d).group(2)
    if x is None: raise Unknown("%s on something else than a node"%m)
    i,k=x; A=lambda j:s.ev(e.args[i+j])
    if m.startswith("Set_") or m=="SetNeutrinoCrossSections":
        a=tuple(val(s,e,x) for x in e.args[i+1:])
        if m=="Set_initial_state":
            want=(len(w.E),w.n) if w.NT!=BOTH else (len(w.E),2,w.n)
            if a[0][0]!=want: raise Refused(e)
        w.did.append((m,k,a)); return
    if m=="EvolveState":
        w.did.append((m,k,()))
        if k in w.fail: raise Refused(e)
        return
    if m=="InitializeInteractions": w.did.append((m,k,(ints(s,k),))); return
    if m=="GetInteractionStructure": shared(s,e,1-i,("tables",k)); return
    if m=="GetUseInteractions": return V(int(w.inter))
    if m=="GetNeutrinoCrossSections": shared(s,e,1-i,("xs of",k)); return
    if m in("GetState","GetFlavorProj"):
        j,r=int(A(1)),int(A(2))
        if r>=w.nr or j>=(len(w.E) if m=="GetState" else w.n): raise Refused(e)
        b=(m,k,j,r); s.obj[(b,0)]=Lin({("S",(k,j),r) if m=="GetState" else ("P",("f",j,r)):1}); return V(0,{b:1})
    if m=="H0": put(s,s.A(e,1-i),Lin({("H0",Q(A(1))):1})); return
    if m=="Get_t": return V(H("t0",k)+w.part*w.length(w.at[k],w.cos[k]))
    if m=="Get_t_initial": return V(H("t0",k))
    if m in("GetTrackFast","GetTrack"):
        b=("track of",k); track_at(s,b,0,w.length(w.at[k],w.cos[k]),b)
        if m=="GetTrack": shared(s,e,1-i,b); return
        return V(0,{b:1})
    if m=="GetNumNeu": return V(w.n)
    if m=="GetNumRho": return V(w.nr)
    if m=="GetNumE": return V(len(w.E))
    if m.startswith("Get_"): return V(H("get",m,k,tuple(Q(s.ev(x)) for x in e.args[i+1:])))
    if m=="GetERange": s.put(s.A(e,1-i),Arr([len(w.E)],w.E)); return
    if m.startswith("~") or m=="nuSQUIDS": return
    raise Unknown(m)
def ints(s,k):
    off=k*s.w.size+member(s.u,NSQ,"int_struct"); o=s.obj.get((NODES,off)); return o.to.key() if isinstance(o,Ptr) and o.to is not None else None
def count(s,a,n):
    s.w.N=n; s.cells[a]=V(0,{NODES:1}); s.cells[(a[0],a[1]+8)]=V(n*s.w.size,{NODES:1}); s.cells[(a[0],a[1]+16)]=V(max(n,1)*s.w.size,{NODES:1})
@first(r"squids::SU_vector::GetComponents\(")
def _(s,e,d):
    if not isinstance(s.w,Nodes): return NO
    i=next((i for i in(0,1) if isinstance(s.obj.get(s.A(e,i)),Lin)),None)
    if i is None: raise Unknown("components")
    b=s.A(e,i)[0]
    if b[0]!="GetState": raise Unknown("components of something else")
    s.put(s.A(e,1-i),Vec([component(b[1],b[2],b[3],c) for c in range(s.w.n**2)]))
def component(k,j,r,c): return Q(1000*k+200*j+100*r+c,3)
@first(r"std::vector<nusquids::nuSQUIDS, .*>::(vector|clear|reserve|~vector)\(")
def _(s,e,d):
    if not isinstance(s.w,Nodes): return NO
    if "vector()" in d: count(s,s.A(e,0),0)
    elif "clear" in d: count(s,s.A(e,0),0)
    elif "vector(" in d and "~" not in d: return NO
@first(r".*std::vector<nusquids::nuSQUIDS, .*>::emplace_back[<(]")
def _(s,e,d): count(s,s.A(e,0),s.w.N+1)
# lists of trajectories and of tasks
for _n,_w in((r"std::shared_ptr<[^<>]*Track>",16),(r"std::future<void>",16)):
    @first(r"std::vector<%s, .*>::(vector\(\)|clear\(\)|~vector\(\)|reserve\()"%_n)
    def _(s,e,d):
        if "~" in d or "reserve" in d: return
        a=s.A(e,0); b=s.fresh("list")
        for i in(0,8,16): s.cells[(a[0],a[1]+i)]=V(0,{b:1})
    @first(r".*std::vector<%s, .*>::(emplace_back|push_back)[<(]"%_n)
    def _(s,e,d,_w=_w):
        a=s.A(e,0); k=(a[0],a[1]+8)
        if k not in s.cells:
            b=s.fresh("list")
            for i in(0,8,16): s.cells[(a[0],a[1]+i)]=V(0,{b:1})
        q=s.cells[k].ptr(); o=s.obj.get(s.A(e,1))
        if o is None: raise Unknown("what is appended")
        s.obj[q]=cp(o); s.cells[k]=V(q[1]+_w,{q[0]:1}); s.cells[(a[0],a[1]+16)]=s.cells[k]
    @first(r"std::vector<%s, .*>::(operator\[\]|at|size|back|front|begin|end|empty)\("%_n)
    def _(s,e,d,_w=_w):
        a=s.A(e,0); f=re.search(r">::(operator\[\]|at|size|back|front|begin|end|empty)\(",d).group(1)
        if a not in s.cells: raise Unknown("list not made")
        q=s.cells[a].ptr(); z=s.cells[(a[0],a[1]+8)].ptr(); n=int(z[1]-q[1])//_w
        if f=="size": return V(n)
        if f=="empty": return V(int(n==0))
        if f in("begin","end"): return s.cells[(a[0],a[1]+8*(f=="end"))]
        i=int(Q(s.ev(e.args[1]))) if f in("operator[]","at") else n-1 if f=="back" else 0
        if not 0<=i<n:
            if f=="at": raise Refused(e)
            s.issues.append("entry %d of a list of %d"%(i,n)); raise Unknown("list entry")
        return V(q[1]+_w*i,{q[0]:1})
class Fut:
    def __init__(s,k): s.k=k
    def copy(s): return s
@first(r".*ThreadPool::enqueue<|.*ThreadPool::enqueue\(")
def _(s,e,d):
    if len(e.args)!=3: raise Unknown("task with arguments")
    i=d.index("enqueue<")+8; n=0
    for j in range(i,len(d)):
        n+=d[j] in"<(" ; n-=d[j] in">)"
        if n<0: break
    t=d[i:j].rstrip("& "); fns=[f for f in s.u.fns if f in(t+"::operator()() const",t+"::operator()()")]
    if len(fns)!=1: raise Unknown("task "+t[:80])
    p=s.A(e,2); b=("task",len(s.w.tasks))
    for (c,o),v in list(s.cells.items()):
        if c==p[0] and p[1]<=o<p[1]+64: s.cells[(b,o-p[1])]=v
    s.w.tasks.append(dict(fn=fns[0],at=b,done=False,failed=False)); s.put(s.A(e,0),Fut(len(s.w.tasks)-1))
    if not s.w.lazy: s.w.run(s,len(s.w.tasks)-1)
@first(r"std::(future<void>|__basic_future<void>)::(~?\w+)\(")
def _(s,e,d):
    if "~" in d: return
    if "future(std::future<void>&&" in d or "operator=" in d: s.put(s.A(e,0),s.obj.get(s.A(e,1)))
@first(r"std::(future<void>|__basic_future<void>)::(get|wait|_M_get_result)\(\)|std::__basic_future<void>::wait_for<|std::__basic_future<void>::_M_get_result\(\)|std::__future_base::_State_baseV2::wait\(\)")
def _(s,e,d):
    a=s.A(e,0); o=s.obj.get(a)
    if not isinstance(o,Fut): raise Unknown("task waited for")
    s.w.run(s,o.k)
    if "get" in d and s.w.tasks[o.k]["failed"]: raise Refused(e)
@first(r"ThreadPool::ThreadPool\(")
def _(s,e,d):
    n=s.ev(e.args[1])
    if n<1: s.issues.append("a pool of %s threads"%n)
@first(r"ThreadPool::~ThreadPool\(")
def _(s,e,d):
    for k in range(len(s.w.tasks)): s.w.run(s,k)
@first(r"std::thread::hardware_concurrency\(")
def _(s,e,d): return V(s.w.hw)
@first(r"nusquids::EarthAtm::(MakeTrackWithCosine)\(")
def _(s,e,d):
    b,o=s.A(e,0); earth=s.A(e,1)[0]; c=Q(s.ev(e.args[2])); track_at(s,b,o,s.w.length(earth,c),("made",earth,c)); s.obj[(b,o)]=Trk(earth,c)
class Trk:
    def __init__(s,earth,c): s.earth=earth; s.c=c
    def copy(s): return s
@first(r".*std::make_shared<nusquids::EarthAtm>\(|.*std::make_shared<nusquids::EarthAtm,")
def _(s,e,d): shared(s,e,0,("default earth",))
@first(r".*std::make_shared<nusquids::EarthAtm::Track")
def _(s,e,d):
    o=s.obj.get(s.A(e,1))
    if not isinstance(o,Trk): raise Unknown("trajectory")
    shared(s,e,0,("trajectory",o.earth,o.c))
@first(r"gsl_rng_|_?gsl_ran_flat")
def _(s,e,d): return V(H("random"))
# ---- the object
class NodeWalk(Term):
    def stream(s,e,i):
        p=s.ev.poly(e.args[i]).ptr()
        if p is not None and p[0][0]=="g" and p[0][1] in("_ZSt4cout","_ZSt4cerr"): return s.obj.setdefault(p,Stream(p[0][1],True))
        return super().stream(e,i)
    def load(s,a,ty,k):
        p=a.ptr()
        if p is not None and p[0]==NODES and p not in s.cells and Q(p[1])%s.w.size==0:
            if not 0<=p[1]<s.w.N*s.w.size: s.issues.append("zenith node %s of %d is used"%(p[1]//s.w.size,s.w.N)); raise Unknown("node outside")
            return V(16,{("g","_ZTVN2vp4NodeE"):1})
        return super().load(a,ty,k)
    def callv(s,k,ev):
        if k[1] in("std::upper_bound","std::lower_bound") and len(k[2])==3:
            a,z=ev.ptr(k[2][0]),ev.ptr(k[2][1]); x=ev.poly(k[2][2]); p=x.ptr()
            x=x.num() if p is None else s.cells[p].num() if p in s.cells else None
            if x is None or not a or not z or a[0][0]!="data" or a[0]!=z[0]: raise Unknown("search")
            o=s.heap[a[0]].vals; i,n=int(Q(a[1])/8),int(Q(z[1])/8)
            if not 0<=i<=n<=len(o): s.issues.append("entries %d to %d of %d searched"%(i,n,len(o))); raise Unknown("search")
            while i<n and (Q(o[i])<x or (k[1].endswith("upper_bound") and Q(o[i])==x)): i+=1
            return V(8*i,{a[0]:1})
        if k[1]=="std::distance":
            a,z=ev.ptr(k[2][0]),ev.ptr(k[2][1])
            if not a or not z or a[0]!=z[0]: raise Unknown("distance")
            return V(Q(z[1]-a[1])/8)
        return super().callv(k,ev)
class Atm(Machine):
    walker=NodeWalk
    def __init__(s,u,w): super().__init__(u,w); w.size=u.layouts[NSQ]["size"]
@first(r"std::vector<bool, .*>::vector\(std::vector<bool, std::allocator<bool>> (const)?&")
def _(s,e,d):
    o=s.obj.get(s.A(e,1))
    if not isinstance(o,Bits): raise Unknown("flags copied")
    s.put(s.A(e,0),Bits(o.vals))
def m_(u,n): return member(u,ATM,n)
def start(u,cos,E,n,NT,inter=False):
    w=Nodes(); w.n=n; w.E=[Q(x) for x in E]; w.cos=[Q(x) for x in cos]; w.NT=NT; w.nr=2 if NT==BOTH else 1; w.inter=inter; w.part=Q(0); return w,Atm(u,w)
def build(u,R,t,cos,E,n,NT,inter=False):
    w,m=start(u,cos,E,n,NT,inter)
    r=m.do("c_atm",Arr([len(cos)],w.cos),Arr([len(E)],w.E),n,NT,int(inter))
    w.at=[("default earth",)]*len(cos)
    return w,m,r
def ops(w): return [x for x in w.did]
def did(w,name): return sorted((k,a) for n,k,a in w.did if n==name)
def reset(w): w.did=[]; w.tasks=[]
def key(b): return V(0,{b:1}).key()
COS=[(Q(-1),Q(-1,3),Q(1,5),Q(1)),(Q(-1),Q(0),Q(1,2)),(Q(-1,2),Q(1,4)),(Q(-1,4),)]
def same_args(a,b): return len(a)==len(b) and all((near(x,y) if isinstance(x,(int,float,Q)) and isinstance(y,(int,float,Q)) else x==y) for x,y in zip(a,b))
def go(R,m,t,what,*a,want="returned"):
    """walks an operation; None when its outcome is not known"""
    try: r=m.do(what,*a)
    except (Unknown,NotBuilt) as x:
        bad=m.last is not None and m.last.issues
        if bad: R.bad(t+what+": "+m.last.issues[0],m.where)
        else: R.und(t+what+": %s"%x)
        return None
    for i in m.last.issues[:1]: R.bad(t+what+": "+i,m.where)
    if want: R.check(r==want,t+what+(" is accepted" if want=="returned" else " is refused"),m.where)
    return r
def settings(R,u,cos):
    t="%d zenith nodes: "%len(cos)
    w,m,r=build(u,R,t,cos,(2,5,11),3,BOTH)
    if not R.check(r=="returned",t+"construction succeeds",m.where): return
    N=len(cos); loc=m.where
    R.check(w.N==N,t+"one node per zenith",loc,detail="%d nodes"%w.N)
    R.check(did(w,"Set_Body")==[(k,(key(("default earth",)),)) for k in range(N)],t+"every node gets the Earth",loc,detail="not all of them do")
    R.check(did(w,"Set_Track")==[(k,(key(("trajectory",("default earth",),Q(cos[k]))),)) for k in range(N)],t+"every node gets the trajectory of its zenith",loc,detail="some get another one or none")
    def each(name,inner,args,wargs=None):
        reset(w); c=m.copy(); c.w=w
        if go(R,c,t,name,*args)!="returned": return None
        got=did(w,inner); wargs=args if wargs is None else wargs
        ok=[k for k,a in got]==list(range(N)) and all(same_args(a,wargs) for k,a in got)
        R.check(ok,t+"%s reaches every node with its value"%name,c.where,detail="%d of %d are set"%(len([1 for k,a in got if same_args(a,wargs)]),N))
        R.check(not [1 for n,k,a in w.did if n!=inner and n.startswith("Set") and n!="Set_Track"],t+name+" sets nothing else",c.where)
        return c
    for nm in("Set_h","Set_h_max","Set_h_min","Set_abs_error","Set_rel_error"):
        each(nm,nm,(Q(3,7),))
        for k in list(range(N))+[N,N+1,4294967295]:
            reset(w); c=m.copy(); c.w=w; r=go(R,c,t,nm+"_at",Q(5,7),k,want=None)
            if r is None: continue
            R.check(r==("returned" if k<N else "refused"),t+"%s for node %d of %d is %s"%(nm,k,N,"accepted" if k<N else "refused"),c.where)
            if k<N: R.check(did(w,nm)==[(k,(Q(5,7),))],t+"%s for node %d of %d sets that one"%(nm,k,N),c.where,detail="nodes %s"%[x for x,a in did(w,nm)])
    for nm in("Set_PositivityConstrainStep","Set_EvolLowPassCutoff","Set_EvolLowPassScale"): each(nm,nm,(Q(3,7),))
    for nm in("Set_ProgressBar","Set_TauRegeneration","Set_GlashowResonance","Set_IncludeOscillations","Set_AllowConstantDensityOscillationOnlyEvolution","Set_PositivityConstrain","Set_NeutrinoSources"):
        for b in(1,0): each(nm,nm,(b,))
    each("Set_MixingParametersToDefault","Set_MixingParametersToDefault",())
    for nm in("Set_MixingAngle","Set_CPPhase"): each(nm,nm,(1,2,Q(3,7)))
    each("Set_SquareMassDifference","Set_SquareMassDifference",(2,Q(3,7)))
    each("Set_GSL_step","Set_GSL_step",(("stepper",),),(key(("stepper",)),))
    c=each("SetNeutrinoCrossSections","SetNeutrinoCrossSections",(("xs",),),(key(("xs",)),))
    c=each("Set_EarthModel","Set_Body",(("other",),),(key(("other",)),))
    if c is not None:
        R.check(did(w,"Set_Track")==[(k,(key(("trajectory",("other",),Q(cos[k]))),)) for k in range(N)],t+"with another Earth model every node gets the trajectory through it",c.where,detail="some keep the one through the previous model")
    for nm,a in(("Get_MixingAngle",(0,1)),("Get_CPPhase",(0,2)),("Get_SquareMassDifference",(1,))):
        c=m.copy(); c.w=w
        if go(R,c,t,nm,*a)=="returned": R.check(c.ret is not None and any(near(c.ret.num(),H("get",nm,k,tuple(Q(x) for x in a))) for k in range(N)),t+nm+" answers for the indices asked for",c.where,detail="another value")
    for nm,v in(("GetNumE",3),("GetNumCos",N),("GetNumNeu",3),("GetNumRho",2)):
        c=m.copy(); c.w=w
        if go(R,c,t,nm)=="returned": R.check(c.ret is not None and c.ret.num()==v,t+nm+" is right",c.where)
    for k in list(range(N))+[N,4294967295]:
        c=m.copy(); c.w=w; r=go(R,c,t,"GetnuSQuIDS",k,want=None)
        if r is None: continue
        R.check(r==("returned" if k<N else "refused"),t+"GetnuSQuIDS %d of %d is %s"%(k,N,"accepted" if k<N else "refused"),c.where)
        if k<N and r=="returned": R.check(c.ret.ptr()==(NODES,k*w.size),t+"GetnuSQuIDS %d is that node"%k,c.where)
    for n,hw in((1,4),(3,4),(0,4),(0,0)):
        w.hw=hw; c=m.copy(); c.w=w
        if go(R,c,t,"Set_EvalThreads",n)=="returned" and go(R,c,t,"Get_EvalThreads")=="returned":
            R.check(c.ret.num()==(n or hw or 1),t+"%d threads asked for, %d in the machine"%(n,hw),c.where,detail="%s are used"%c.ret.num())
def states(R,u,cos,NT,basis,n=3,E=(2,5,11)):
    ne=len(E); N=len(cos); t="%d zenith and %d energy nodes, %d flavours, %s: "%(N,ne,n,{1:"neutrinos",2:"antineutrinos",3:"both types"}[NT])
    w,m,r=build(u,R,t,cos,E,n,NT)
    if r!="returned": R.bad(t+"construction is refused",m.where); return
    inner=(ne,n) if NT!=BOTH else (ne,2,n); f="Set_initial_state_%d"%(len(inner)+1)
    v=lambda ext:[Q(k*k+1,7) for k in range(math.prod(ext))]
    ext=(N,)+inner; reset(w); c=m.copy(); c.w=w
    r=go(R,c,t,"EvolveState",want="refused"); R.check(not did(w,"EvolveState"),t+"nothing is evolved without an initial state",c.where) if r else None
    reset(w); c=m.copy(); c.w=w
    if go(R,c,t,f,Arr(ext,v(ext)),basis)=="returned":
        got=did(w,"Set_initial_state"); V0=v(ext); sz=math.prod(inner)
        ok=[k for k,a in got]==list(range(N))
        R.check(ok,t+"every node is given its initial state once",c.where,detail="nodes %s"%[k for k,a in got])
        for k,a in got:
            R.check(a[0]==(inner,tuple(V0[k*sz:(k+1)*sz])),t+"node %d is given its own part of the initial state"%k,c.where,detail="other entries")
            R.check(a[1]==basis,t+"node %d is told the basis"%k,c.where)
        if basis==FLAVOR:
            for r in range(w.nr+1):
                d=c.copy(); d.w=w; z=go(R,d,t+"type %d: "%r,"GetStates",r,want="returned" if r<w.nr else "refused")
                if z!="returned" or r>=w.nr: continue
                o=d.out; want=[component(k,0,r,i) for k in range(N) for i in range(n*n)]
                R.check(list(o.ext)==[N,n*n] and all(near(a,b) for a,b in zip(o.vals,want)) if isinstance(o,Arr) else None,t+"GetStates gives the components of type %d of every node in order"%r,d.where,detail="other components")
    for i in range(len(ext)):
        for d in(-1,1):
            x=list(ext); x[i]+=d
            if x[i]<1: continue
            reset(w); c=m.copy(); c.w=w
            r=go(R,c,t+"extents %s: "%(tuple(x),),f,Arr(x,v(x)),basis,want="refused")
            if r=="refused": R.check(not did(w,"Set_initial_state"),t+"extents %s are refused before any node is changed"%(tuple(x),),c.where)
def evolve(R,u,cos,inter,threads,lazy,bar):
    N=len(cos); t="%d zenith nodes, %d threads%s%s%s: "%(N,threads,", tasks run late" if lazy else "",", interactions" if inter else "",", progress bar" if bar else "")
    w,m,r=build(u,R,t,cos,(2,5),3,NU,inter)
    if r!="returned": R.bad(t+"construction is refused",m.where); return
    for f,a in(("Set_initial_state_3",(Arr([N,2,3],[Q(1)]*(6*N)),FLAVOR)),("Set_EvalThreads",(threads,)),("Set_ProgressBar",(int(bar),))):
        if go(R,m,t,f,*a)!="returned": return
    w.lazy=lazy
    for fail in[set()]+[{k} for k in range(N)]+([set(range(N))] if N>1 else []):
        q="node %s fails: "%sorted(fail) if fail else ""
        reset(w); w.fail=fail; c=m.copy(); c.w=w
        r=go(R,c,t+q,"EvolveState",want="refused" if fail else "returned")
        if r is None: continue
        got=[k for k,a in did(w,"EvolveState")]
        if not fail: R.check(got==list(range(N)),t+"every node is evolved once",c.where,detail="nodes %s"%got)
        else: R.check(len(set(got))==len(got),t+q+"no node is evolved twice",c.where)
        if r!="returned" and not fail: continue
        if inter and not fail:
            order=[(n,k,a) for n,k,a in w.did if n in("InitializeInteractions","EvolveState")]
            for k in range(N):
                mine=[(n,a) for n,kk,a in order if kk==k]
                R.check(any(n=="InitializeInteractions" for n,a in mine[:1+[n for n,a in mine].index("EvolveState")]) if ("EvolveState",()) in mine else None,t+"the interactions of node %d are initialized before it is evolved"%k,c.where)
            tb=[c.obj.get((NODES,k*w.size+member(u,NSQ,"int_struct"))) for k in range(N)]
            R.check(all(isinstance(x,Ptr) and x.to is not None and x.to.key()==tb[0].to.key() for x in tb) if isinstance(tb[0],Ptr) and tb[0].to is not None else None,t+"all nodes share one set of cross section tables",c.where)
        last={k:a for n,k,a in w.did if n=="Set_ProgressBar"}
        if threads>1: R.check(all(a==(int(bar),) for a in last.values()),t+q+"progress bars are left as they were",c.where,detail="switched %s"%("off" if bar else "on"))
def evaluate(R,u,cos,E,n,NT,part,earth):
    N=len(cos); t="%d zenith and %d energy nodes, %d flavours, %s%s%s: "%(N,len(E),n,{1:"neutrinos",2:"antineutrinos",3:"both types"}[NT],", partly evolved" if 0<part<1 else "",", another Earth model" if earth else "")
    w,m,r=build(u,R,t,cos,E,n,NT)
    if r!="returned": R.bad(t+"construction is refused",m.where); return
    shape=(N,len(E),n) if NT!=BOTH else (N,len(E),2,n)
    c=m.copy(); c.w=w; go(R,c,t+"without an initial state: ","EvalFlavor",0,cos[0],E[0],0,want="refused")
    if earth:
        if go(R,m,t,"Set_EarthModel",("other",))!="returned": return
        tr=dict(did(w,"Set_Track")); w.at=[("other",) if k in tr and len(tr)==2*0+N and did(w,"Set_Track").count((k,tr[k])) and tr[k]==(key(("trajectory",("other",),Q(cos[k]))),) else ("default earth",) for k in range(N)]
    if go(R,m,t,"Set_initial_state_%d"%len(shape),Arr(shape,[Q(1)]*math.prod(shape)),FLAVOR)!="returned": return
    w.part=Q(part)
    X=list(cos)+[(2*a+b)/3 for a,b in zip(cos,cos[1:])]+[(a+4*b)/5 for a,b in zip(cos,cos[1:])]
    EN=[Q(x) for x in E]; Y=EN+[(a+2*b)/3 for a,b in zip(EN,EN[1:])]
    def ref(f,x,y,r,avg):
        """values of the interpolation between the enclosing nodes"""
        L=("other",) if earth else ("default earth",); k0=max([k for k in range(N-1) if cos[k]<=x] or [0]); j0=max([j for j in range(len(EN)-1) if EN[j]<=y] or [0])
        g=[(k0,Q(1))] if N==1 else [(k0,(cos[k0+1]-x)/(cos[k0+1]-cos[k0])),(k0+1,(x-cos[k0])/(cos[k0+1]-cos[k0]))]
        out=[]
        for fy in(lambda z:Q(z),lambda z:Q(math.log(z))):
            h=[(j0,Q(1))] if len(EN)==1 else [(j0,(fy(EN[j0+1])-fy(y))/(fy(EN[j0+1])-fy(EN[j0]))),(j0+1,(fy(y)-fy(EN[j0]))/(fy(EN[j0+1])-fy(EN[j0])))]
            S=Lin({("S",(k,j),r):a*b for k,a in g for j,b in h})
            out.append(inner(evolved(Lin({("P",("f",f,r)):1}),(Lin({("H0",Q(y)):1}).key(),Q(w.part*w.length(L,x)))+avg),S))
        return out
    def ask(what,a,vals,title,refuse=False):
        c=m.copy(); c.w=w; reset(w)
        r=go(R,c,t+title+": ",what,*a,want="refused" if refuse else "returned")
        if refuse or r!="returned": return
        R.check(c.ret is not None and any(near(c.ret.num(),v) or abs(float(c.ret.num()-v))<1e-9*abs(float(v)) for v in vals),t+title+" is the interpolation between the enclosing nodes",c.where,detail="another zenith, energy, flavour, type or time is used")
    for f in(0,n-1):
        for r in range(w.nr):
            for x in X:
                for y in(Y if (f,r)==(0,0) or x in X[-2:] else Y[-2:]):
                    ask("EvalFlavor",(f,x,y,r),ref(f,x,y,r,()),"flavour %d, type %d at %s, %s"%(f,r,x,y))
                    if y in(EN[0],Y[-1]): ask("EvalFlavor_A",(f,x,y,r,Q(5,3),Bits([0]*n)),ref(f,x,y,r,(("avg",),)*2),"flavour %d, type %d at %s, %s, averaged"%(f,r,x,y))
    lo,hi=cos[0],cos[-1]; e0,e1=EN[0],EN[-1]
    for what,more in(("EvalFlavor",()),("EvalFlavor_A",(Q(5,3),Bits([0]*n)))):
        for x,y,tt in((lo-Q(1,100),e0,"zenith below the nodes"),(hi+Q(1,100),e0,"zenith above the nodes"),(lo,e0*Q(99,100),"energy below the nodes"),(hi,e1*Q(101,100),"energy above the nodes")): ask(what,(0,x,y,0)+more,None,what+" at a "+tt,True)
        for f,r,tt in((n,0,"flavour %d of %d"%(n,n)),(0,w.nr,"type %d of %d"%(w.nr,w.nr)),(0,2,"type 2")): ask(what,(f,lo,e0,r)+more,None,what+" for "+tt,True)
    for k in(n-1,n+1): ask("EvalFlavor_A",(0,lo,e0,0,Q(5,3),Bits([0]*k)),None,"%d averaging flags for %d flavours"%(k,n),True)
STOPS=("__cxa_rethrow","__cxa_throw","_ZSt17current_exceptionv","_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def swallowed(R,u):
    """a failure of a node that is caught and never raised again"""
    for f,g in sorted(u.fns.items()):
        if not re.match(r"vp::(EvolveState|Set_initial_state_.|Set_EarthModel)\(|.*nuSQUIDSAtm<.*::'lambda\d*'\(.*\)::operator\(\)",f) or "std::" in f.split("'lambda")[0]: continue
        B={b["id"]:b for b in g["blocks"]}; n=0
        for b in g["blocks"]:
            t=b["insts"][-1]
            if t["op"]!="invoke" or not re.match(r"(nusquids::nuSQUIDS|squids::SQuIDS)::\w+\(|std::future<void>::get\(",t.get("dem") or ""): continue
            todo=[t["unwind"]]; seen=set(); stop=False; ret=False
            while todo:
                x=todo.pop()
                if x in seen: continue
                seen.add(x)
                for i in B[x]["insts"]:
                    if i.get("callee") in STOPS: stop=True
                z=B[x]["insts"][-1]; ret|=z["op"]=="ret"
                todo+=list(z["succ"]) if z["op"]=="br" else [c[1] for c in z["cases"]]+[z["default"]] if z["op"]=="switch" else [z["normal"],z["unwind"]] if z["op"]=="invoke" else []
            n+=1; w=re.match(r".*::(\w+)\(",t["dem"]).group(1); l=t["loc"][0] if t.get("loc") else (g.get("file"),g.get("line"))
            R.check(True if not ret else None if stop else False,"an exception raised by %s of a node is passed on"%w if "future" not in t["dem"] else "an exception reported by a task is passed on",tuple(l[:2]),detail="it is caught and forgotten")
def body(R):
    u=whole(unit())
    for n in sorted(u.dropped): R.und("entry point does not compile: %s"%n)
    if ATM not in u.layouts: raise AnalysisError("anchor: nuSQUIDSAtm not found")
    for f in sorted(u.fns):
        try: u.flow(re.escape(f)+"$")
        except Exception: pass
    jobs=[]
    for cos in COS: jobs.append(lambda R,cos=cos: settings(R,u,cos))
    for cos in COS:
        for NT,b in((BOTH,FLAVOR),(NU,MASS)): jobs.append(lambda R,cos=cos,NT=NT,b=b: states(R,u,cos,NT,b))
    for cos,NT,b,n,E in((COS[1],BOTH,MASS,4,(2,5)),(COS[2],BOTH,FLAVOR,6,(2,)),(COS[2],NU,FLAVOR,5,(2,5)),(COS[3],ANU,MASS,4,(2,5,11)),(COS[0],BOTH,FLAVOR,2,(2,5,11,12))): jobs.append(lambda R,a=(cos,NT,b,n,E): states(R,u,*a))
    for cos in COS[:1]+COS[2:]:
        for inter in(False,True):
            for th,lz in((1,0),(2,0),(2,1),(5,1)):
                for bar in(False,True): jobs.append(lambda R,a=(cos,inter,th,bool(lz),bar): evolve(R,u,*a))
    for cos,E,n,NT,part,earth in((COS[0],(2,5,11),3,BOTH,1,False),(COS[1],(2,5),4,NU,1,False),(COS[1],(2,5),3,ANU,Q(1,2),False),(COS[2],(3,),3,BOTH,1,False),(COS[3],(2,5),3,NU,1,False),(COS[3],(3,),3,BOTH,1,False),(COS[1],(2,5),3,BOTH,1,True)):
        jobs.append(lambda R,a=(cos,E,n,NT,Q(part),earth): evaluate(R,u,*a))
    def none(R):
        w,m=start(u,(),(2,5),3,NU); r=go(R,m,"no zenith nodes: ","c_atm",Arr([0],[]),Arr([2],w.E),3,NU,0,want="refused")
    def guarded(j):
        def run(R):
            try: j(R)
            except (Unknown,NotBuilt) as x: R.und("%s"%x)
        return run
    jobs.append(none)
    jobs.append(lambda R: swallowed(R,u))
    spread(R,[guarded(j) for j in jobs])
    for f in sorted(u.fns):
        if re.search(r"vp::",f): R.fn(f)
    R.scope("%d scenarios over 0 to 4 zenith nodes, 1 to 5 threads, tasks run at once or late, any node failing"%len(jobs))
if __name__=="__main__": main("C37",RULE,body)
