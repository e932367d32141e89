#!/usr/bin/env python3
"""C34: the propagator's operations refuse what they are not ready for, and every index out of range."""
from proplib import *
RULE=("the public operations of nuSQUIDS are walked one after another on one abstract object, from every constructor, until no new combination of energy/body/trajectory/state/interaction readiness "
      "appears; in every combination each operation returns exactly when its documented preconditions hold and every index (in range, the first invalid one, larger ones) is in range, throws otherwise, "
      "and a refused call has changed nothing of the object before it throws.")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR,INT=1,2,3
class Ref:
    """what the object is ready for"""
    def __init__(s,**k): s.__dict__.update(k)
    def copy(s): return Ref(**s.__dict__)
    def key(s): return (s.E,s.B,s.T,s.S,s.I,s.lo,s.hi)
def text(r):
    L=[w for w,b in(("energies",r.E),("body",r.B),("trajectory",r.T),("state",r.S),("interactions",r.I)) if b]
    return "with "+", ".join(L) if L else "with nothing set"
def changed(p,w):
    """what a walk has changed of the object"""
    for k,v in w.cells.items():
        if k[0]==SELF and (k not in p.cells or p.cells[k].key()!=v.key()): return k[1]
    for k,o in p.obj.items():
        x=w.obj.get(k)
        if k[0]!=SELF: continue
        if type(x) is not type(o): return k[1]
        if isinstance(o,Arr) and (x.ext!=o.ext or x.vals!=o.vals): return k[1]
        if isinstance(o,Params) and x.d!=o.d: return k[1]
        if isinstance(o,Ptr) and (x.to.key() if x.to is not None else None)!=(o.to.key() if o.to is not None else None): return k[1]
    return None
def where(u,off):
    m=max((m for m in u.layouts[NSQ]["members"] if m["off"]<=off),key=lambda m:m["off"])
    return m["name"] or m["type"]
def ready(u,p):
    """the readiness the object itself records: its boolean members"""
    return tuple(p.cells[(SELF,m["off"])].key() if (SELF,m["off"]) in p.cells else None for m in u.layouts[NSQ]["members"] if m["type"]=="bool")
def bits(n): return Bits([0]*n)
def ops(r):
    """(operation, arguments, description, expected: True/False/None, effect on the reference)"""
    n,ne,nr=r.n,r.ne,2 if r.NT==BOTH else 1
    big=4294967295
    F=[(f,0<=f<n,"flavour %d of %d"%(f,n)) for f in(0,n-1,n,n+1,big)]
    ER=[(e,e<ne,"node %d of %d"%(e,ne)) for e in(0,ne-1,ne,ne+1,big)]
    RH=[(x,x<nr,"particle type %d of %d"%(x,nr)) for x in(0,nr-1,nr,nr+1,big)]
    L=[]
    def add(name,args,what,ok,eff=None): L.append((name,args,what,ok,eff))
    add("Set_E",(5,),"an energy",ne==1,lambda q:q.__dict__.update(E=True,S=False,lo=5,hi=5))
    add("Set_Body",(("body",),),"a body",True,lambda q:q.__dict__.update(B=True))
    add("Set_Track",(("track",),),"a trajectory",True,lambda q:q.__dict__.update(T=True))
    add("Set_Track",(None,),"no trajectory",False)
    add("EvolveState",(),"",r.E and r.B and r.T and r.S,lambda q:q.__dict__.update(I=q.I or q.inter))
    add("InitializeInteractions",(),"",True if r.inter and r.E else None,None if not r.inter or not r.E else lambda q:q.__dict__.update(I=True))
    add("SetNeutrinoCrossSections",(("xs",),),"",True,lambda q:q.__dict__.update(I=False))
    for nm in("GetInteractionStructure","GetInteractionStructure_c"): add(nm,(),"",r.I)
    # initial states: shape, basis, particle type, readiness
    pre=r.E and r.B and r.T
    st=lambda q:q.__dict__.update(S=True)
    for b,okb in((MASS,True),(FLAVOR,True),(INT,False),(0,False)):
        w={MASS:"mass",FLAVOR:"flavour",INT:"interaction"}.get(b,"no")+" basis"
        add("Set_initial_state_1",(Arr([n],[1]*n),b),"%d entries in %s"%(n,w),pre and okb and r.NT!=BOTH and ne==1,st)
        add("Set_initial_state_2",(Arr([ne,n],[1]*(ne*n)),b),"%dx%d entries in %s"%(ne,n,w),pre and okb and r.NT!=BOTH,st)
        add("Set_initial_state_3",(Arr([ne,nr,n],[1]*(ne*n*nr)),b),"%dx%dx%d entries in %s"%(ne,nr,n,w),pre and okb and r.NT==BOTH,st)
    for d in(-1,1):
        add("Set_initial_state_1",(Arr([n+d],[1]*(n+d)),FLAVOR),"%d entries"%(n+d),False)
        for e in((ne+d,n),(ne,n+d)):
            if min(e)>0: add("Set_initial_state_2",(Arr(e,[1]*math.prod(e)),FLAVOR),"%dx%d entries"%e,False)
        for e in((ne+d,nr,n),(ne,nr+d,n),(ne,nr,n+d)):
            if min(e)>0: add("Set_initial_state_3",(Arr(e,[1]*math.prod(e)),FLAVOR),"%dx%dx%d entries"%e,False)
    add("Set_initial_state_1",(Arr([0],[]),FLAVOR),"no entries",False)
    add("Set_initial_state_2",(Arr([0,n],[]),FLAVOR),"no entries",False)
    add("Set_initial_state_3",(Arr([0,nr,n],[]),FLAVOR),"no entries",False)
    # evaluation at an energy
    mid=(r.lo+r.hi)/2 if r.E else Q(2)
    EN=[(r.lo,True,"the first energy"),(r.hi,True,"the last energy"),(mid,True,"an energy inside"),(r.lo*Q(999,1000),False,"an energy below the grid"),(r.hi*Q(1001,1000),False,"an energy above the grid")] if r.E else [(Q(2),False,"an energy")]
    for who in("EvalMass","EvalFlavor"):
        full=[(f,e,x) for f in F for e in EN[:1] for x in RH[:1]]+[(F[0],e,RH[0]) for e in EN[1:]]+[(F[1],EN[0],x) for x in RH[1:]]
        for f,e,x in full:
            ok=r.E and f[1] and e[1] and x[1]
            add(who+"_E",(f[0],e[0],x[0]),"%s, %s, %s"%(f[2],e[2],x[2]),ok)
            add(who+"_A",(f[0],e[0],x[0],Q(1,2),bits(n)),"%s, %s, %s, averaged"%(f[2],e[2],x[2]),ok)
        for k in(n-1,n+1): add(who+"_A",(0,EN[0][0],0,Q(1,2),bits(k)),"%d averaging flags"%k,False)
        for f,e,x in[(f,ER[0],RH[0]) for f in F]+[(F[0],e,RH[0]) for e in ER[1:]]+[(F[1],ER[1],x) for x in RH[1:]]:
            add(who+"AtNode",(f[0],e[0],x[0]),"%s, %s, %s"%(f[2],e[2],x[2]),r.E and f[1] and e[1] and x[1])
        for f in F:
            add(who+"_S",(f[0],),f[2],r.E and ne==1 and f[1])
            add(who+"_SA",(f[0],Q(1,2),bits(n)),f[2]+", averaged",r.E and ne==1 and f[1])
    for e,x in[(e,RH[0]) for e in ER]+[(ER[1],x) for x in RH[1:]]:
        add("GetHamiltonian",(e[0],x[0]),"%s, %s"%(e[2],x[2]),(e[1] and x[1] if r.E and r.B and r.T else None) if r.E and e[1] and x[1] else False)
        add("GetState",(e[0],x[0]),"%s, %s"%(e[2],x[2]),e[1] and x[1])
    for f,x in[(f,RH[0]) for f in F]+[(F[1],x) for x in RH[1:]]:
        add("GetFlavorProj",(f[0],x[0]),"%s, %s"%(f[2],x[2]),f[1] and x[1])
    for f in F: add("GetMassProj",(f[0],0),f[2],f[1])
    # parameters
    unset=lambda q:q.__dict__.update(S=False)
    for w in("MixingAngle","CPPhase"):
        for i,j in((0,1),(1,n-1),(0,n-1),(0,n),(n,0),(n,n+1),(1,n),(n-1,n),(0,n+1),(0,big),(big,big)):
            ok=i<n and j<n
            add("Set_"+w,(i,j,Q(1,3)),"indices %d, %d of %d"%(i,j,n),ok,unset if ok else None)
            if ok: add("Set_"+w,(i,j,0 if (i,j)==(0,1) else Q(-1,3)),"indices %d, %d of %d, %s"%(i,j,n,"to zero" if (i,j)==(0,1) else "to a negative value"),ok,unset)
            add("Get_"+w,(i,j),"indices %d, %d of %d"%(i,j,n),ok)
    for i in(1,n-1,n,n+1,big):
        add("Set_SquareMassDifference",(i,Q(1,3)),"index %d of %d"%(i,n),i<n,unset if i<n else None)
        if i<n: add("Set_SquareMassDifference",(i,0 if i==1 else Q(-1,3)),"index %d of %d, %s"%(i,n,"to zero" if i==1 else "to a negative value"),True,unset)
        add("Get_SquareMassDifference",(i,),"index %d of %d"%(i,n),i<n)
    add("Set_TauRegeneration",(1,),"on",r.NT==BOTH and bool(r.inter)); add("Set_TauRegeneration",(0,),"off",True)
    add("Set_GlashowResonance",(1,),"on",bool(r.inter)); add("Set_GlashowResonance",(0,),"off",True)
    add("Set_Basis",(MASS,),"mass",True); add("Set_Basis",(INT,),"interaction",True); add("Set_Basis",(FLAVOR,),"flavour",False)
    add("WriteStateHDF5",("/f","/",1,"",1),"","write" if r.E and r.B and r.T and r.S else False)
    return L
def explore(R,u,p,r,title,depth):
    """every operation in every reachable combination"""
    todo=[(p,r)]; seen={(r.key(),ready(u,p))}; n=0
    while todo:
        p,r=todo.pop(0)
        # long argument tables in the combinations that differ in what the operation looks at; elsewhere one call each
        for name,args,what,ok,eff in ops(r):
            if name in u.dropped_names: continue
            k=(title,name,tuple(x if not hasattr(x,"ext") else ("arr",tuple(x.ext)) for x in args),(r.key(),ready(u,p)) if needs(name) else (r.E,))
            if k in R.seen and eff is None: continue
            R.seen.add(k)
            q=p.copy(); label="%s%s%s"%(title,name,"("+what+")" if what else "()")+" "+text(r)
            why=None
            try: got=q.do(name,*args)
            except NotBuilt: continue
            except Unknown as x: got=None; why=str(x)
            w=q.last; loc=q.where
            if w is not None and w.issues: R.bad(label+": reads or writes outside an array (%s)"%w.issues[0],loc); continue
            if ok is None: continue
            if ok=="write":
                # past the preconditions: the file is touched
                began=any(re.match(r"H5(F|G|A|D|E|P|LT|open)|nusquids::H5",c) for c in w.names)
                R.check(True if began or got=="returned" else False if got=="refused" else None,label+" is accepted",loc); continue
            if got is None and not ok and past(name,w): got="returned"
            if got is None: R.und(label+": %s"%why,loc); continue
            if ok: R.check(got=="returned",label+" is accepted",loc)
            else:
                R.check(got=="refused",label+" is refused",loc)
                if got=="refused":
                    c=changed(p,w)
                    if c is not None: R.bad(label+" is refused after %s was changed"%where(u,c),loc)
            if got=="returned" and ok and eff:
                r2=r.copy(); eff(r2)
                k2=(r2.key(),ready(u,q))
                if k2 not in seen and depth and len(seen)<400: seen.add(k2); todo.append((q,r2))
        n+=1
    return n
def past(name,w):
    """a walk that stops undecided has come past the preconditions"""
    if w is None: return False
    if name=="Set_Track" and "(null)" in w.names: return True
    if name=="WriteStateHDF5": return any(re.match(r"H5(F|G|A|D|E|P|LT|open)|nusquids::H5",c) for c in w.names)
    return name=="EvolveState" and any(re.match(r"squids::SQuIDS::(Get_h|Set_h|Evolve|Set_AnyNumerics)\(",c) for c in w.names)
def needs(name): return name in("EvolveState","WriteStateHDF5","GetInteractionStructure","GetInteractionStructure_c","GetHamiltonian") or name.startswith("Set_initial")
def body(R):
    u=whole(unit())
    u.dropped_names=set(str(x).split("vp::")[-1].split("(")[0] for x in u.dropped)
    for n in u.dropped_names: R.und("entry point does not compile: "+n)
    if NSQ not in u.layouts: raise AnalysisError("anchor: nuSQUIDS not found")
    for f in u.find(r"([a-z].* )?vp::.*"): pass
    def start(R,title,ctor,args,r):
        R.seen=set(); p=Prop(u)
        try: got=p.do(ctor,*args)
        except Unknown as x: R.und(title+"construction: %s"%x); return
        if R.check(got=="returned",title+"construction succeeds",p.where):
            # parameters away from the values they are set to below
            for i in range(r.n):
                for j in range(i):
                    for w in("MixingAngle","CPPhase"):
                        try: p.do("Set_"+w,j,i,Q(1,7))
                        except (Unknown,NotBuilt): pass
                if i:
                    try: p.do("Set_SquareMassDifference",i,Q(1,7))
                    except (Unknown,NotBuilt): pass
            explore(R,u,p,r,title,True)
    base=dict(E=False,B=False,T=False,S=False,I=False,lo=0,hi=0,inter=0)
    jobs=[]
    for NT,nm in((NU,"neutrino"),(ANU,"antineutrino")):
        jobs.append(lambda R,NT=NT,nm=nm: start(R,"single energy, %s: "%nm,"c_single",(3,NT),Ref(**{**base,"n":3,"ne":1,"NT":NT})))
    for ne,n,NT,it in((3,3,BOTH,1),(2,4,NU,0),(1,3,NU,0),(3,3,ANU,1),(1,4,BOTH,0)):
        g=[Q(k+1)*2 for k in range(ne)]
        jobs.append(lambda R,ne=ne,n=n,NT=NT,it=it,g=g: start(R,"%d energies, %d flavours, %s, %s interactions: "%(ne,n,{1:"neutrino",2:"antineutrino",3:"both"}[NT],"with" if it else "no"),"c_multi",(Arr([ne],g),n,NT,it),Ref(**{**base,"n":n,"ne":ne,"NT":NT,"E":True,"lo":g[0],"hi":g[-1],"inter":it})))
    for f in ("EvolveState","WriteStateHDF5","InitializeInteractions"): u.flow(r"([a-z].* )?vp::%s\("%f)
    spread(R,jobs)
    # particle types and flavour numbers the constructors refuse
    for ctor,args,what in(("c_multi",(Arr([3],[1,2,3]),2,BOTH,0),"two flavours"),("c_multi",(Arr([3],[1,2,3]),7,BOTH,0),"seven flavours"),("c_multi",(Arr([3],[1,2,3]),3,0,0),"no particle type"),
                          ("c_single",(2,NU),"two flavours"),("c_single",(7,NU),"seven flavours"),("c_single",(3,BOTH),"both particle types at one energy")):
        p=Prop(u)
        try: got=p.do(ctor,*args)
        except Unknown as x: R.und("%s with %s: %s"%(ctor,what,x)); continue
        R.check(got=="refused",("several energies" if ctor=="c_multi" else "single energy")+": construction with "+what+" is refused",p.where)
    for f in sorted(u.fns): R.fn(f) if f.startswith("nusquids::") else None
    R.scope("every reachable combination of energies, body, trajectory, state and interactions in 7 configurations")
main("C34",RULE,body)
