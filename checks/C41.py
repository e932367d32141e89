#!/usr/bin/env python3
"""C41: evaluations answer for the projector, state, energy and particle type asked for."""
from sulib import *
RULE=("after an evolution every public evaluation and accessor is walked for every index and for energies at, between and at the ends of the nodes, algebra elements and states being told apart by what they are; the result must be the scalar product of the projector "
      "asked for, evolved with the vacuum Hamiltonian of that energy in the interaction basis, with the state of that node or the interpolated one.")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR,INT=1,2,3
class Body(TWorld): pass
def cell(m,c,n): return m.cells[(SELF,member(m.u,c,n))].num()
def referent(m):
    p=m.last.ev.poly(m.fl.ret).ptr(); x=m.obj.get(p)
    if x is None and p is not None and p[0][0]=="data": x=m.last.heap[p[0]].vals[int(p[1])//24]
    if not isinstance(x,Lin): raise Unknown("what is referred to")
    return x
def run(R,u,t,ne,n,NT,basis,evolve,osc=True,inter=0):
    t+=": "; single=not ne
    try:
        E=[Q(3,2)*(k+1)+Q(k*k,4) for k in range(ne or 1)]; nr=2 if NT==BOTH else 1
        m=Machine(u,Body())
        def go(what,*a):
            r=m.do(what,*a)
            for i in m.last.issues[:2]: R.bad(t+what+": "+i,m.where)
            if r!="returned": R.bad(t+what+" is refused",m.where); raise Unknown("refused")
        if single: go("c_single",n,NT); go("Set_E",E[0])
        else: go("c_multi",Arr([ne],E),n,NT,inter)
        m.track(Q(1,2),Q(9,2)); m.cells[(("body",),0)]=V(16,{("g","_ZTVN2vp1BE"):1})
        ang={}
        for i in range(n):
            for j in range(i+1,n):
                go("Set_MixingAngle",i,j,H("th",i,j)); go("Set_CPPhase",i,j,H("cp",i,j)); ang["MixingAngle",i,j]=H("th",i,j); ang["Phase",i,j]=H("cp",i,j)
            if i: go("Set_SquareMassDifference",i,H("dm",i))
        # what was set is what is read
        for (k,i,j),v in ang.items():
            for a,b in((i,j),):
                go("Get_MixingAngle" if k=="MixingAngle" else "Get_CPPhase",a,b); R.check(m.ret is not None and near(m.ret.num(),v),t+"%s %d,%d is read back as set"%("mixing angle" if k=="MixingAngle" else "phase",a,b),m.where,detail="another one is")
        for i in range(1,n): go("Get_SquareMassDifference",i); R.check(m.ret is not None and near(m.ret.num(),H("dm",i)),t+"mass difference %d is read back as set"%i,m.where,detail="another one is")
        for f,v in(("GetNumE",len(E)),("GetNumNeu",n),("GetNumRho",nr)): go(f); R.check(m.ret is not None and m.ret.num()==v,t+f,m.where,detail="%s instead of %d"%(m.ret and m.ret.num(),v))
        go("GetERange"); R.check(isinstance(m.out,Arr) and list(m.out.vals)==E,t+"the energies are the ones given",m.where,detail="%s"%(m.out.vals if isinstance(m.out,Arr) else "",))
        go("Set_Body",("body",)); go("Set_Track",("track",))
        if not osc: go("Set_IncludeOscillations",0)
        if basis==MASS: go("Set_Basis",MASS)
        if inter: go("SetNeutrinoCrossSections",("xs",))
        v=[Q(1+k%7,5) for k in range(len(E)*nr*n)]
        if single: go("Set_initial_state_1",Arr([n],v),FLAVOR)
        elif nr==1: go("Set_initial_state_2",Arr([ne,n],v),FLAVOR)
        else: go("Set_initial_state_3",Arr([ne,2,n],v),FLAVOR)
        if evolve: go("EvolveState")
        go("PreDerive",Q(7,2))     # projectors last evolved to somewhere on the way
        for e in range(len(E)):
            for r in range(nr): m.state(e,r,Lin({("S",e,r):1})); m.state(e,r,Lin({("half way",e,r):1}),"erho")
    except (Unknown,NotBuilt) as x:
        if str(x)!="refused": R.und(t+"set up: %s"%x)
        return
    dt=Q(cell(m,SQ,"t")-cell(m,SQ,"t_ini")); anti=lambda r: NT==ANU or NT==BOTH and r==1
    mix=lambda r: tuple(sorted((k,v*(-1 if k[0]=="Phase" and anti(r) else 1)) for k,v in ang.items()))
    flav=lambda f,r: Lin({("R",("P",f),mix(r)):1}); mass=lambda f: Lin({("P",f):1})
    h0=lambda x: Lin({("P",i):H("dm",i)/2/Q(x) for i in range(1,n)}) if osc else Lin()
    def state(x,r):
        if len(E)==1: return Lin({("S",0,r):1})
        i=max([k for k in range(len(E)-1) if E[k]<=x] or [0]); f=(x-E[i])/(E[i+1]-E[i])
        return Lin({("S",i,r):1-f,("S",i+1,r):f})
    def want(P,x,r,st,avg=()):
        if basis!=MASS: P=evolved(P,(h0(x).key(),dt)+avg)
        return inner(P,st)
    def ask(what,args,w,title):
        c=m.copy()
        try:
            q=c.do(what,*args); got=c.ret.num() if q=="returned" and c.ret is not None else None
        except (Unknown,NotBuilt) as x: R.und(t+title+": %s"%x); return
        for i in c.last.issues[:1]: R.bad(t+title+": "+i,c.where)
        w=w(c) if callable(w) else w
        R.check(q=="returned" and got is not None and near(got,w),t+title,c.where,detail="it is refused" if q!="returned" else "another projector, state, energy or time is used")
    av=lambda c: next(k[0] for k,v in c.obj.items() if isinstance(v,Bits) and k[0][0]=="arg")
    for r in range(nr):
        for f in range(n):
            for k,P in(("Mass",mass(f)),("Flavor",flav(f,r))):
                for e in range(len(E)): ask("Eval%sAtNode"%k,(f,e,r),want(P,E[e],r,Lin({("S",e,r):1})),"Eval%sAtNode(%d,%d,%d)"%(k,f,e,r))
                pts=list(E) if len(E)==1 else [E[0],(2*E[0]+E[1])/3,E[-1]]+([(E[-2]+4*E[-1])/5] if len(E)>2 else [])
                for x in pts:
                    ask("Eval%s_E"%k,(f,x,r),want(P,x,r,state(x,r)),"Eval%s(%d,%s,%d)"%(k,f,x,r))
                    ask("Eval%s_A"%k,(f,x,r,Q(5,3),Bits([0]*n)),lambda c: want(P,x,r,state(x,r),(("avg",Q(5,3),(("arg",5),0)),)),"Eval%s(%d,%s,%d), averaged"%(k,f,x,r))
                if len(E)==1 and nr==1:
                    ask("Eval%s_S"%k,(f,),want(P,E[0],0,state(E[0],0)),"Eval%s(%d)"%(k,f))
                    ask("Eval%s_SA"%k,(f,Q(5,3),Bits([0]*n)),lambda c: want(P,E[0],0,state(E[0],0),(("avg",Q(5,3),(("arg",3),0)),)),"Eval%s(%d), averaged"%(k,f))
            for what,args,w in([("GetFlavorProj",(f,r),flav(f,r)),("GetMassProj",(f,r),mass(f))]+[("GetState",(e,r),Lin({("S",e,r):1})) for e in range(len(E)) if f==0]):
                c=m.copy()
                try: q=c.do(what,*args); x=referent(c)
                except (Unknown,NotBuilt) as z: R.und(t+what+"%s: %s"%(args,z)); continue
                R.check(close_lin(x,w),t+what+"%s"%(args,),c.where,detail="it is %r"%x)
CASES=[]
for ne,n,NT in((3,3,BOTH),(2,4,ANU),(0,3,ANU),(0,4,NU),(1,3,NU)):
    for b in(INT,MASS): CASES.append(("%s, %s, %d flavours, %s basis"%("%d nodes"%ne if ne else "single energy",{1:"neutrinos",2:"antineutrinos",3:"both types"}[NT],n,"mass" if b==MASS else "interaction"),(ne,n,NT,b,True)))
CASES.append(("2 nodes, no evolution yet",(2,3,BOTH,INT,False)))
CASES.append(("2 nodes, no oscillations",(2,3,BOTH,INT,True,False)))
CASES.append(("2 nodes, interactions",(2,3,BOTH,INT,True,True,1)))
def body(R):
    u=terms()
    for n in sorted(u.dropped): R.und("entry point does not compile: %s"%n)
    if NSQ not in u.layouts: raise AnalysisError("anchor: nuSQUIDS not found")
    for f in sorted(u.fns):
        try: u.flow(re.escape(f)+"$")
        except Exception: pass
    spread(R,[lambda R,t=t,a=a: run(R,u,t,*a) for t,a in CASES])
    for f in sorted(u.fns):
        if re.search(r"vp::(Eval|Get)",f): R.fn(f)
    R.scope("%d configurations, every evaluation and accessor, every index"%len(CASES))
main("C41",RULE,body)
