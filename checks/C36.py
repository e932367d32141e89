#!/usr/bin/env python3
"""C36: what enters the evolution equation: matter potential, absorption, reinjection, sources."""
from sulib import *
RULE=("the propagator is set up, given a state and asked for its derivative terms by walking its own operations over algebra elements kept as linear forms of projectors and states, with a different number for every density, cross section, "
      "spectrum and flux; in every configuration each term must be the documented linear form: each contribution once, with its own energy, flavour, particle type and target, antineutrinos with the opposite potential and conjugate mixing.")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR,INT=1,2,3
CC,NC,GR=0,1,2
class Body(TWorld):
    def __init__(s,targets,more,yes): s.targets=targets; s.more=more; s.yes=yes
    def ye(s,x): return s.yes.get(Q(x),H("ye",Q(x))/2)
class Ref:
    """the documented terms"""
    def __init__(s,m,E,n,NT,inter,opt): s.m=m; s.w=m.w; s.E=E; s.ne=len(E); s.n=n; s.NT=NT; s.inter=inter; s.o=opt; s.nr=2 if NT==BOTH else 1; s.hist=None
    def anti(s,r): return s.NT==ANU or s.NT==BOTH and r==1
    def unit(s,k): return H("unit",k)
    def mixing(s,r):
        d={}
        for i in range(s.n):
            for j in range(i+1,s.n):
                d[("MixingAngle",i,j)]=H("th",i,j); d[("Phase",i,j)]=H("cp",i,j)*(-1 if s.anti(r) else 1)
        return tuple(sorted(d.items()))
    def flav(s,f,r): return Lin({("R",("P",f),s.mixing(r)):1})
    def mass(s,f): return Lin({("P",f):1})
    def h0(s,E):
        if not s.o["osc"]: return Lin()
        return Lin({("P",i):H("dm",i)/2/Q(E) for i in range(1,s.n)})
    def buf(s,e):
        k=(s.h0(s.E[e]).key(),s.x-s.t0)
        if s.o.get("low"): k+=(("low pass",s.h0(s.E[e]).key(),Q(s.o["low"][0]),Q(s.o["low"][1])),)
        return k
    def proj(s,f,r,e):
        p=s.flav(f,r)
        if s.o["basis"]==MASS or not s.o["osc"]: return p
        return evolved(p,s.buf(e))
    def at(s,x): s.x=x; tx=x-s.toff; s.rho=s.w.density(tx); s.ye=s.w.ye(tx)
    def hi(s,e,r):
        u=s.unit; c=u("sqrt2")*u("GF")*u("Na")*Q(1)/u("cm")**3*s.rho
        cc,nc=c*s.ye,-c*(1-s.ye)/2
        if s.anti(r): cc,nc=-cc,-nc
        v=s.proj(0,r,e).scale(cc+nc)+s.proj(1,r,e).scale(nc)+s.proj(2,r,e).scale(nc)
        return v+s.h0(s.E[e]) if s.o["basis"]==MASS else v
    # interactions
    def dens(s):
        u=s.unit; d=u("gr")/u("cm")**3*s.rho
        if len(s.targets())==1: return [2*d/(u("electron_mass")+u("proton_mass")+u("neutron_mass"))]
        if s.ye==0: return [0,d/u("neutron_mass")]
        np=d/(u("electron_mass")+u("proton_mass")+u("neutron_mass")*(1-s.ye)/s.ye)
        return [np,np*(1-s.ye)/s.ye]
    def frac(s): return [1] if len(s.targets())==1 else [s.ye,1-s.ye]
    def targets(s): return (2212,2112) if 2212 in s.w.targets and 2112 in s.w.targets else (81,)
    def sigma(s,t,r,f,e,c):
        cm2=s.unit("cm")**2; ty=1 if s.anti(r) else 0
        return (s.w.xs("avtotal",t,s.E[e-1],s.E[e],f,ty,c) if e>0 else s.w.xs("total",t,s.E[0],f,ty,c))*cm2
    def dnde(s,t,r,f,e1,e2,c):
        """per scattering at e1, into e2"""
        ty=1 if s.anti(r) else 0; u=s.unit("cm")**2/s.unit("GeV")
        v=s.w.xs("avsingle",t,s.E[e1],s.E[e2-1],s.E[e2],f,ty,c) if e2>0 else s.w.xs("single",t,s.E[e1],s.E[0],f,ty,c)
        return v*u/s.sigma(t,r,f,e1,c)
    def inv(s,r,f,e,c): return sum(s.sigma(t,r,f,e,c)*d for t,d in zip(s.targets(),s.dens()))
    def nel(s): return s.dens()[0]*s.ye if len(s.targets())==1 else s.dens()[0]
    def invgr(s,e): return s.sigma(11,1 if s.NT==BOTH else 0,0,e,GR)*s.nel()
    def length(s,r,f,e):
        v=s.inv(r,f,e,NC)+s.inv(r,f,e,CC)
        return v+s.invgr(e) if s.o["gr"] and s.anti(r) and f==0 else v
    def gamma(s,e,r):
        v=Lin()
        if s.inter:
            for f in range(3): v=v+s.proj(f,r,e).scale(s.length(r,f,e)/2)
        return v
    none=()      # particle types of which there are none
    def flux(s,f,r,e): return inner(s.proj(f,r,e),Lin({("S",e,r):1})) if r not in s.none else 0
    def dE(s,e): return s.E[e+1]-s.E[e]
    def tau(s,e1):
        """leptonic and all decays of taus and antitaus made by every energy above"""
        if e1 in s._tau: return s._tau[e1]
        g=1/s.unit("GeV"); R=[]
        for r in(0,1):
            al=le=0
            for et in range(e1+1,s.ne):
                n=0
                for en in range(et+1,s.ne):
                    k=s.flux(2,r,en)*s.inv(r,2,en,CC)*s.dE(en-1)
                    for t,w in zip(s.targets(),s.frac()): n+=k*w*s.dnde(t,r,2,en,et,CC)*s.dE(et-1)
                al+=n*s.w.tau("All",et,e1,r)*g; le+=n*s.w.tau("Lep",et,e1,r)*g
            R.append((al,le))
        s._tau[e1]=R
        return R
    def source(s,e,r,f): return s.w.flux(e,r,f) if s.o["src"] else 0
    def into(s,e,r):
        v=Lin()
        if s.inter:
            for f in range(3):
                k=0
                for e2 in range(e+1,s.ne):
                    w=s.flux(f,r,e2)*s.inv(r,f,e2,NC)*s.dE(e2-1)
                    for t,q in zip(s.targets(),s.frac()): k+=w*q*s.dnde(t,r,f,e2,e,NC)
                if s.o["tau"]:
                    T=s.tau(e); k+=T[r][0] if f==2 else T[1-r][1]
                if s.o["gr"] and s.anti(r):
                    for e2 in range(e+1,s.ne): k+=s.flux(0,r,e2)*s.invgr(e2)*s.dE(e2-1)*s.dnde(11,r,0,e2,e,GR)
                v=v+s.proj(f,r,e).scale(k)
        if s.o["src"]:
            for f in range(s.n): v=v+s.proj(f,r,e).scale(s.source(e,r,f))
        return v
def same(a,b):
    """None when the forms agree, else the first difference"""
    if not isinstance(a,Lin): return "it is not known"
    if close_lin(a,b): return None
    for k in sorted(set(a.d)|set(b.d),key=repr):
        x,y=float(a.d.get(k,0)),float(b.d.get(k,0))
        if abs(x-y)>1e-9*max(abs(x),abs(y)): return "%s counts %.9g instead of %.9g"%(nick(k),x,y)
    return "they differ"
def nick(k):
    if k[0]=="E": return nick(k[1])+" evolved"+(" and filtered" if len(k)>4 else "")
    if k[0]=="R":
        return "flavour projector %d%s"%(k[1][1]," (conjugate mixing)" if any(p[0]=="Phase" and v<0 for p,v in k[2]) else "") if k[1][0]=="P" else name(k)
    if k[0]=="P": return "mass projector %d"%k[1]
    return name(k)
BASE=dict(osc=True,tau=False,gr=False,src=False,basis=INT)
def setup(R,u,t,ne,n,NT,inter,opt,targets,yes,single=False,order=0):
    E=[Q(3,2)*(k+1)+Q(k*k,4) for k in range(ne)]
    w=Body(targets,(11,),yes); m=Machine(u,w); o=dict(BASE); o.update(opt)
    def go(what,*a):
        r=m.do(what,*a)
        for i in m.last.issues[:2]: R.bad(t+what+": "+i,m.where)
        if r!="returned": R.bad(t+what+" is refused",m.where); raise Unknown("refused")
        return r
    m.go=go
    if single: go("c_single",n,NT); go("Set_E",E[0])
    else: go("c_multi",Arr([ne],E),n,NT,inter)
    m.track(Q(1,2),Q(9,2)); m.cells[(("body",),0)]=V(16,{("g","_ZTVN2vp1BE"):1})
    for i in range(n):
        for j in range(i+1,n): go("Set_MixingAngle",i,j,H("th",i,j)); go("Set_CPPhase",i,j,H("cp",i,j))
        if i: go("Set_SquareMassDifference",i,H("dm",i))
    go("Set_Body",("body",)); go("Set_Track",("track",))
    def switch():
        if o["tau"]: go("Set_TauRegeneration",1)
        if o["gr"]: go("Set_GlashowResonance",1)
        if not o["osc"]: go("Set_IncludeOscillations",0)
        if o["src"]: go("Set_NeutrinoSources",1)
        if o["basis"]==MASS: go("Set_Basis",MASS)
        if o.get("low"): go("Set_EvolLowPassCutoff",o["low"][0]); go("Set_EvolLowPassScale",o["low"][1])
    def xs(target=("xs",)):
        if inter: go("SetNeutrinoCrossSections",target); go("InitializeInteractions")
    if order==0: switch(); xs(); state(R,m,t,E,n,NT,inter,o,single)
    if order==1: xs(); state(R,m,t,E,n,NT,inter,o,single); switch(); xs()
    if order==2:     # every switch the other way first
        if o["osc"]: go("Set_IncludeOscillations",0)
        xs(); state(R,m,t,E,n,NT,inter,dict(o,osc=not o["osc"]),single)
        if o["osc"]: go("Set_IncludeOscillations",1)
        switch()
        if inter: go("InitializeInteractions")
    if inter and not o["osc"]: go("Cache")
    ref=Ref(m,E,n,NT,inter,o); ref.t0=ref.now=Q(1,2); ref.toff=Q(0); ref._tau={}
    return m,ref
def state(R,m,t,E,n,NT,inter,o,single):
    """an initial state is the sum of its entries times the projectors of the basis it is given in"""
    ne=len(E); nr=2 if NT==BOTH else 1; ref=Ref(m,E,n,NT,inter,o)
    for basis in(MASS,FLAVOR):
        val=lambda e,r,f: H("ini",basis,e,r,f)
        if single: m.go("Set_initial_state_1",Arr([n],[val(0,0,f) for f in range(n)]),basis)
        elif nr==1: m.go("Set_initial_state_2",Arr([ne,n],[val(e,0,f) for e in range(ne) for f in range(n)]),basis)
        else: m.go("Set_initial_state_3",Arr([ne,nr,n],[val(e,r,f) for e in range(ne) for r in range(nr) for f in range(n)]),basis)
        for e in range(ne):
            for r in range(nr):
                want=Lin()
                for f in range(n): want=want+(ref.mass(f) if basis==MASS else ref.flav(f,r)).scale(val(e,r,f))
                x=same(m.state(e,r),want)
                R.check(x is None,t+"the initial state of node %d, type %d is what was given in the %s basis"%(e,r,"mass" if basis==MASS else "flavour"),m.where,detail=x)
    for e in range(ne):
        for r in range(nr): m.state(e,r,Lin({("S0",e,r):1})); m.state(e,r,Lin({("S",e,r):1}),"erho")
def terms_at(R,m,ref,t,x):
    tt=t+"at position %s: "%x
    try: m.go("PreDerive",x)
    except Unknown as z: R.und(tt+"preparation: %s"%z); return
    ref.at(x); ref._tau={}
    for e in range(ref.ne):
        for r in range(ref.nr):
            who="node %d, %s: "%(e,"antineutrinos" if ref.anti(r) else "neutrinos")
            for f,args,want,what in(("H0",(ref.E[e],r),ref.h0(ref.E[e]),"the vacuum Hamiltonian"),("HI",(e,r),ref.hi(e,r),"the matter potential"),
                    ("GammaRho",(e,r),ref.gamma(e,r),"the absorption"),("InteractionsRho",(e,r),ref.into(e,r),"what interactions and sources add")):
                try:
                    q=m.do(f,*args)
                    if q!="returned": R.bad(tt+who+what+" is refused",m.where); continue
                    for i in m.last.issues[:1]: R.bad(tt+who+what+": "+i,m.where)
                    z=same(m.out,want)
                except Unknown as y: R.und(tt+who+what+": %s"%y); continue
                R.check(z is None,tt+who+what+" is the documented one",m.where,detail=z)
    # as asked for by the user, at the current time
    for e in range(ref.ne):
        for r in range(ref.nr):
            c=m.copy(); ref.at(ref.now)
            try: q=c.do("GetHamiltonian",e,r)
            except (Unknown,NotBuilt) as y: R.und(t+"Hamiltonian of node %d: %s"%(e,y)); continue
            want=ref.hi(e,r) if ref.o["basis"]==MASS else ref.hi(e,r)+ref.h0(ref.E[e])
            z="it is refused" if q!="returned" else same(c.out,want)
            R.check(z is None,t+"the Hamiltonian of node %d, type %d adds the vacuum and matter terms once"%(e,r),c.where,detail=z)
            break
        break
def run(R,u,t,*a,xs=(Q(3,2),Q(5,2)),none=(),leg=False,**k):
    try:
        m,ref=setup(R,u,t,*a,**k); ref.none=none
        for r in none:
            for e in range(ref.ne): m.state(e,r,Lin(),"erho")
        if leg:          # along a second trajectory: positions count from its own beginning
            m.go("EvolveState"); m.track(Q(11),Q(13)); m.go("Set_Track",("track",)); ref.toff=Q(9,2)-Q(11); ref.now=Q(9,2)
            for e in range(ref.ne):
                for r in range(ref.nr): m.state(e,r,Lin({("S",e,r):1}),"erho")
    except (Unknown,NotBuilt) as x:
        if str(x)!="refused": R.und(t+"set up: %s"%x)
        return
    for x in xs: terms_at(R,m,ref,t,x)
TWO=(2212,2112); ISO=(81,)
CASES=[
 ("3 nodes, both types, 4 flavours, tau regeneration, resonance and sources, protons and neutrons: ",(3,4,BOTH,1,dict(tau=True,gr=True,src=True),TWO,{})),
 ("4 nodes, both types, tau regeneration, isoscalar targets: ",(4,3,BOTH,1,dict(tau=True),ISO,{})),
 ("3 nodes, both types, resonance, isoscalar targets: ",(3,3,BOTH,1,dict(gr=True),ISO,{})),
 ("3 nodes, antineutrinos, 4 flavours, resonance and sources: ",(3,4,ANU,1,dict(gr=True,src=True),TWO,{Q(5,2):Q(0)})),
 ("3 nodes, neutrinos, resonance on without effect, low-pass filter: ",(3,3,NU,1,dict(gr=True,low=(Q(3),Q(2))),ISO,{Q(5,2):Q(1)})),
 ("4 nodes, both types, no oscillations, tau regeneration, resonance and sources, 4 flavours: ",(4,4,BOTH,1,dict(osc=False,tau=True,gr=True,src=True),TWO,{})),
 ("3 nodes, both types, no oscillations, isoscalar targets: ",(3,3,BOTH,1,dict(osc=False,src=True),ISO,{})),
 ("3 nodes, antineutrinos, no oscillations, resonance: ",(3,3,ANU,1,dict(osc=False,gr=True),TWO,{})),
 ("3 nodes, neutrinos, no oscillations, sources, 4 flavours: ",(3,4,NU,1,dict(osc=False,src=True,gr=True),ISO,{})),
 ("2 nodes, both types, sources without interactions, 4 flavours: ",(2,4,BOTH,0,dict(src=True),TWO,{})),
 ("2 nodes, both types, nothing but oscillations, mass basis: ",(2,4,BOTH,0,dict(basis=MASS),TWO,{Q(5,2):Q(1,10**12)})),
 ("2 nodes, antineutrinos, interactions in the mass basis: ",(2,3,ANU,1,dict(basis=MASS,gr=True),TWO,{})),
 ("one node, neutrinos, interactions: ",(1,3,NU,1,dict(),TWO,{})),
]
MORE=[
 ("only neutrinos present, tau regeneration: ",(4,3,BOTH,1,dict(tau=True),ISO,{}),dict(none=(1,),xs=(Q(3,2),))),
 ("only antineutrinos present, tau regeneration: ",(4,3,BOTH,1,dict(tau=True,gr=True),ISO,{}),dict(none=(0,),xs=(Q(3,2),))),
 ("only antineutrinos present, no oscillations, tau regeneration: ",(4,3,BOTH,1,dict(osc=False,tau=True,gr=True),TWO,{}),dict(none=(0,),xs=(Q(3,2),))),
 ("second trajectory: ",(2,3,BOTH,1,dict(src=True),TWO,{}),dict(leg=True,xs=(Q(5),Q(6)))),
]
SINGLE=[("single energy, antineutrinos: ",(1,3,ANU,0,dict(),TWO,{Q(5,2):Q(0)})),("single energy, neutrinos, 4 flavours: ",(1,4,NU,0,dict(low=(Q(1),Q(2))),TWO,{Q(5,2):Q(1)})),
        ("single energy, neutrinos, mass basis: ",(1,3,NU,0,dict(basis=MASS),TWO,{}))]
LATE=[("switched on after interactions were prepared, both types: ",(3,3,BOTH,1,dict(tau=True,gr=True,src=True),TWO,{}),1),
      ("switched off after the state was set, both types: ",(3,3,BOTH,1,dict(osc=False,tau=True,gr=True,src=True),TWO,{}),1),
      ("oscillations switched on after the state was set: ",(2,3,BOTH,1,dict(gr=True,tau=True),ISO,{}),2)]
def replaced(R,u):
    """new cross sections are used after they are given"""
    t="cross sections replaced: "
    try:
        m,ref=setup(R,u,t,3,3,NU,1,dict(),TWO,{}); m.go("PreDerive",Q(3,2))
        class Other(Body):
            def xs(s,kind,target,*k): return H("other",kind,target,*[float(x) for x in k])
        m.w=ref.w=Other(ISO,(11,),{})
        m.go("SetNeutrinoCrossSections",("xs2",)); m.go("InitializeInteractions")
    except Unknown as x:
        if str(x)!="refused": R.und(t+"set up: %s"%x)
        return
    terms_at(R,m,ref,t,Q(5,2))
def failed(R,u):
    """nothing half made is used after cross sections without usable targets"""
    t="cross sections without usable targets: "; whole(u)
    try:
        m,ref=setup(R,u,t,3,3,NU,1,dict(),TWO,{}); good=m.w
        m.w=Body((11,),(11,),{}); m.go("SetNeutrinoCrossSections",("xs2",))
        for k in("","again "):
            if not R.check(m.do("InitializeInteractions")=="refused",t+"InitializeInteractions is %srefused"%k,m.where): return
            m.cells=m.last.cells; m.obj=m.last.obj      # what it left behind
        m.w=ref.w=good
        m.go("InitializeInteractions")
    except Unknown as x:
        if str(x)!="refused": R.und(t+"set up: %s"%x)
        return
    terms_at(R,m,ref,t+"targets provided later: ",Q(5,2))
def body(R):
    u=terms()
    for n in sorted(u.dropped): R.und("entry point does not compile: %s"%n)
    if NSQ not in u.layouts: raise AnalysisError("anchor: nuSQUIDS not found")
    jobs=[]
    for t,a in CASES: jobs.append(lambda R,t=t,a=a: run(R,u,t,*a))
    for t,a in SINGLE: jobs.append(lambda R,t=t,a=a: run(R,u,t,*a,single=True))
    for t,a,k in MORE: jobs.append(lambda R,t=t,a=a,k=k: run(R,u,t,*a,**k))
    for t,a,o in LATE: jobs.append(lambda R,t=t,a=a,o=o: run(R,u,t,*a,order=o,xs=(Q(3,2),)))
    jobs.append(lambda R: replaced(R,u)); jobs.append(lambda R: failed(R,u))
    for f in sorted(u.fns):
        try: u.flow(re.escape(f)+"$")
        except Exception: pass
    spread(R,jobs)
    for f in sorted(u.fns): R.fn(f) if f.startswith("nusquids::") else None
    R.scope("%d configurations of particle types, flavours, targets and switches, two positions each"%len(jobs))
main("C36",RULE,body)
