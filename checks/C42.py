#!/usr/bin/env python3
"""C42: an evolution covers its whole trajectory, whatever came before it."""
from sulib import *
RULE=("sequences of evolutions are run by walking the propagator's own operations over algebra elements kept as linear forms, the base library's integrator recorded; each leg must take the state it found along the whole trajectory, exactly once, "
      "in the direction of the trajectory, either by integration steps adding up to its length or by the propagation operator of the full Hamiltonian.")
NU,ANU,BOTH=1,2,3; MASS,FLAVOR,INT=1,2,3
class Body(TWorld):
    def __init__(s): s.constant=False; s.x0=Q(0)
    def density(s,x): return H("rock") if s.constant else H("density",Q(x))
    def ye(s,x): return H("rock ye")/2 if s.constant else H("ye",Q(x))/2
class Leg:
    def __init__(s,a,b,constant=False,allow=None,positive=None,fresh=False,basis=None): s.a=Q(a); s.b=Q(b); s.constant=constant; s.allow=allow; s.positive=positive; s.fresh=fresh; s.basis=basis
def nm(l): return "%s trajectory%s%s%s%s"%("backward" if l.b<l.a else "forward"," in constant density" if l.constant else ""," (allowed to be propagated exactly)" if l.allow else "",", positivity constraint" if l.positive else "",", new state" if l.fresh else "")
HB=[4]
def cell(m,c,n,sz=1):
    v=m.cells.get((SELF,member(m.u,c,n))); return v.num() if v is not None else None
class Sequence:
    def __init__(s,R,u,t,ne,n,NT,inter,osc=True):
        s.R=R; s.t=t; s.w=Body(); s.m=Machine(u,s.w); s.ne=ne; s.n=n; s.NT=NT; s.nr=2 if NT==BOTH else 1; s.inter=inter
        s.E=[Q(3,2)*(k+1)+Q(k*k,4) for k in range(ne)] if ne else [Q(3,2)]; s.single=not ne
        go=s.go
        if s.single: go("c_single",n,NT); go("Set_E",s.E[0])
        else: go("c_multi",Arr([ne],s.E),n,NT,inter)
        m=s.m; m.cells[(("body",),0)]=V(16,{("g","_ZTVN2vp1BE"):1})
        go("Set_Body",("body",))
        if inter: go("SetNeutrinoCrossSections",("xs",))
        if not osc: go("Set_IncludeOscillations",0)
        s.go("Set_MixingAngle",0,1,H("th")); s.go("Set_CPPhase",0,2,H("cp"))
        s.count=0
    def go(s,what,*a):
        r=s.m.do(what,*a)
        for i in s.m.last.issues[:2]: s.R.bad(s.t+what+": "+i,s.m.where)
        if r!="returned": s.R.bad(s.t+what+" is refused",s.m.where); raise Unknown("refused")
    def each(s):
        for e in range(max(s.ne,1)):
            for r in range(s.nr): yield e,r
    def give(s):
        ne=max(s.ne,1)
        v=[Q(1+k%7,5) for k in range(ne*s.nr*s.n)]
        if s.single: s.go("Set_initial_state_1",Arr([s.n],v),FLAVOR)
        elif s.nr==1: s.go("Set_initial_state_2",Arr([ne,s.n],v),FLAVOR)
        else: s.go("Set_initial_state_3",Arr([ne,2,s.n],v),FLAVOR)
        s.count+=1
        for e,r in s.each(): s.m.state(e,r,Lin({("S",s.count,e,r):1})); s.m.state(e,r,Lin({("S",s.count,e,r):1}),"erho")
    def leg(s,l,first):
        m=s.m; R=s.R; t=s.t+nm(l)+": "
        s.w.constant=l.constant
        m.track(l.a,l.b); s.go("Set_Track",("track",))
        if l.basis: s.go("Set_Basis",l.basis)
        if l.allow is not None: s.go("Set_AllowConstantDensityOscillationOnlyEvolution",int(l.allow))
        if l.positive is not None:
            s.go("Set_PositivityConstrain",int(bool(l.positive)))
            if l.positive and l.positive is not True: s.go("Set_PositivityConstrainStep",l.positive)
        if first or l.fresh: s.give()
        S0={k:m.state(*k) for k in s.each()}; SQt=lambda n:cell(m,SQ,n)
        t0,ti=Q(SQt("t")),Q(SQt("t_ini")); b0=cell(m,NSQ,"basis"); L=l.b-l.a
        where=m.where
        try: r=m.do("EvolveState"); where=m.where
        except Unknown as x:
            k=re.match(r"load (\d+) \+ n\b",str(x)); k=k and next((v["name"] for v in s.m.u.layouts[NSQ]["members"] if not v["inh"] and v["off"]==int(k.group(1)) and v["type"]=="double"),None)
            if k: R.bad(t+"the evolution depends on %s, which was never given a value"%k,m.where); raise Unknown("refused")
            raise
        for i in m.last.issues[:2]: R.bad(t+i,where)
        if r!="returned": R.bad(t+"the evolution is refused",where); raise Unknown("refused")
        ev=[d for d in m.did if d[0]=="evolve"]; b1=cell(m,NSQ,"basis")
        R.check(Q(SQt("t"))==t0+L,t+"time advances by the length of the trajectory",where,detail="by %s instead of %s"%(SQt("t")-t0,L))
        R.check(sum(d[1] for d in ev)==L,t+"the steps add up to the length of the trajectory",where,detail="to %s instead of %s"%(sum(d[1] for d in ev),L))
        num=[d for d in ev if d[2]]
        bad=[d for d in num if d[1]*L<0]
        R.check(not bad,t+"every step is taken in the direction of the trajectory",where,detail="one of %s"%(bad[0][1] if bad else ""))
        bad=[d for d in num if d[3] is None or d[1]!=0 and d[3]*d[1]<0]
        R.check(not bad,t+"the integrator starts in the direction of its step",where,detail="step %s with an initial step of sign %s"%(bad[0][1],"-" if bad[0][3] is not None and bad[0][3]<0 else "+") if bad else "")
        if l.positive and l.positive is not True and num:
            bad=[d for d in num if abs(d[1])>l.positive]
            R.check(not bad,t+"no step exceeds the interval of the positivity constraint",where,detail="%s"%(bad[0][1] if bad else ""))
        # what became of the state
        for e,r in s.each():
            got=m.state(e,r); w="node %d, type %d: "%(e,r)
            if num and len(num)==len(ev):
                want=S0[e,r]
                for d in num: want=each(want,lambda k:("N",k,d[1]))
                R.check(close_lin(got,want),t+w+"the state is the one integrated from the state found",where,detail="something else was made of it") if not l.positive else None
                R.check(b0==b1,t+w+"the basis stays the one of the state",where,detail="it changed while the state did not")
                continue
            if not num:
                if close_lin(got,S0[e,r]): R.check(L==0,t+w+"the state is evolved",where,detail="it is left as it was found"); continue
                c=m.copy(); q=c.do("HI",e,r)
                if q!="returned" or not isinstance(c.out,Lin): R.und(t+w+"the Hamiltonian of the exact evolution"); continue
                ham=c.out; full=s.full(e,r); x=close_lin(ham,full)
                want=each(S0[e,r],lambda k:("U",k,ham.key(),(Q(0),L)))
                ok=close_lin(got,want)
                if not ok: R.check(None if not all(k[0]=="U" for k in got.d) else False,t+w+"the state is propagated by its Hamiltonian over the whole trajectory",where,detail="another Hamiltonian or another length is used"); continue
                R.ok(t+w+"the state is propagated over the whole trajectory")
                R.check(x,t+w+"the Hamiltonian of the exact evolution is the vacuum one plus the matter potential",where,detail="it is %r"%ham)
                R.check(l.constant and bool(s.allow) and not s.inter,t+w+"exact propagation is used only where it applies",where,detail="density varies, interactions are on or it was not asked for")
                R.check(b0==MASS or t0==ti,t+w+"the state propagated exactly is not one already evolved in the interaction basis",where,detail="it is")
                R.check(b1==MASS,t+w+"the basis is the one the state is now in",where,detail="basis %s"%b1)
                continue
            R.und(t+w+"integration mixed with exact propagation")
        s.evaluate(t,where)
    def full(s,e,r):
        u=lambda k:H("unit",k); anti=s.NT==ANU or s.NT==BOTH and r==1
        c=u("sqrt2")*u("GF")*u("Na")/u("cm")**3*s.w.density(0); ye=s.w.ye(0); cc,nc=c*ye,-c*(1-ye)/2
        if anti: cc,nc=-cc,-nc
        P=[s.proj(f,r) for f in range(3)]
        v=P[0].scale(cc+nc)+P[1].scale(nc)+P[2].scale(nc)
        m=s.m; c2=m.copy(); c2.do("H0",s.E[e],r)
        return v+c2.out
    def proj(s,f,r):
        c=s.m.copy(); c.do("GetFlavorProj",f,r); p=c.last.ev.poly(c.fl.ret).ptr(); x=c.obj.get(p)
        if x is None and p[0][0]=="data": x=c.last.heap[p[0]].vals[int(p[1])//24]
        return x
    def evaluate(s,t,where):
        """what is read off afterwards is read in the picture the state is in"""
        m=s.m; b=cell(m,NSQ,"basis"); dt=Q(cell(m,SQ,"t")-cell(m,SQ,"t_ini"))
        for e,r in s.each():
            for f in range(s.n):
                names=[("EvalFlavorAtNode",(f,e,r))]+([("EvalFlavor_S",(f,))] if s.single else [])
                for n,a in names:
                    c=m.copy()
                    try:
                        q=c.do(n,*a); P=s.proj(f,r)
                        if b!=MASS:
                            c2=m.copy(); c2.do("H0",s.E[e],r); P=evolved(P,(c2.out.key(),dt))
                        want=inner(P,m.state(e,r)); got=c.ret.num() if c.ret is not None else None
                    except Unknown as x: s.R.und(t+"%s%s: %s"%(n,a,x)); continue
                    s.R.check(q=="returned" and got is not None and near(got,want),t+"%s%s reads the state in the picture it is in"%(n,a),c.where,detail="another operator, state or time is used")
            break
def run(R,u,t,cfg,legs,osc=True):
    try:
        s=Sequence(R,u,t+": ",*cfg,osc=osc); s.allow=False
        for i,l in enumerate(legs):
            if l.allow is not None: s.allow=l.allow
            s.t=t+", leg %d, "%(i+1); s.leg(l,i==0)
    except (Unknown,NotBuilt) as x:
        if str(x)!="refused": R.und(t+": %s"%x)
def origin(k,ham):
    """the element before its evolution with the vacuum Hamiltonian of its energy"""
    while k[0]=="E":
        if k[2]!=ham: return None
        k=k[1]
    return k
def positive(R,u,t,cfg):
    """flavours found negative are brought back to zero, others left alone"""
    t+=": positivity constraint: "
    try:
        s=Sequence(R,u,t,*cfg); m=s.m; m.track(Q(2),Q(5)); s.go("Set_Track",("track",)); s.go("Set_PositivityConstrain",1); s.go("Set_PositivityConstrainStep",Q(7)); s.give()
        S={}
        for e,r in s.each():
            k=-1 if (e+r)%2 else 1; S[e,r]=Lin({("S",1,e,r):k})
            for w in("rho","erho"): m.state(e,r,S[e,r],w)
        s.go("EvolveState"); ev=[d for d in m.did if d[0]=="evolve"]
        if len(ev)!=1: return
        for e,r in s.each():
            base=each(S[e,r],lambda k:("N",k,ev[0][1])); c=m.copy(); c.state(e,r,base); got=m.state(e,r,which="erho"); alt=m.state(e,r)
            if not close_lin(alt,base): got=alt
            d=got+base.scale(-1)
            c2=m.copy(); c2.do("H0",s.E[e],r); ham=c2.out.key()
            of={k:f for f in range(s.n) for k in s.proj(f,r).d}; flavour=lambda k: of.get(origin(k,ham))
            for f in range(s.n):
                q=c.do("EvalFlavorAtNode",f,e,r); v=c.ret.num(); w=-v if v<0 else 0
                g=sum(x for k,x in d.d.items() if flavour(k)==f)
                R.check(near(g,w) or abs(float(g-w))<1e-12,t+"node %d, type %d, flavour %d: %s"%(e,r,f,"what is missing is added back" if v<0 else "left alone"),m.where,detail="%.6g times its projector added instead of %.6g"%(float(g),float(w)))
            R.check(all(flavour(k) is not None for k in d.d),t+"node %d, type %d: nothing else changes"%(e,r),m.where,detail="something else is added, as the projector of another energy or type")
    except (Unknown,NotBuilt) as x:
        if str(x)!="refused": R.und(t+"%s"%x)
F=(0,100)
CFG=[("2 nodes, both types",(2,3,BOTH,0)),("single energy, antineutrinos",(0,3,ANU,0)),("2 nodes, neutrinos, 4 flavours, interactions",(2,4,NU,1))]
def L(a,b,**k): return Leg(a,b,**k)
HIST=[
 ("varying density, two legs",[L(1,7),L(20,21)]),
 ("back and forth",[L(1,7),L(7,1),L(7,3),L(2,4),L(2,1)]),
 ("constant density, then varying",[L(2,5,constant=True,allow=True),L(4,9),L(0,3)]),
 ("constant density, then varying with a new state",[L(2,5,constant=True,allow=True),L(4,9,fresh=True),L(1,2,constant=True,fresh=True)]),
 ("varying, then constant density",[L(2,5,allow=True),L(4,9,constant=True),L(1,2)]),
 ("constant density twice, backward too",[L(2,5,constant=True,allow=True),L(4,9,constant=True),L(9,8,constant=True)]),
 ("constant density, exact propagation not asked for",[L(2,5,constant=True),L(2,5,constant=True,allow=True),L(3,4,constant=True,allow=False)]),
 ("positivity constraint",[L(10,17,positive=Q(2)),L(7,3,positive=Q(3)),L(3,4,positive=Q(2)),L(-5,1,positive=Q(3))]),
 ("positivity constraint with its default interval",[L(0,Q(3,2),positive=True)]),
 ("mass basis",[L(1,7,basis=MASS),L(2,5,constant=True,allow=True),L(5,4)]),
 ("constant density, then varying with a new state in the interaction basis",[L(2,5,constant=True,allow=True),L(4,9,fresh=True,basis=INT),L(1,2)]),
 ("single point",[L(3,3),L(3,4)]),
]
def body(R):
    u=terms()
    for n in sorted(u.dropped): R.und("entry point does not compile: %s"%n)
    if NSQ not in u.layouts: raise AnalysisError("anchor: nuSQUIDS not found")
    for f in sorted(u.fns):
        try: u.flow(re.escape(f)+"$")
        except Exception: pass
    jobs=[lambda R,t=t,c=c,h=h,l=l: run(R,u,"%s: %s"%(t,h),c,l) for t,c in CFG for h,l in HIST]
    for t,c in CFG: jobs.append(lambda R,t=t,c=c: positive(R,u,t,c))
    jobs.append(lambda R: run(R,u,"no oscillations",(2,3,BOTH,1),[L(1,7),L(7,3)],osc=False))
    spread(R,jobs)
    for f in sorted(u.fns):
        if re.search(r"EvolveState|PositivizeFlavors|Set_Track|Set_initial_state|EvalFlavor|Set_Positivity|Set_Allow",f): R.fn(f)
    R.scope("%d sequences of evolutions"%len(jobs))
main("C42",RULE,body)
