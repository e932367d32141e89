from taulib import *
def identify(u,pr):
    """which member is the polarisation, a mass ratio, a branching ratio: by use"""
    fls={c:flow(u,"TauDecayTo"+c) for c in CH+("All",)}
    A0={c:var(("arg",0,f.f.args[0]["name"],"ptr")) for c,f in fls.items()}
    use={}
    for c,f in fls.items():
        o=set()
        for k in close(deep_atoms(f.ret)) if False else all_atoms(f.ret):
            if k[0]=="load" and k[3]=="double":
                d=k[1]-A0[c]
                if d.isconst(): o.add(int(d.cval()))
        use[c]=o
    return fls,use
def all_atoms(p):
    seen=set(); out=[]
    def cond(c):
        if c in(T,F) or ("c",c) in seen: return
        seen.add(("c",c))
        for v in bvars(c):
            for x in ckey(v)[1:]:
                if isinstance(x,Poly): walk(x)
    def walk(p):
        for m in p.t:
            for a,_ in m:
                if a in seen: continue
                seen.add(a); k=akey(a); out.append(k)
                for x in k[1:]: sub(x,k)
    def sub(x,k):
        if isinstance(x,Poly): walk(x)
        elif isinstance(x,tuple):
            for y in x: sub(y,k)
    def ites(k): pass
    walk(p)
    # conditions of choices
    i=0
    while i<len(out):
        k=out[i]; i+=1
        if k[0] in("ite","b"): cond(k[1])
    return out
def body(R):
    u=unit(); pr=Params(u); fls,use=identify(u,pr)
    for f in fls.values(): R.fn(f.f)
    R.fn(pr.fl.f); ploc=next((e.loc for e in pr.fl.effects if e.kind=="store" and e.ty=="double"),(pr.fl.f.file,pr.fl.f.line))
    pol=set.intersection(*[use[c] for c in("Lepton","Pion","Rho","A1")])
    pols=(Fraction(-1),Fraction(0),Fraction(1),Fraction(1,3))
    if len(pol)!=1:
        R.und("the polarisation is not one member used by every channel: only left handed taus are judged"); P=None; pols=pols[:1]
    else:
        P=pol.pop()
        R.check(pr.v.get(P)==-1 if P in pr.v else None,"constructed spectra have the polarisation of left handed taus",ploc,detail=str(pr.v.get(P)))
    mr={}
    for c in("Pion","Rho","A1"):
        o=use[c]-{P} if P is not None else {x for x in use[c] if pr.v.get(x)!=-1}
        if len(o)==1: mr[c]=o.pop()
    for c,(m,tol) in MASS.items():
        if c not in mr or mr[c] not in pr.v: R.und("%s: its mass ratio is not one member set by the constructor"%c); continue
        x=pr.v[mr[c]]; w=(m/MTAU)**2
        R.check(abs(x-w)<=2*tol*w,"%s: the ratio of squared masses is that of the particles"%c,ploc,detail="%s instead of %s"%(float(x),float(w)))
    R.check(len(set(mr.values()))==len(mr),"each channel has its own mass ratio",ploc)
    # channels, at generic polarisations and mass ratios
    ok=True
    for c in CH:
        fl=fls[c]; loc=next((e.loc for e in fl.effects if e.kind=="ret"),(fl.f.file,fl.f.line)); bad=None; n=0
        rs=[Fraction(1,162),Fraction(3,16),Fraction(1,2),Fraction(2,7),Fraction(5,8)] if c in mr else [Fraction(0)]
        try:
            for r in rs:
                for pol in pols:
                    for z in zpoints([r])+[Fraction(21,20),Fraction(3,2),Fraction(40)]:
                        if c!="Lepton" and z==(Fraction(3,10) if c=="Hadron" else 1-r): continue # the end point itself
                        for et in(Fraction(1),Fraction(7,2),Fraction(10)**9):
                            mem=dict(pr.v)
                            if P is not None: mem[P]=pol
                            if c in mr: mem[mr[c]]=r
                            g=evaluate(fl,mem,[et,z*et]); w=formula(c,z,pol,r); n+=1
                            if not close_(g,w): bad=bad or "z=%s, polarisation %s, mass ratio %s: %s instead of %s"%(z,pol,r,float(g),float(w))
            R.check(bad is None,"%s: the published spectrum in every interval of energy fractions"%c,loc,detail=bad or "%d points"%n)
        except Unknown as x: R.und("%s: %s"%(c,x),loc)
        if P is None: continue
        # normalisation of the formula as extracted, from points exact for cubics on each side
        try:
            end={"Lepton":Fraction(1),"Hadron":Fraction(3,10)}.get(c); r=Fraction(1,5)
            if end is None: end=1-r
            def f(z,pol):
                mem=dict(pr.v); mem[P]=pol
                if c in mr: mem[mr[c]]=r
                return Fraction(evaluate(fl,mem,[Fraction(3),3*z]))
            def integral(pol):
                # open Newton-Cotes with three interior points, exact for cubics
                h=end/4; return 4*h/3*(2*f(h,pol)-f(2*h,pol)+2*f(3*h,pol))
            i0=integral(Fraction(0)); i1=integral(Fraction(1))-i0
            R.check(close_(i0,1),"%s: the unpolarised spectrum integrates to one"%c,loc,detail=str(float(i0)))
            R.check(close_(i1,0),"%s: the asymmetry integrates to zero"%c,loc,detail=str(float(i1)))
        except Unknown as x: R.und("%s: %s"%(c,x),loc)
    # the total
    fl=fls["All"]; loc=next((e.loc for e in fl.effects if e.kind=="ret"),(fl.f.file,fl.f.line))
    brs=sorted(use["All"]-({P} if P is not None else {x for x in use['All'] if pr.v.get(x)==-1})-set(mr.values()))
    if any(b not in pr.v for b in brs) or len(mr)<3: R.und("branching ratios are not members set by the constructor",loc); return
    # weights: the total as a combination of the channels, by least channels first
    ends=[1-pr.v[o] for o in mr.values()]+[Fraction(3,10)]
    try:
        pts=[(z,pol) for z in zpoints([pr.v[o] for o in mr.values()]) if z not in ends for pol in(pols[:1] if P is None else (Fraction(-1),Fraction(1,2)))]
        def chan(c,z,pol): return formula(c,z,pol,pr.v[mr[c]] if c in mr else 0)
        def total(mem,z,pol):
            mem=dict(mem)
            if P is not None: mem[P]=pol
            return Fraction(evaluate(fl,mem,[Fraction(5),5*z]))
        rows=[[chan(c,z,pol) for c in CH] for z,pol in pts]
        def weights(mem):
            w=solve(rows,[total(mem,z,pol) for z,pol in pts])
            return w
        w=weights(pr.v)
        R.check(w is not None,"the total is a combination of the five channels",loc)
        if w is not None:
            # each weight is one branching ratio of its own, lepton counted twice
            own={}
            for b in brs:
                mem=dict(pr.v); mem[b]=mem[b]+Fraction(1,7); w2=weights(mem)
                if w2 is None: own[b]=None; continue
                own[b]={c:(y-x)*7 for c,x,y in zip(CH,w,w2) if not close_(x,y)}
            for c,m in zip(CH,(2,1,1,1,1)):
                q=[b for b,d in own.items() if d and c in d]
                R.check(len(q)==1 and len(own[q[0]])==1 and close_(own[q[0]][c],m),"%s enters the total with %s its branching ratio"%(c,"twice" if m==2 else "once"),loc,detail="members %s"%q)
                if c in("Lepton","Hadron") and len(q)==1:
                    g=harn().flow(r"^(double )?vp::br_%s\("%c.lower()); R.fn(g.f); k=g.ret.single()
                    d=k and k[0]=="load" and (k[1]-var(("arg",0,g.f.args[0]["name"],"ptr")))
                    R.check((d.isconst() and int(d.cval())==q[0]) if d else None,"the %s branching ratio handed out is the one in the total"%c.lower(),(g.f.file,g.f.line))
            R.check(all(0<=x<=1 for x in w),"branching ratios lie between zero and one",ploc,detail=str([float(x) for x in w]))
            for c,x,y in zip(CH,w,(Fraction("0.36"),Fraction("0.12"),Fraction("0.26"),Fraction("0.13"),Fraction("0.13"))):
                R.check(abs(x-y)<=Fraction(1,50),"%s: the branching ratio is the published one"%c,ploc,detail="%s instead of %s"%(float(x),float(y)))
            R.check(close_(sum(w),1),"branching ratios sum to one with both leptonic modes",ploc,detail=str(float(sum(w))))
    except Unknown as x: R.und("the total: %s"%x,loc)
    # setting parameters from a grid, or for either particle type, gives the same
    for n,f in(("Init",flow(u,"Init")),):
        got={}
        a0=var(("arg",0,f.f.args[0]["name"],"ptr"))
        for e in f.effects:
            if e.kind=="store" and e.ty=="double":
                d=e.addr-a0
                if d.isconst() and e.val.isconst(): got.setdefault(int(d.cval()),[]).append((e.val.cval(),e.loc))
        for o,l in got.items():
            for v,lc in l:
                R.check(pr.v.get(o)==v,"initialising leaves the parameters as constructed",lc,detail="member at %d: %s"%(o,float(v)))
def solve(rows,b):
    """exact solution of an overdetermined system within rounding, or None"""
    n=len(rows[0]); M=[list(r)+[x] for r,x in zip(rows,b)]; piv=[]
    used=[]; A=[list(map(Fraction,m)) for m in M]
    for c in range(n):
        p=max((i for i in range(len(A)) if i not in used),key=lambda i:abs(A[i][c]))
        if abs(A[p][c])<Fraction(1,10**6): return None
        used.append(p)
        for i in range(len(A)):
            if i!=p and A[i][c]:
                k=A[i][c]/A[p][c]; A[i]=[x-k*y for x,y in zip(A[i],A[p])]
    w=[A[p][n]/A[p][c] for c,p in enumerate(used)]
    for r,x in zip(rows,b):
        if not close_(sum(a*y for a,y in zip(r,w)),x): return None
    return w
main("C19","each channel's spectrum, as a piecewise rational function extracted from the code, agrees with the published one at more points than its degree in every interval between end points, for several polarisations and mass ratios; the total is the weighted sum; parameters are the particles'",body)
