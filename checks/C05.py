from common import *
NX=("--keep-rec","--unroll-threshold=200000","--unroll-max-iteration-count-to-analyze=64","--unroll-full-max-count=64")
def unit():
    bc=lower(harness("akima.cpp"),extra=["-I"+REPO+"/src"])
    return extract(bc,roots=(r"^vp::akima",),extra=NX)
def evaluator(u):
    """(value as a polynomial in element fields and argument, element root)"""
    fl=u.flow(r"vp::akima_eval\(")
    x=("arg",1,fl.f.args[1]["name"],"double")
    k=fl.ret.single()
    br=[fl.ret] if not(k and k[0]=="ite") else [k[2],k[3]]
    out=[]
    for b in br:
        b=expand(b); fields={}; ok=True; ptr=None
        for a in b.atoms():
            kk=akey(a)
            if kk==x: continue
            if kk[0]!="load" or kk[3]!="double": ok=False; continue
            # element pointer: address minus its constant
            base=kk[1]; c=base.t.get((),0); p=base-const(c)
            fields.setdefault(p,{})[kk]=int(c)
        out.append((b,fields,ok))
    return fl,x,out
def condkey(k):
    return k
def eval_symbolic(E,x,fields,val,xv):
    """value polynomial with element fields replaced"""
    m={kk:val(off) for kk,off in fields.items()}
    m[x]=xv
    return xsubst(E,m)
def body(R):
    u=unit()
    fl,x,brs=evaluator(u); R.fn(fl.f)
    good=[(b,f) for b,f,ok in brs if ok and len(f)==1]
    if not good: R.und("evaluation is not a polynomial in the fields of one piece",(fl.f.file,fl.f.line)); return
    good=[(b,f) for b,f in good if min(min(q.values()) for q in f.values())>=0]
    if not good: R.und("no branch of the evaluation reads a piece at its own address",(fl.f.file,fl.f.line)); return
    E,F_=good[0]; (P,fields),=F_.items()
    fmin=min(fields.values())
    loc0=(fl.f.file,fl.f.line)
    for n in range(0,3):
        g=u.flow(r"vp::akima%d\("%n); R.fn(g.f)
        R.check(g.retguard==F if n<3 else None,"a spline through %d point(s) is refused with an exception"%n,(g.f.file,g.f.line))
    for n in range(3,int(os.environ.get("NMAX","7" if TIER=="quick" else "10"))):
        one(R,u,n,E,x,fields,fmin)
    ctor(R,u)
def ctor(R,u):
    g=u.flow(r"vp::akima_vec\("); R.fn(g.f)
    # sizes of the two vectors must agree on every path that returns
    A=[var(("arg",k,g.f.args[k]["name"],"ptr")) for k in(0,1)]
    sz=[(g.load(State(),a+8,8,"ptr")-g.load(State(),a,8,"ptr")) for a in A]
    thr=F
    for e in g.effects:
        if e.kind=="throw": thr=bor(thr,e.guard)
    d=ceq(sz[0],sz[1])
    ok=bimp(bnot(d),thr) or band(g.retguard,bnot(d))==F
    if not ok:
        # compare after division by the element size
        q=lambda p: var(("idiv",p,const(8),"s"))
        for f in(lambda p:p.scale(Fraction(1,8)),q):
            dd=ceq(f(sz[0]),f(sz[1]))
            if bimp(bnot(dd),thr) or band(g.retguard,bnot(dd))==F: ok=True
    R.check(ok or (None if [1 for e in g.effects if e.kind=="call" and "initialize" not in e.dem and "AkimaSpline" in e.dem] else False),"vectors of different lengths are refused with an exception",(g.f.file,g.f.line))
def one(R,u,n,E,x,fields,fmin):
    g=u.flow(r"vp::akima%d\("%n); R.fn(g.f)
    loc=(g.f.file,g.f.line)
    s_,X_,Y_=[var(("arg",k,g.f.args[k]["name"],"ptr")) for k in range(3)]
    # data as symbols: x_k = X0 + sum H, y_{k+1} = y_k + M_k H_k
    H=[var(("H",k)) for k in range(n-1)]; M={k:var(("M",k)) for k in range(n-1)}
    Xs=[var(("X0",))]; Ys=[var(("Y0",))]
    for k in range(n-1): Xs.append(Xs[-1]+H[k]); Ys.append(Ys[-1]+M[k]*H[k])
    M[-1]=M[0].scale(2)-M[1]; M[-2]=M[0].scale(3)-M[1].scale(2)
    M[n-1]=M[n-2].scale(2)-M[n-3]; M[n]=M[n-2].scale(3)-M[n-3].scale(2)
    def W(p):
        """|p| with a canonical sign"""
        c=p.t and sorted(p.t.items())[0][1]
        return var(("abs",p if c>0 else -p)) if p.t else ZERO
    sub={}
    def data(k):
        if k[0]=="load":
            r,o=g.split(k[1])
            for a,v in((X_,Xs),(Y_,Ys)):
                if r==a.single() and o.isconst() and o.cval()%8==0 and 0<=o.cval()//8<n: return v[int(o.cval()//8)]
                if r==a.single(): sub["bad"]=o
        if k[0]=="call" and k[1]=="fabs": return W(expand(rw.poly(k[2][0])))
        if k[0]=="fmul": return rw.poly(k[1])*rw.poly(k[2])
        return None
    rw=Rewriter(data)
    # the sequence of pieces: one push per interval on the vector that evaluation reads
    vec=[e for e in g.effects if e.kind=="call" and re.search(r"std::vector<.*>::(push_back|emplace_back|resize|clear|assign|operator=|insert|erase|pop_back|swap)\b",e.dem) and g.root(e.args[0])==s_.single()]
    push=[e for e in vec if re.search(r"::(push_back|emplace_back)",e.dem)]
    pre=[e for e in vec if e not in push]
    if len(push)==0 or any(e.loops for e in vec): R.und("%d points: pieces are not appended one by one"%n,loc); return
    first=g.effects.index(push[0])
    emptied=[e for e in pre if g.effects.index(e)<first and (re.search(r"::clear\b",e.dem) or (re.search(r"::resize\b",e.dem) and e.args[1]==ZERO)) and e.guard==T]
    other=[e for e in pre if e not in emptied]
    R.check(True if emptied else (None if other else False),"%d points: pieces of an earlier use are dropped before new ones are added"%n,loc)
    if other: R.und("%d points: the list of pieces is also modified in another way"%n,other[0].loc); return
    R.check(len(push)==n-1,"%d points give %d pieces"%(n,n-1),loc)
    if len(push)!=n-1: return
    R.check(all(bimp(g.retguard,e.guard) for e in push),"%d points: every piece is added on every successful path"%n,loc)
    # ordering of abscissas
    rg=rw.cond(g.retguard)
    for k in range(n-1):
        ok=bimp(rg,cflt(ZERO,H[k])) or (band(rg,cflt(H[k],ZERO))==F and band(rg,cfeq(H[k],ZERO))==F)
        mention=any(("H",k) in cond_atoms(cvar(ckey(v))) for v in bvars(rg))
        R.check(ok,"%d points: abscissas %d and %d out of order or equal are refused"%(n,k,k+1),loc)
    def slope(k,own):
        wl=W(expand(M[k-1]-M[k-2])); wr=W(expand(M[k+1]-M[k]))
        den=expand(wl+wr)
        return den,(wr*M[k-1]+wl*M[k])*den.inv() if den.t else None,own
    pos=[cflt(ZERO,H[k]) for k in range(n-1)]
    def norm_guard(p,extra=T): return p
    for i,e in enumerate(push):
        memo={}
        def val(off):
            if off not in memo: memo[off]=rw.poly(g.at_call(e,e.args[1]+const(off),8,"double"))
            return memo[off]
        s=var(("s",))
        xv=Xs[i]+s
        try: V_=eval_symbolic(E,x,fields,val,xv)
        except AnalysisError: R.und("%d points: piece %d"%(n,i),e.loc); continue
        if "bad" in sub: R.check(False,"%d points: piece %d only uses the data given"%(n,i),e.loc); return
        # split on the weight conditions
        cs=None
        want=[("left",0,slope(i,M[i])),("right",1,slope(i+1,M[i]))]
        def assume(c,flag):
            """rewrite conditions about total weights under `flag`(den) -> True/False"""
            def cm(k):
                if k[0] in("flt","feq"):
                    for den in c:
                        if k[0]=="flt":
                            d=k[2]-k[1]
                            if samedir(d,den): return c[den]
                            if samedir(-d,den): return False
                        else:
                            if samedir(k[1],den) or samedir(-k[1],den): return not c[den]
                    z=sign_known(k)
                    if z is not None: return z
                return None
            return Rewriter(None,cm)
        def samedir(p,q):
            if not q.t: return False
            (m0,c0)=sorted(q.t.items())[0]; c1=p.t.get(m0,0)
            if c1==0 or Fraction(c1)/Fraction(c0)<0: return False
            return p==q.scale(Fraction(c1)/Fraction(c0))
        def sign_known(k):
            # sums of absolute values are not negative
            if k[0]=="flt":
                d=expand(k[2]-k[1])   # d>0 ?
                if all(c<0 and all(akey(a)[0]=="abs" for a,_ in m) for m,c in d.t.items()): return False
            return None
        dl,tl,_=want[0][2]; dr,tr,_=want[1][2]
        for zl in(True,False):
            for zr in(True,False):
                if dl==dr and zl!=zr: continue
                # all-zero on one side forces the neighbours
                c={dl:zl,dr:zr}
                rwc=assume(c,None)
                v=rwc.poly(V_)
                v=xsubst(v,{})
                odd=[showa(akey(a))[:60] for a in v.atoms() if akey(a)[0] not in("s","H","M","X0","Y0","abs","inv")]
                lab="%d points, piece %d%s"%(n,i,"" if zl and zr else " (flat %s)"%("on both sides" if not zl and not zr else "left" if not zl else "right"))
                if odd: R.und(lab+": the piece depends on "+odd[0],e.loc); continue
                # under a vanishing total weight both absolute values vanish
                z={}
                for d,f in c.items():
                    if not f:
                        for m in d.t:
                            for a,_ in m: z[akey(a)]=ZERO
                def clean(p): return xsubst(p,z) if z else p
                tL=tl if zl else M[i]; tR=tr if zr else M[i]
                try:
                    v=clean(v); tL=clean(tL); tR=clean(tR)
                except ZeroDivisionError:
                    continue
                at=lambda p,q: xsubst(p,{("s",):q})
                def d(p):
                    a=atom(("s",)); out=ZERO
                    for m,cc in p.t.items():
                        ee=dict(m).get(a,0)
                        if ee: out=out+Poly({tuple((b,y-(1 if b==a else 0)) for b,y in m if not(b==a and y==1)):cc*ee})
                    return out
                deg=max([dict(m).get(atom(("s",)),0) for m in v.t]+[0])
                ok=[eqrat(at(v,ZERO),Ys[i]),eqrat(at(v,H[i]),Ys[i+1]),eqrat(at(d(v),ZERO),tL),eqrat(at(d(v),H[i]),tR),deg<=3]
                nm=["takes the left data value","takes the right data value","has the Akima slope at its left end","has the Akima slope at its right end","is cubic"]
                for o,t in zip(ok,nm): R.check(bool(o),lab+" "+t,e.loc)
main("C05","for each number of points the initialiser is expanded completely; the evaluation formula applied to the coefficients it stores must be, identically in the data, the cubic with the data values and Akima end slopes of its interval; refusal guards must cover bad input",body)
