from quadlib import *
NX=("--unroll-threshold=200000","--unroll-max-iteration-count-to-analyze=64","--unroll-full-max-count=64")
TOL=1e-11
def settle(p):
    """constants initialised on first use are taken as initialised now"""
    def cm(k):
        if k[0]=="eq":
            s_=k[1].single()
            if s_ and s_[0]=="load" and isinstance(s_[2],tuple) and s_[2][:1]==("at",): return True
        return None
    rw=Rewriter(None,cm); return rw.poly(p)
def body(R):
    u=extract(lower(harness("quad.cpp")),roots=(r"^vp::",),extra=NX); lay=layout(u)
    got={}
    for nm,full in(("ev_full",True),("ev_part",False)):
        fl=u.flow(r"^vp::%s\("%nm); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
        I=var(("arg",0,fl.f.args[0]["name"],"ptr")); Fn=var(("arg",1,fl.f.args[1]["name"],"ptr"))
        ld=lambda n: ("load",I+lay[n],0,"double")
        a,b=ld("a"),ld("b")
        calls=[e for e in fl.effects if e.kind=="call" and "vp::Fn::operator()" in e.dem]
        if any(e.loops for e in calls) or any(e.guard!=T for e in calls): R.und(nm+": evaluations are not straight-line",loc); continue
        st=fl.endstate
        if any(e.kind in("store","memcpy","memset") and e.root==I.single() and e.loops for e in fl.effects if hasattr(e,"root")): R.und(nm+": stores in loops",loc); continue
        fv={n:expand(settle(fl.load(st,I+lay[n],8,"double"))) for n in("a","b","fa","fb","spa","spb","fspa","fspb","value","i2")}
        for n in("a","b","fa","fb"): R.check(True if fv[n]==var(ld(n)) else False if fv[n].isconst() or fv[n].single() and fv[n].single()[0] in("load","call") else None,"%s: %s of the interval is left alone"%(nm,{"a":"the left end","b":"the right end","fa":"the left value","fb":"the right value"}[n]),loc)
        # nodes
        at=lambda p,x,y: settle(expand(p)) and xsubst(settle(expand(p)),{a:x,b:y})
        node={ld("fa"):-1.0,ld("fb"):1.0}; arg={}
        okn=True
        for e in calls:
            p=expand(settle(e.args[1])); t=xsubst(p,{a:const(-1),b:const(1)})
            if not t.isconst(): R.und(nm+": an abscissa is not an affine function of the ends",e.loc); okn=False; continue
            t=t.cval(); lin=var(a).scale((1-t)/2)+var(b).scale((1+t)/2)
            R.check(close(p,lin),"%s: abscissa %.9f is at that fraction of the interval"%(nm,float(t)),e.loc)
            R.check(-1-1e-12<=float(t)<=1+1e-12,"%s: abscissa %.9f is inside the interval"%(nm,float(t)),e.loc)
            k=e.ret.single(); node[k]=float(t); arg[k]=settle(e.args[1])
            # same atom after rewriting
        if not okn: continue
        def am(k):
            if k[0]=="call" and "vp2Fn" in k[1]: return var(("y",Poly_t(k)))
            return None
        def Poly_t(k):
            t=xsubst(expand(settle(k[2][1])),{a:const(-1),b:const(1)}); return round(float(t.cval()),12)
        rw=Rewriter(am)
        rules=[("i2",fv["i2"],5),("value",fv["value"],9)]
        if full: rules.append(("returned",expand(settle(fl.ret)),18))
        for n,p,deg in rules:
            p=expand(rw.poly(p)); lab="%s, %s estimate"%(nm,{"i2":"lower","value":"middle","returned":"higher"}[n])
            w={}; ok=True
            for m,c in p.t.items():
                d=dict(m); ys=[x for x in d if akey(x)[0]=="y" or akey(x) in(ld("fa"),ld("fb"))]
                rest=[x for x in d if x not in ys]
                if len(ys)!=1 or d[ys[0]]!=1: ok=False; break
                if not(len(rest)==1 and d[rest[0]]==1 and akey(rest[0]) in(a,b)):
                    ok=False; break
                y=akey(ys[0]); t=y[1] if y[0]=="y" else(-1.0 if y==ld("fa") else 1.0)
                w.setdefault(t,{}); s_="a" if akey(rest[0])==a else "b"
                w[t][s_]=w[t].get(s_,0)+float(c)
            if not ok:
                R.und(lab+": not a weighted sum of integrand values",loc); continue
            got[(nm,n)]=p
            for t,d in sorted(w.items()):
                R.check(abs(d.get("a",0)+d.get("b",0))<TOL,lab+": weight of node %.6f scales with the length"%t,loc)
            W={t:2*d.get("b",0) for t,d in w.items()}
            for t in W:
                if t>=0:
                    o=[x for x in W if abs(x+t)<1e-10]
                    R.check(bool(o) and abs(W[o[0]]-W[t])<TOL if o else False,lab+": node %.6f has a mirror image of the same weight"%t,loc)
            for t in W:
                if t<0: R.check(any(abs(x+t)<1e-10 for x in W),lab+": node %.6f has a mirror image"%t,loc)
            for k in range(0,deg+1):
                want=2/(k+1) if k%2==0 else 0.0
                s_=sum(x*t**k for t,x in W.items())
                R.check(abs(s_-want)<TOL,lab+": exact for degree %d"%k,loc,detail="%.3g"%(s_-want) if abs(s_-want)>=TOL else "")
        for sp,v in(("spa","fspa"),("spb","fspb")):
            t=xsubst(fv[sp],{a:const(-1),b:const(1)})
            if not t.isconst(): R.und("%s: %s"%(nm,sp),loc); continue
            R.check(-1<float(t.cval())<1,"%s: split point %s lies inside the interval"%(nm,sp),loc)
            lin=var(a).scale((1-t.cval())/2)+var(b).scale((1+t.cval())/2)
            R.check(close(fv[sp],lin),"%s: split point %s is a point of the interval"%(nm,sp),loc)
            k=rw.poly(fv[v]).single()
            if k and k[0]=="y": R.check(abs(k[1]-float(t.cval()))<1e-10,"%s: the value stored for %s was taken there"%(nm,sp),loc)
            else: R.check(False if k and k[0]=="load" else None,"%s: the value stored for %s was taken there"%(nm,sp),loc)
        x,y=[xsubst(fv[s],{a:const(-1),b:const(1)}) for s in("spa","spb")]
        if x.isconst() and y.isconst(): R.check(x.cval()<y.cval(),nm+": split points are in order",loc)
    for n in("i2","value"):
        if ("ev_full",n) in got and ("ev_part",n) in got:
            R.check(close(got[("ev_full",n)],got[("ev_part",n)]),"both modes store the same %s estimate"%n,None)
    g=u.flow(r"^vp::ev_new\("); R.fn(g.f); I=var(("arg",0,g.f.args[0]["name"],"ptr"))
    for k,n in enumerate(("a","b","fa","fb")):
        v=g.load(g.endstate,I+lay[n],8,"double"); A=[var(("arg",j+1,g.f.args[j+1]["name"],"double")) for j in range(4)]
        R.check(True if v==A[k] else False if v in A or v.isconst() else None,"a new interval holds the %s it is given"%n,(g.f.file,g.f.line))
    g=u.flow(r"^vp::mid\("); A=[var(("arg",j,g.f.args[j]["name"],"double")) for j in range(2)]
    R.check(eqrat(g.ret,(A[0]+A[1]).scale(Fraction(1,2))),"the midpoint is the mean of the ends",(g.f.file,g.f.line))
main("C08","abscissas as affine functions of the ends, weights as coefficients of the integrand values; moments up to the nominal degree, symmetry, position of the stored split points",body)
