from quadlib import *
def body(R):
    u=quad_unit(); lay=layout(u)
    fl=u.flow(r"^vp::quad\("); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    A={a["name"]:var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)}
    a,b,o,f=A["a"],A["b"],A["o"],A["f"]
    revc=cflt(b,a); orig={n:("load",o+lay["o_"+n],0,"double") for n in("fa","fb")}
    fnc=lambda v: (lambda k: k and k[0]=="call" and "vp2Fn" in k[1] and k)(v.single())
    def settle(p,rev,has,nana=None,nanb=None):
        def cm(k):
            c=mkcond(k)
            if c==revc: return rev
            if c==bnot(revc): return not rev
            if k[0]=="flt" and {k[1],k[2]}=={a,b}: return (k[1]==b)==rev
            if k[0]=="feq" and (k[1]==a-b or k[1]==b-a): return False
            if k[0]=="eq" and k[1] in(o,-o): return not has
            if k[0]=="nan":
                ks=[q.single() for q in k[1] if isinstance(q,Poly)] if isinstance(k[1],(tuple,list)) else [k[1].single()]
                if orig["fa"] in ks and nana is not None: return nana
                if orig["fb"] in ks and nanb is not None: return nanb
            return None
        for _ in range(4):
            q=Rewriter(None,cm).poly(p) if isinstance(p,Poly) else Rewriter(None,cm).cond(p)
            if q==p: break
            p=q
        return p
    ev=[e for e in fl.effects if e.kind=="call" and re.search(EVAL,e.dem) and not e.loops]
    if len(ev)!=1: R.und("first evaluation not found or not unique",loc); return
    e=ev[0]; P=e.args[0]
    nm={True:"limits reversed",False:"limits in order"}
    for rev in(True,False):
        # the values used for the ends of the first piece
        for end,vn in(("a","fa"),("b","fb")):
            pe=settle(fl.at_call(e,P+lay[end],8,"double"),rev,False)
            if pe not in(a,b): R.und("%s: ends of the first piece"%nm[rev],e.loc); continue
            cn="a" if pe==a else "b"; off=orig["f"+cn]; oth=orig["fb" if cn=="a" else "fa"]
            raw=fl.at_call(e,P+lay[vn],8,"double")
            for has in(False,True):
                for nn in((True,) if not has else(True,False)):
                  for no in((True,) if not has else(True,False)):
                    na,nb=(nn,no) if cn=="a" else(no,nn)
                    v=settle(raw,rev,has,na,nb); k=fnc(v); lab="%s, %s: value at limit %s"%(nm[rev],"no options" if not has else "options give %s value there"%("no" if nn else "a"),cn)
                    if k:
                        x=settle(k[2][1],rev,has,na,nb)
                        R.check(True if x==pe else False if x in(a,b) else None,lab+" is the integrand's value there",e.loc)
                    elif v.single()==off: R.check(has and not nn,lab+" is the supplied one",e.loc)
                    elif v.single()==oth: R.check(False,lab+" is not the other limit's",e.loc)
                    else: R.und(lab,e.loc)
        # what the caller finds in the options afterwards
        for cn in("a","b"):
            raw=fl.load(fl.endstate,o+lay["o_f"+cn],8,"double"); off=orig["f"+cn]; pe=A[cn]
            for na in(True,False):
                for nb in(True,False):
                    nn=na if cn=="a" else nb
                    v=settle(raw,rev,True,na,nb); k=fnc(v); lab="%s, value at %s %s: reported value at %s"%(nm[rev],cn,"unknown" if nn else "supplied",cn)
                    vs=[v]
                    if v.single() and v.single()[0]=="ite":
                        vs=[q for _,_,(q,) in cases((v,))]
                    for v in vs:
                        k=fnc(v)
                        if k:
                            x=settle(k[2][1],rev,True,na,nb); R.check(True if x==pe else False if x in(a,b) else None,lab+" is the integrand's value there",loc)
                        elif v.single()==off: R.check(not nn,lab+" is the integrand's value there",loc)
                        elif v.single()==orig["fb" if cn=="a" else "fa"]: R.check(False,lab+" is not the other limit's",loc)
                        else: R.und(lab,loc)
    # sign
    def leaves(p,g):
        k=p.single()
        if k and k[0]=="ite":
            for c,x in((k[1],k[2]),(bnot(k[1]),k[3])):
                gg=band(g,c)
                if gg!=F: yield from leaves(x,gg)
        elif len(p.t)==1 and list(p.t.values())[0] in(1,-1):
            (m,c),=p.t.items()
            if len(m)==1 and m[0][1]==1 and akey(m[0][0])[0]=="ite":
                for g2,q in leaves(var(akey(m[0][0])),g): yield g2,q.scale(c)
            elif len(m)>1 and sum(1 for x,ee in m if akey(x)[0]=="ite" and ee==1)==1:
                it=[x for x,ee in m if akey(x)[0]=="ite"][0]
                rest=Poly({tuple((x,ee) for x,ee in m if x!=it):c})
                for g2,q in leaves(var(akey(it)),g): yield g2,expand(q*rest)
            else: yield g,p
        else: yield g,p
    def res(p):
        """(sign,quantity) of a multiple of one estimate"""
        if len(p.t)!=1: return None
        (m,c),=p.t.items()
        if len(m)!=1 or m[0][1]!=1 or c not in(1,-1): return None
        k=akey(m[0][0])
        if k[0]=="mu" or k==e.ret.single() or (k[0]=="load" and k[1]==P+lay["value"]): return c,k
        return None
    ls=[(brestr(g,T),q) for g,q in leaves(expand(fl.ret),fl.retguard)]
    for g,q in ls:
        r=res(q); where="after subdividing" if r and r[1][0]=="mu" else "without subdividing"
        if r is None: R.und("result is not an estimate or its negative",loc); continue
        gr=band(g,revc); gn=band(g,bnot(revc))
        if gr!=F: R.check(True if r[0]==-1 else (False if find(brestr(gr,fl.retguard)) is not None or band(g,bnot(revc))==F or find_feas(gr,revc,a,b) else None),"limits reversed: the result %s is negated"%where,loc)
        if gn!=F: R.check(True if r[0]==1 else (False if band(g,revc)==F or find_feas(gn,bnot(revc),a,b) else None),"limits in order: the result %s is not negated"%where,loc)
    # options written on every return
    has=bnot(ceq(o,ZERO))
    for n,t in(("unc","error estimate"),("out","tolerance flag")):
        st=[x for x in fl.effects if x.kind=="store" and x.root==o.single() and x.addr==o+lay["o_"+n] and not x.loops]
        g=F
        for x in st: g=bor(g,x.guard)
        miss=band(fl.retguard,has,bnot(g))
        R.check(True if miss==F else False if not any(x.kind=="call" and x.guard!=F and o in x.args for x in fl.effects) else None,"the %s is written whenever options are supplied and the integrator returns"%t,loc)
        for x in st:
            if x.val.isconst() and n=="unc": R.check(None,"error estimate constant",x.loc)
    st=[x for x in fl.effects if x.kind=="store" and x.root==o.single() and x.addr==o+lay["o_unc"] and not x.loops]
    for x in st:
        mus={k for k in deep_atoms(x.val) if k[0]=="mu"}
        ids={k[1:3] for k in mus}
        if mus:
            L=next(iter(mus))[1]; I=fl.loopinfo[L]
            accs={k[2] for k in deep_atoms(fl.ret) if k[0]=="mu"}
            R.check(True if not(ids&{(L,i) for i in accs}) else False,"after subdividing, the error estimate is collected apart from the result",x.loc)
    g=u.flow(r"^vp::intol\("); R.fn(g.f); O=var(("arg",0,g.f.args[0]["name"],"ptr"))
    v=tob(g.ret); l=[k for k in cond_atoms(v) if k[0]=="load"]
    R.check(True if len(l)==1 and l[0][1]==O+lay["o_out"] and band(v,tob(var(l[0])))==F or len(l)==1 and l[0][1]==O+lay["o_out"] and Ev(leaf=lambda k,ev: 1 if k==l[0] else None).cond(v) is False and Ev(leaf=lambda k,ev: 0 if k==l[0] else None).cond(v) is True else False if len(l)==1 else None,"inTolerance is the opposite of the flag",(g.f.file,g.f.line))
    g=u.flow(r"^vp::optnew\("); R.fn(g.f); O=var(("arg",0,g.f.args[0]["name"],"ptr"))
    for n in("fa","fb"):
        v=g.load(g.endstate,O+lay["o_"+n],8,"double"); k=v.single()
        R.check(True if k and k[0]=="fconst" and "nan" in str(k[1]) else False if v.isconst() or k and k[0]=="load" else None,"fresh options claim no value at %s"%n[1],(g.f.file,g.f.line))
    v=g.load(g.endstate,O+lay["o_out"],1,"i8"); 
    R.check(True if v==ZERO else False if v.isconst() else None,"fresh options are in tolerance",(g.f.file,g.f.line))
def find_feas(g,c,a,b): return True if g!=F else False
main("C09","extracted per orientation and per set of supplied end values: the values used and reported belong to the caller's limits, the result carries the sign of the orientation on every return path, error estimate and flag are stored on every return",body)
