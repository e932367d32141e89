from quadlib import *
def body(R):
    u=quad_unit(); lay=layout(u)
    fl=u.flow(r"^vp::quad\("); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    A={a["name"]:var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)}
    gb=u.flow(r"^vp::bad\("); gc=u.flow(r"^vp::can\("); R.fn(gb.f); R.fn(gc.f)
    calls=[e for e in fl.effects if e.kind=="call"]
    ev=[e for e in calls if re.search(EVAL,e.dem)]
    loops=sorted({e.loops for e in ev if e.loops})
    vec=[e for e in calls if re.search(r"std::(vector|deque|list|stack)<AdaptiveQuad::Interval",e.dem)]
    if len(loops)!=1 or len(loops[0])!=1 or not vec:
        R.und("the list of pieces or the subdivision loop has another shape",loc); return
    L=loops[0][0]; I=fl.loopinfo[L]; pieces=[e for e in ev if e.loops==(L,)]
    vr={fl.root(e.args[0]) for e in vec}
    if len(vr)!=1: R.und("more than one list of pieces",loc); return
    V0=var(next(iter(vr)))
    name=lambda e: re.search(r"::(~?\w+)\(",e.dem.split("Interval>",1)[1] if "Interval>" in e.dem else e.dem)
    def op(e):
        m=re.findall(r"::(~?\w+)(?:<.*>)?\(",e.dem); return m[0] if m else "?"
    inl=[e for e in vec if e.loops]; outl=[e for e in vec if not e.loops]
    PUSH=("push_back","emplace_back"); MOD=PUSH+("pop_back","clear","resize","insert","erase","emplace","assign","operator=","swap")
    pops=[e for e in inl if op(e)=="pop_back"]; pushes=[e for e in inl if op(e) in PUSH]
    other=[e for e in inl if op(e) in MOD and e not in pops and e not in pushes]
    if other: R.und("the list of pieces is also changed by %s"%op(other[0]),other[0].loc); return
    if any(e.loops!=(L,) for e in inl): R.und("nested loop over the list",loc); return
    BG=pieces[0].guard
    for e in pieces+pops: BG=bor(BG,e.guard)
    same=lambda e: bimp(BG,e.guard)
    R.check(len(pops)==1 and same(pops[0]) if len(pops)<=1 else None,"each pass removes exactly the piece it splits",loc)
    if len(pops)!=1: return
    idx={id(e):k for k,e in enumerate(fl.effects)}
    R.check(all(idx[id(pops[0])]<idx[id(p)] for p in pushes),"the split piece is removed before its parts are appended",pops[0].loc)
    # the parent: last element of the list at the beginning of the pass
    obj=[e.args[0] for e in pieces]
    fv=lambda e,o,n: fl.at_call(e,o+lay[n],8,"double")
    par=None
    for e,o in zip(pieces,obj):
        for n in("a","b"):
            k=fv(e,o,n).single()
            if k and k[0]=="load" and fl.root(k[1])!=V0.single():
                inner=[x for x in k[1].atoms() if akey(x)[0]=="load" and akey(x)[1]==V0+8]
                if inner:
                    base=k[1]-const(k[1].t.get((),0)); par=(base,k[2])
    if par is None: R.und("the piece being split is not read from the end of the list",loc); return
    base,pver=par
    offs={}
    def pf(v):
        """name of the parent's field that v is, or None"""
        k=v.single()
        if k and k[0]=="load" and (k[1]-base).isconst():
            d=int((k[1]-base).cval())+lay["size"]
            for n in("a","b","fa","fb","spa","spb","fspa","fspb","value","i2"):
                if d==lay[n]: return n
            return ("off",d)
        return None
    VAL={"a":"fa","b":"fb","spa":"fspa","spb":"fspb"}
    ends=[]; dec=True
    for j,(e,o) in enumerate(zip(pieces,obj)):
        lab="part %d"%(j+1)
        R.check(True if same(e) else None,lab+" is evaluated on every pass",e.loc)
        q=[]
        for p,v in(("a","fa"),("b","fb")):
            P=fv(e,o,p); Vv=fv(e,o,v); pn=pf(P); vn=pf(Vv)
            if pn is None:
                k=Vv.single(); dec=False
                ok=k and k[0]=="call" and "vp2Fn" in k[1] and k[2][1]==P
                R.check(True if ok else False if vn is not None else None,lab+": the value at a new split point is the integrand's",e.loc)
            elif not isinstance(pn,str): R.check(False,lab+": end point is not an end or split point of the piece split",e.loc); dec=False
            elif pn not in VAL: R.check(False,lab+": end point is the parent's %s"%pn,e.loc); dec=False
            else:
                k=Vv.single(); fresh=k and k[0]=="call" and "vp2Fn" in k[1] and k[2][1]==P
                R.check(True if vn==VAL[pn] or fresh else False if vn is not None or Vv.isconst() else None,"%s: its value at %s is the integrand's value there"%(lab,{"a":"the left end","b":"the right end","spa":"the left split point","spb":"the right split point"}[pn]),e.loc)
            q.append(pn)
        ends.append(q)
    if dec:
        rest=list(ends); cur="a"; n=0
        while rest:
            m=[q for q in rest if q[0]==cur]
            if not m: break
            rest.remove(m[0]); cur=m[0][1]; n+=1
        ok=not rest and cur=="b" and [q[0] for q in sorted(ends,key=lambda q:("a","spa","spb","b").index(q[0]))]==[q[0] for q in sorted(ends,key=lambda q:("a","spa","spb","b").index(q[1]))]
        R.check(ok,"the parts are contiguous and cover the piece split",pieces[0].loc,detail=" ".join("[%s,%s]"%tuple(q) for q in ends))
    # which part is kept
    kept={}
    for p in pushes:
        j=[k for k,o in enumerate(obj) if p.args[1]==o]
        if len(j)!=1 or op(p)!="push_back": R.und("something else than a part is kept",p.loc); return
        kept.setdefault(j[0],[]).append(p)
    pg=[]
    for j,e in enumerate(pieces):
        l=kept.get(j,[])
        g=F
        for p in l:
            if band(g,p.guard)!=F: R.check(False if find(brestr(band(g,p.guard),BG)) is not None else None,"part %d is kept at most once"%(j+1),p.loc); return
            g=bor(g,p.guard)
            R.check(idx[id(e)]<idx[id(p)],"part %d is evaluated before it is kept"%(j+1),p.loc)
        pg.append(brestr(g,BG))
    R.check(True,"parts kept",loc)
    # accumulation
    mus=[k for k in deep_atoms(fl.ret) if k[0]=="mu" and k[1]==L]
    nx=I["next"]
    def subst0(K): return {("mu",L,i,"double"):ZERO for i in K}
    K={i for i in nx if I["init"].get(i)==ZERO and all(m[2]!=i for m in mus)}
    def zero_in_all(p):
        try: return all(eqrat(expand(q[0]),ZERO) for _,_,q in cases((p,),BG))
        except TooMany: return False
    while K:
        drop=set()
        for i in K:
            p=xsubst(nx[i],subst0(K))
            if not allzero(p): drop.add(i)
        if not drop: break
        K-=drop
    tot=[m for m in mus if m[2] not in K]
    if len(tot)!=1: R.und("the running total is not a single loop variable",loc); return
    tid=tot[0][2]; MU=var(tot[0])
    R.check(implies(T,cfeq(I["init"][tid],ZERO)),"the running total starts at zero",loc)
    nt=xsubst(nx[tid],subst0(K))
    import itertools
    for combo in itertools.product((False,True),repeat=len(pieces)):
        g=T
        for j,k in enumerate(combo): g=band(g,pg[j] if k else bnot(pg[j]))
        if g==F: continue
        lab="parts kept: "+(",".join(str(j+1) for j,k in enumerate(combo) if k) or "none")
        d=expand(under(nt,g)-MU)
        want=ZERO
        vals=set()
        for j,(e,o) in enumerate(zip(pieces,obj)):
            v=[k for k in deep_atoms(nx[tid]) if k[0]=="load" and k[1]==o+lay["value"]]
            if len(v)>1: R.und(lab+": value of part %d read at several times"%(j+1),e.loc); v=None; break
            if not v: vv=None
            else: vv=var(v[0]); vals.add(v[0])
            if not combo[j]:
                if vv is None: want=None; break
                want=want+vv
        if want is None:
            if all(k[0] in("load","mu") for k in deep_atoms(nx[tid]) if k[0]!="ite" and k[0]!="call" and k[0]!="arg" and k[0]!="inv" and k[0]!="alloca"): R.check(False,"the value of an accepted part is added to the total",loc)
            else: R.und("contributions are not the parts' values",loc)
            break
        if d==want: R.ok(lab+": the values of all others are added to the total once",loc); continue
        try: cs=cases((d,),g)
        except TooMany: R.und(lab,loc); continue
        st=True
        for gg,_,(q,) in cs:
            q=expand(q)
            if q==want: continue
            only=all(akey(a) in vals or akey(a)[0]=="mu" or akey(a)[0]=="load" and any(akey(a)[1]==o+lay["i2"] for o in obj) for a in q.atoms())
            if only and find(gg) is not None: st=False; break
            st=None
        R.check(st,lab+": the values of all others are added to the total once",loc)
    # acceptance
    def inst(p,o,t,ver):
        """expression of bad/can for the object at o in state ver"""
        a0=[x for x in deep_atoms(p) if x[0]=="arg" and x[3]=="ptr"]
        def am(k):
            if k[0]=="load":
                d=k[1]-var(a0[0])
                if d.isconst(): return var(("load",o+d.cval(),ver,"double"))
            if k[0]=="arg" and k[3]=="double": return t
            return None
        rw=Rewriter(am); return rw
    def tolerance(g,o):
        """(tolerance, version) that the guard compares the piece's uncertainty with"""
        out=set()
        for v in bvars(g):
            k=ckey(v)
            if k[0]!="flt": continue
            d=k[2]-k[1]
            for s_ in(1,-1):
                dd=d.scale(s_)
                for a in dd.atoms():
                    ak=akey(a)
                    if ak[0]=="call" and ak[1]=="fabs" and dd.t.get(((a,1),),0)==1:
                        vs=[x for x in deep_atoms(ak[2][0]) if x[0]=="load" and x[1]==o+lay["value"]]
                        is2=[x for x in deep_atoms(ak[2][0]) if x[0]=="load" and x[1]==o+lay["i2"]]
                        if vs and is2: out.add((var(ak)-dd,vs[0][2]))
        return out
    first=[e for e in ev if not e.loops]
    Ts=[]
    oot=[e for e in fl.effects if e.kind=="store" and e.root==A["o"].single() and e.addr==A["o"]+lay["o_out"] and any(k[0]=="mu" and k[1]==L for k in deep_atoms(e.val))]
    om=None
    if len(oot)==1: 
        om=[k for k in deep_atoms(oot[0].val) if k[0]=="mu" and k[1]==L]
    flagged=None
    if om and len(om)==1:
        flagged=tob(xsubst(oot[0].val,{om[0]:ONE}))==T
        R.check(True if flagged else None,"the flag collected while subdividing is what the caller gets",oot[0].loc)
        R.check(True if I["init"][om[0][2]]==ZERO else None,"the flag starts clear",loc)
        nf=nx[om[0][2]]
        st=implies(T,tob(xsubst(nf,{om[0]:ONE})))
        R.check(st,"the flag is never cleared again while subdividing",loc)
    else:
        so=[e for e in fl.effects if e.kind=="store" and e.root==A["o"].single() and e.addr==A["o"]+lay["o_out"]]
        if so and all(e.val==ZERO for e in so): R.check(False,"acceptance of a part out of tolerance is recorded",so[-1].loc)
        else: R.und("out-of-tolerance flag: not collected in one loop variable",loc)
    for j,(e,o) in enumerate(zip(pieces,obj)):
        g=pg[j]; acc=bnot(g); lab="part %d"%(j+1)
        tt=tolerance(g,o)
        if len(tt)!=1: R.und(lab+": the acceptance condition does not compare its uncertainty with a tolerance",e.loc); continue
        (t,ver),=tt
        Ts.append(t)
        if any(k[0]=="mu" and k[1]==L or k[0]=="load" and k[2]==ver for k in deep_atoms(t)): R.und(lab+": tolerance changes while subdividing",e.loc); continue
        bad=cflt(ZERO,inst(gb.ret,o,t,ver).poly(gb.ret)); can=tob(inst(gc.ret,o,t,ver).poly(gc.ret))
        R.check(implies(band(acc,bad),bnot(can)),lab+" is accepted only within tolerance or when it cannot be split",e.loc)
        R.check(implies(g,can),lab+" is kept for splitting only when it can be split",e.loc)
        if flagged is not None:
            R.check(implies(band(acc,bad),tob(nx[om[0][2]])),lab+": acceptance out of tolerance is recorded",e.loc)
    # exits of the loop
    end=[x for x in I["exits"]]
    for x in end:
        g=x[2]; g=brestr(g,I["entry"]) if isinstance(I["entry"],int) else g
        hs=I["hstate"]
        b=fl.load(hs,V0,8,"ptr"); c=fl.load(hs,V0+8,8,"ptr")
        z=lay["size"]; R.check(implies(g,ceq(b,c),vals=[0,z,2*z,3*z,z*1000,z*10**6]),"splitting stops only when no piece is left",loc)
    # first piece: the whole range
    pf0=[e for e in outl if op(e) in MOD]
    if len(first)!=1 or len(pf0)!=1 or op(pf0[0])!="push_back" or pf0[0].args[1]!=first[0].args[0]: R.und("the initial piece is not the one evaluated first",loc)
    else:
        e=first[0]; o=e.args[0]
        for rev in(True,False):
            g=cflt(A["b"],A["a"]); g=g if rev else bnot(g)
            a=under(fv(e,o,"a"),g); b=under(fv(e,o,"b"),g); lo,hi=(A["b"],A["a"]) if rev else(A["a"],A["b"])
            for v,w,n in((a,lo,"lower"),(b,hi,"upper")):
                R.check(True if v==w else False if v in(lo,hi) or v.isconst() else None,"the first piece %s at the %s limit (limits %s)"%("starts" if n=="lower" else "ends",n,"reversed" if rev else "in order"),e.loc)
        tt=tolerance(pf0[0].guard,o)
        if len(tt)==1:
            (t,ver),=tt
            if all(x==t for x in Ts): R.ok("parts are held to the tolerance of the whole",loc)
            else:
                st=None
                for x in Ts:
                    if x!=t and len(x.t)==1 and len(t.t)==1 and list(x.t)==list(t.t):
                        st=False if list(x.t.values())[0]>list(t.t.values())[0] else st
                R.check(st,"parts are held to the tolerance of the whole",loc)
            bad=cflt(ZERO,inst(gb.ret,o,t,ver).poly(gb.ret))
            dg=brestr(band(fl.retguard,bnot(pf0[0].guard)),e.guard)
            R.check(implies(band(dg,e.guard),bnot(bad)),"the first estimate is returned only within tolerance",loc)
        else: R.und("first estimate: tolerance not recognised",loc)
        R.check(True if bimp(fl.retguard,e.guard) else False,"every result comes from an evaluated piece",e.loc)
        ng=band(fl.retguard,bnot(pf0[0].guard)); d=under(fl.ret,ng)
        fin=[]
        for _,_,(q,) in cases((d,),ng): fin.append(expand(q))
        okv=[]
        for q in fin:
            k=(q if q.t and sorted(q.t.values())[0]>0 else -q).single()
            okv.append(True if k and (k==e.ret.single() or k[0]=="load" and k[1]==o+lay["value"]) else False if q.isconst() or any(akey(a)[0]=="mu" for a in q.atoms()) else None)
        R.check(True if all(x is True for x in okv) else False if False in okv else None,"without subdivision the result is the first estimate",loc)
def allzero(p):
    p=expand(p)
    if p.isconst(): return p.cval()==0
    k=p.single()
    if k and k[0]=="ite": return allzero(k[2]) and allzero(k[3])
    if any(akey(a)[0]=="ite" for a in p.atoms()):
        try: return all(expand(q[0]).t=={} for _,_,q in cases((p,)))
        except TooMany: return False
    return not p.t
main("C07","per pass of the subdivision loop: parts chain from the left to the right end of the piece removed with matching integrand values, each part is kept or added exactly once in every combination of acceptances, acceptance out of tolerance implies it cannot be split and sets the flag",body)
