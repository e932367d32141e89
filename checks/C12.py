from common import *
BIG=2**64
def residues(p):
    A=1<<p
    if p<=9: base=range(A)
    else:
        s=set()
        for q in list(range(0,40))+[63,64,65,127,128,129,254,255,256,257,258,511,512,65534,65535,65536,65537]:
            s.add(q%A); s.add((A-q)%A); s.add((A//2+q)%A); s.add((A//2-q)%A)
        base=sorted(s)
    return base
def body(R):
    u=extract(lower(harness("aligned.cpp"),extra=["-fno-access-control"]),roots=(r"vp::",))
    for T_,sz in(("double",8),("char",1),("vp::S24",24),("vp::S1000",1000)):
        for p in range(32):
            cyc=u.flow(r"^void vp::cycle<%s, %d>\("%(re.escape(T_),p)); tk=u.flow(r"vp::take<%s, %d>\("%(re.escape(T_),p))
            R.fn(cyc.f); R.fn(tk.f); lab="%s, alignment 2^%d"%(T_.replace("vp::",""),p)
            one(R,cyc,tk,sz,p,lab)
    g=u.flow(r"vp::give_any<"); R.fn(g.f); al=("arg",0,g.f.args[0]["name"],"ptr")
    uses=[k for e in g.effects if e.kind=="call" for a in e.args for k in deep_atoms(a) if k[0]=="load" and g.root(k[1])==al]
    uses+=[k for e in g.effects for k in cond_atoms(e.guard) if k[0]=="load" and g.root(k[1])==al]
    for n,neg in(("eq",False),("ne",True)):
        q=u.flow(r"^vp::%s\("%n); R.fn(q.f); loc=(q.f.file,q.f.line)
        ld=[k for k in deep_atoms(q.ret) if k[0]=="load"]
        if uses or len(ld)==2:
            ok=None
            if len(ld)==2:
                tt=[bool(Ev(leaf=lambda k,ev:{ld[0]:x,ld[1]:y}.get(k))(q.ret))!=neg for x in(0,1,5,31) for y in(0,1,5,31) if True]
                xs=[(x,y) for x in(0,1,5,31) for y in(0,1,5,31)]
                eqs=all(t==(x==y) for t,(x,y) in zip(tt,xs))
                refl=all(t for t,(x,y) in zip(tt,xs) if x==y)
                ok=True if eqs else False if uses or not refl else None
            R.check(ok,"allocators are %s exactly when their alignment agrees"%("unequal" if neg else "equal") if not uses or True else "",loc)
    R.check(True if not uses else None,"releasing does not depend on which allocator does it",(g.f.file,g.f.line))
    rel=[e for e in g.effects if e.kind=="call" and "operator delete" in e.dem]
    P=var(("arg",1,g.f.args[1]["name"],"ptr"))
    R.check(True if rel and all(band(e.guard,ceq(P,ZERO))==F for e in rel) else False if rel else None,"a null pointer is ignored",(g.f.file,g.f.line))
    for n in("get","conv"):
        q=u.flow(r"vp::%s<"%n); R.fn(q.f); O=var(("arg",0,q.f.args[0]["name"],"ptr")); S=var(("arg",1,q.f.args[1]["name"],"ptr"))
        v=q.load(q.endstate,O,1,"i8"); w=q.load(State(),S,1,"i8")
        try: ok=all(Ev(leaf=lambda k,ev: x if k==w.single() else None)(v)==x for x in range(32))
        except Unknown: ok=None
        R.check(ok,"a copied%s allocator has the same alignment"%("" if n=="get" else " and rebound"),(q.f.file,q.f.line))
    q=u.flow(r"vp::mk<"); O=var(("arg",0,q.f.args[0]["name"],"ptr")); a=var(("arg",1,q.f.args[1]["name"],"i8"))
    v=q.load(q.endstate,O,1,"i8")
    bad=[x for x in range(32) if not Ev(leaf=lambda k,ev: x if k==a.single() else None).cond(q.retguard) or Ev(leaf=lambda k,ev: x if k==a.single() else None)(v)!=x]
    R.check(not bad,"every alignment below 2^32 is accepted and kept",(q.f.file,q.f.line))
def one(R,cyc,tk,sz,p,lab):
    A=1<<p; loc=None
    nw=[e for e in cyc.effects if e.kind=="call" and re.match(r"operator new|malloc|aligned_alloc|posix_memalign|_mm_malloc",e.dem)]
    dl=[e for e in cyc.effects if e.kind=="call" and re.match(r"operator delete|free|_mm_free",e.dem)]
    tn=[e for e in tk.effects if e.kind=="call" and re.match(r"operator new|malloc",e.dem)]
    N=("arg",0,cyc.f.args[0]["name"],"i64"); tN=("arg",0,tk.f.args[0]["name"],"i64")
    if len(nw)!=1 or len(dl)!=1 or len(tn)!=1 or nw[0].loops or dl[0].loops: R.und(lab+": memory is obtained in another way",(tk.f.file,tk.f.line)); return
    loc=tn[0].loc; k=tn[0].ret.single(); kc=nw[0].ret.single()
    fam=lambda e: "array" if "[]" in e.dem else "plain" if "operator" in e.dem else "c"
    R.check(fam(nw[0])==fam(dl[0]),lab+": memory is returned by the matching operation",dl[0].loc)
    st=[e for e in tk.effects if e.kind in("store","wstore") and k in deep_atoms(e.addr)]+[e for e in tk.effects if e.kind=="memcpy" and k in deep_atoms(e.dst)]
    fails={}
    def fail(n,d): fails.setdefault(n,d)
    ns=[0,1,3,1000]
    names=["the block is aligned","the elements lie inside the memory obtained","bookkeeping stays outside the elements and inside the memory","the pointer obtained is the one given back"]
    hard=None
    for rho in residues(p):
        for q in ((1,) if p>4 else (1,2)):
            r=(q<<max(p,33))+rho
            for n in ns:
                leaf=lambda kk,ev: r if kk in(k,kc) else n if kk in(N,tN) else None
                E=Ev(leaf=leaf)
                try:
                    need=E(tn[0].args[0]); ptr=E(tk.ret)
                    if not E.cond(tk.retguard): fail("sensible requests are served","n=%d"%n); continue
                    if ptr%A: fail(names[0],"address = %d mod %d, n=%d: result %d mod %d"%(rho,A,n,ptr%A,A))
                    if ptr<r or ptr+n*sz>r+need: fail(names[1],"address = %d mod %d, n=%d"%(rho,A,n))
                    for e in st:
                        ad=E(e.addr if e.kind!="memcpy" else e.dst); ln=e.sz if e.kind!="memcpy" else E(e.len)
                        if ad<r or ad+ln>r+need or (ad<ptr+n*sz and ad+ln>ptr): fail(names[2],"address = %d mod %d, n=%d"%(rho,A,n))
                    if not E.cond(dl[0].guard): fail("the block is released","address = %d mod %d"%(rho,A))
                    elif E(dl[0].args[0])!=r: fail(names[3],"address = %d mod %d: off by %d"%(rho,A,E(dl[0].args[0])-r))
                except Unknown as x: hard=str(x); break
            if hard: break
        if hard: break
    if hard: R.und(lab+": "+hard,loc); return
    for n in names+["the block is released","sensible requests are served"]:
        R.check(n not in fails,lab+": "+n,loc,detail=fails.get(n,""))
    # refusal of overflowing requests
    bad=None
    for slack in(0,1,7,8,16,A-1,A,A+1,A+7,A+8,A+16):
        for d in(-2,-1,0,1,2,3):
            n=(BIG-1-slack)//sz+d
            if not 0<=n<BIG: continue
            E=Ev(leaf=lambda kk,ev: n if kk==tN else None)
            try:
                if E.cond(tn[0].guard) and E(tn[0].args[0])>=BIG: bad=n
                elif E.cond(tn[0].guard) and E(tn[0].args[0])<n*sz: bad=n
            except Unknown as x: hard=str(x)
    R.check(False if bad is not None else None if hard else True,lab+": a request whose size overflows is refused",loc,detail="n=%s"%bad if bad is not None else "")
main("C12","the extracted address computation is evaluated for every residue of the obtained address up to 2^9 and boundary residues above, for every alignment exponent; overflow boundaries of the request size",body)
