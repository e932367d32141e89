from taulib import *
import tautab
def sizes(R,fl,lt,bases,loc):
    """each table is sized to two types by the energies squared, before its storage is used"""
    a0=("arg",0,fl.f.args[0]["name"],"ptr"); first={}
    for n,e in enumerate(fl.effects):
        if e.kind in("store","wstore"):
            for k in deep_atoms(e.addr):
                if k[0]=="load" and k[3]=="ptr":
                    d=k[1]-var(a0)
                    if d.isconst(): first.setdefault(int(d.cval())-lt.d,n)
    for nm,b in bases.items():
        c=[(n,e) for n,e in enumerate(fl.effects) if e.kind=="call" and re.search(RESIZE,e.dem or "") and e.args and e.args[0]==var(a0)+const(b)]
        what="%s: the table is two particle types by energies squared"%nm
        if not c:
            w=[e for e in fl.effects if e.kind in("store","wstore","call") and any((x-var(a0)).isconst() and b<=int((x-var(a0)).cval())<b+lt.d+8 for x in ([e.addr] if e.kind!="call" else [y for y in e.args if isinstance(y,Poly)]))]
            R.check(None if w else False,what,loc,detail="it is never resized"); continue
        n,e=c[-1]
        R.check(first.get(b,10**9)>n and not e.loops,"%s: sized before it is filled"%nm,e.loc)
        ex=None; v=e.args[1] if len(e.args)==2 else None
        if v is not None:
            k=v.single()
            ct=[x for x in fl.effects[:n] if x.kind=="call" and x.args and x.args[0]==v and "vector(" in (x.dem or "")]
            if ct:
                x=ct[-1]
                if "initializer_list" in x.dem and len(x.args)>=3 and x.args[2].isconst() and x.args[2].cval()==3:
                    ex=[fl.at_call(x,x.args[1]+const(8*i),8,"i64") for i in range(3)]
            elif "array<" in (e.dem or ""): ex=[fl.at_call(e,v+const(8*i),8,"i64") for i in range(3)]
        if ex is None: R.und(what,e.loc); continue
        ok=True; det=""
        try:
            for N in(0,1,2,5,1000):
                m=At(fl,Lg[0],[None,Arr("E",(N,))]); got=[m.ev()(x) for x in ex]
                if got!=[2,N,N]: ok=False; det="%s for %d energies"%(got,N); break
        except Unknown as x: ok=None; det=str(x)
        R.check(ok,what,e.loc,detail=det)
Lg=[None]
def body(R):
    u=unit(); lg,lt=layouts(); Lg[0]=lg; bases={n:tautab.base(flow(u,n),lt) for n in NAMES}
    fl=flow(u,"Init"); R.fn(fl.f)
    loc=next((e.loc for e in fl.effects if e.kind=="store" and len(e.loops)>=1),(fl.f.file,fl.f.line))
    if None in bases.values(): R.und("which table is which"); return
    R.check(fl.endstate is not None and fl.retguard==T if not any(e.kind in("throw","abort") for e in fl.effects) else None,"initialising succeeds for every grid",(fl.f.file,fl.f.line))
    sizes(R,fl,lt,bases,loc)
    ex=tautab.Exp(u); fl,tb=tautab.tables(R,u,lg,lt,bases)
    st=stores(fl,lt)
    for n in NAMES:
        for gi,g in enumerate(tautab.GRIDS):
            r,d=tautab.match(tb[gi,bases[n]],n,ex,gi)
            R.check(r,"%s: every entry for both particle types, grid of %d energies from %s GeV"%(n,len(g),float(g[0]/10**9)),st.get(bases[n],loc),detail=d)
    # building from a grid initialises
    c=[f for d,f in u.fns.items() if re.match(re.escape(T_)+r"TauDecaySpectra\(nusquids::marray",d)]
    if c:
        u2=extract(lower(src("src/taudecay.cpp")),roots=(r"nusquids::TauDecaySpectra::",),noinline=(RESIZE,r"TauDecaySpectra::Init\("))
        f=u2.flow(re.escape(T_)+r"TauDecaySpectra\(nusquids::marray"); R.fn(f.f); this=var(("arg",0,f.f.args[0]["name"],"ptr"))
        call=[e for e in f.effects if e.kind=="call" and (e.dem or "").startswith(T_+"Init(")]
        ok=any(bimp(f.retguard,e.guard) and e.args and e.args[0]==this for e in call)
        other=[e for e in f.effects if (e.kind=="call" and any(isinstance(x,Poly) and (x-this).isconst() and not re.search(r"TauDecaySpectra\(bool\)|log2",e.dem or "") for x in e.args)) or (e.kind in("store","wstore") and e.loops)]
        R.check(True if ok else (None if other else False),"constructing from a grid initialises the tables",(f.f.file,f.f.line))
def stores(fl,lt):
    a0=var(("arg",0,fl.f.args[0]["name"],"ptr")); r={}
    for e in fl.effects:
        if e.kind in("store","wstore"):
            for k in deep_atoms(e.addr):
                if k[0]=="load" and k[3]=="ptr":
                    d=k[1]-a0
                    if d.isconst(): r[int(d.cval())-lt.d]=e.loc
    return r
main("C20","the contents of every entry of the four tables after Init, as extracted, against the channel functions as extracted, for grids on both sides of every end point; the sizes each table is given",body)
