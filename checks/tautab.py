from taulib import *
def base(fl,lt):
    """offset of the table an accessor reads from, by the storage pointer its answer is loaded through"""
    a0=var(("arg",0,fl.f.args[0]["name"],"ptr")); r=set()
    for k in deep_atoms(fl.ret):
        if k[0]=="load" and k[3]=="ptr":
            d=k[1]-a0
            if d.isconst(): r.add(int(d.cval())-lt.d)
    return r.pop() if len(r)==1 else None
GRIDS=[[Fraction(10)**9*x for x in g] for g in([1,2],[1,2,Fraction(11,5)],[Fraction(1,2),Fraction(3,5),Fraction(4,5),1],[100,10**6],[1,Fraction(100,70),Fraction(7,3),Fraction(10,3)*2],[3])]
def params(u):
    pr=Params(u); P=dict(P=Fraction(-1),r={}); fls={c:flow(u,"TauDecayTo"+c) for c in CH+("All",)}
    return pr,fls
def chan(fls,pr,c,et,en): return Fraction(evaluate(fls[c],pr.v,[et,en]))
def weight(u,pr,name):
    fl=harn().flow(r"^(double )?vp::br_%s\("%name); return evaluate(fl,pr.v,[])
class Exp:
    """expected entries, from the channel functions as the code has them (their formulae are C19's subject)"""
    def __init__(s,u):
        s.pr,s.fls=params(u); z=[Fraction(1),Fraction(9999,10000)]
        # the leptonic branching ratio: as handed out, or as in the total where no other channel is open
        s.bls=[Fraction(weight(u,s.pr,"lepton")),chan(s.fls,s.pr,"All",*z)/chan(s.fls,s.pr,"Lepton",*z)/2]; s.bl=s.bls[0]
    def __call__(s,name,E,i,j):
        et,en=E[i]/10**9,E[j]/10**9
        x=chan(s.fls,s.pr,"All",et,en) if name.endswith("All") else s.bl*chan(s.fls,s.pr,"Lepton",et,en)
        return x/et if "Enu" in name else x*en/et**2
def tables(R,u,lg,lt,bases):
    """{(grid index, base): {entry index: number | Unknown}}"""
    fl=flow(u,"Init"); pr=Params(u); out={}
    for gi,g in enumerate(GRIDS):
        m=Tables(fl,lg,lt,sorted(set(bases.values())),g,pr); m.initialised=None
        N=len(g)
        for b in set(bases.values()):
            d={}
            for k in range(2*N*N):
                try: d[k]=m.read(("D",b),8*k,None,8)
                except Unknown as x: d[k]=x
            out[gi,b]=d
    return fl,out
def match(tab,name,ex,gi):
    for b in ex.bls:
        ex.bl=b; r=match1(tab,name,ex,gi)
        if r[0] is not False: return r
    return r
def match1(tab,name,ex,gi):
    """does a table hold the quantity: True, False (with an example), or None"""
    g=GRIDS[gi]; N=len(g); und=None
    for n in(0,1):
        for i in range(N):
            for j in range(N):
                v=tab[(n*N+i)*N+j]
                if isinstance(v,Unknown):
                    if str(v)=="read of unset storage": return False,"type %d, energies %d and %d are not filled"%(n,i,j)
                    und=str(v); continue
                if isinstance(v,Poly):
                    if not v.isconst(): und="not a number"; continue
                    v=v.cval()
                w=ex(name,g,i,j); v=Fraction(v)
                if abs(v-w)>Fraction(1,10**9)*abs(w)+Fraction(1,10**30): return False,"type %d, from %s GeV to %s GeV: %s instead of %s"%(n,float(g[i]/10**9),float(g[j]/10**9),float(v),float(w))
    return (None,und) if und else (True,"")
def own(R,u,lg,lt,bases):
    if None in bases.values(): return
    R.check(len(set(bases.values()))==4,"the four accessors read four tables",(src("src/taudecay.cpp"),1))
    try:
        ex=Exp(u); fl,tb=tables(R,u,lg,lt,bases)
        for n in NAMES:
            f=u.find(T_+n+r"\(")[0]; loc=(f["file"],f["line"]) if "file" in f else (src("src/taudecay.cpp"),1)
            other=None
            if match(tb[4,bases[n]],n,ex,4)[0] is False:
                other=next((o for o in NAMES if o!=n and match(tb[4,bases[n]],o,ex,4)[0] is True),None)
            R.check(other is None,"%s: reads its own table"%n,loc,detail="reads what belongs to %s"%other)
    except Unknown as x: R.und("which table is which: %s"%x)
