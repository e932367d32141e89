from common import *
from fills import *
from fractions import Fraction as Fr
import zlib
SZ=40
def gen(*k): return Fr(zlib.crc32(repr(k).encode())%9973+3,7)
def split_branches(p):
    k=p.single()
    if k and k[0]=="ite": return split_branches(k[2])+split_branches(k[3])
    return [p]
def fields_of(b,x):
    b=expand(b); P=None; fs={}
    for a in b.atoms():
        kk=akey(a)
        if kk==x: continue
        if kk[0]!="load" or kk[3]!="double": return None
        c=kk[1].t.get((),0); p=kk[1]-const(c)
        if P is None: P=p
        if p!=P: return None
        fs[kk]=int(c)
    return (b,P,fs) if fs else None
def body(R):
    bc=lower(src("src/tools.cpp")); u=extract(bc,roots=(r"nusquids::AkimaSpline::(get|initialize)",))
    ur=extract(bc,roots=(r"nusquids::AkimaSpline::get",),noinline=(r"nusquids::marray<.*>::resize\(",))
    uh=extract(lower(harness("akima.cpp"),extra=["-I"+REPO+"/src"]),roots=(r"^vp::akima_eval",))
    fl=uh.flow(r"vp::akima_eval\("); R.fn(fl.f)
    s_=var(("arg",0,fl.f.args[0]["name"],"ptr")); x=("arg",1,fl.f.args[1]["name"],"double"); loc=(fl.f.file,fl.f.line)
    br=[fields_of(b,x) for b in split_branches(fl.ret)]
    if None in br: R.und("evaluation is not a polynomial in the fields of one piece per case",loc); return
    # offsets relative to the piece: the branch reading at non negative offsets is a piece at its own address; others are shifted by whole pieces
    lo=[min(f.values()) for _,_,f in br]; shifts=[(l//SZ)*SZ for l in lo]
    E=None
    t=var(("t",))
    for (b,P,fs),sh in zip(br,shifts):
        if len({(o-sh)//SZ for o in fs.values()})!=1: R.und("fields of two pieces are combined",loc); return
        m={kk:var(("F",o-sh)) for kk,o in fs.items()}; m[x]=var(("x",)); e=xsubst(b,m)
        if E is None: E=e
        else: R.check(e==E,"every case of the evaluation applies the same formula to its piece",loc)
    # abscissa field: the one whose translation together with the query leaves the value alone
    ab=[o for o in sorted({akey(a)[1] for a in E.atoms() if akey(a)[0]=="F"})
        if xsubst(E,{("F",o):var(("F",o))+t,("x",):var(("x",))+t})==E]
    if len(ab)!=1: R.und("abscissa field of a piece not identified",loc); return
    ab=ab[0]
    xa=atom(("x",))
    def ddx(p):
        out=ZERO
        for m,c in p.t.items():
            e=dict(m).get(xa,0)
            if e: out=out+Poly({tuple((v,y-(1 if v==xa else 0)) for v,y in m if not(v==xa and y==1)):c*e})
        return out
    D=ddx(E)
    def evp(p,vals,xv):
        r=Fr(0)
        for m,c in p.t.items():
            q=Fr(c)
            for a,e in m:
                k=akey(a); q*=(xv if k[0]=="x" else vals[k[1]])**e
            r+=q
        return r
    VEC=("pieces",)
    def mem(n,this):
        nodes=[Fr(3*i+1) for i in range(n)]
        def f(i): return {o:(nodes[i] if o==ab else gen("f",i,o)) for o in range(0,SZ,8)}
        tab=[f(i) for i in range(n)]
        last=Fr(3*n+2); ylast=gen("yl")
        return nodes,tab,last,ylast
    def loader(n,this,tab,last,ylast,bad,base=0,rolelast=None):
        def loadf(b,off,k,ev):
            if b==this:
                if off==0: return V(0,{VEC:1})
                if off==8: return V(SZ*n,{VEC:1})
                if off==24: return last
                if off==32: return ylast
                raise Unknown("spline field %s"%off)
            if b==VEC:
                i,o=divmod(int(off),SZ)
                if not 0<=i<n: bad.append(i); return Fr(0)
                return tab[i][o]
            return None
        return loadf
    # --- choice of piece over all order types of the query
    maxn=5 if TIER=="quick" else 9
    sk=s_.single()
    fails={}
    for n in range(1,maxn+1):
        nodes,tab,last,yl=mem(n,sk)
        qs=[nodes[0]-1]
        for i in range(n): qs+=[nodes[i],nodes[i]+1]
        qs+=[last,last+5]
        for q in qs:
            bad=[]
            def call(k,ev):
                if k[1] in("std::upper_bound","std::lower_bound"):
                    a,b=ev.ptr(k[2][0]),ev.ptr(k[2][1]); v=ev(k[2][2])
                    if a[0]!=VEC or b[0]!=VEC: raise Unknown("search range")
                    i=a[1]//SZ; e=b[1]//SZ
                    if a[1]%SZ or b[1]%SZ: raise Unknown("search alignment")
                    while i<e and (nodes[int(i)]<=v if "upper" in k[1] else nodes[int(i)]<v): i+=1
                    return V(i*SZ,{VEC:1})
                return None
            ev=Ev(loadf=loader(n,sk,tab,last,yl,bad),leaf=lambda k,e: q if k==x else None,call=call)
            try: got=ev(fl.ret)
            except Unknown as ex: R.und("evaluation over %d pieces: %s"%(n,ex),loc); return
            i=max([j for j in range(n) if nodes[j]<=q]+[0])
            okv={evp(E,tab[i],q)}
            if i>0 and q==nodes[i]: okv.add(evp(E,tab[i-1],q))
            kind="below the first node" if q<nodes[0] else "beyond the last node" if q>=last else "at a node" if q in nodes else "between nodes"
            if bad: fails[(kind,"reads outside the pieces")]=n
            elif got not in okv: fails[(kind,"a piece that does not hold the query is used")]=n
            else: fails.setdefault((kind,None),n)
    for (kind,w),n in sorted(fails.items(),key=repr):
        if w: R.bad("query %s: %s (%d pieces)"%(kind,w,n),loc,"query %s: %s"%(kind,w))
        elif not any(k==kind and w2 for k,w2 in fails): R.ok("query %s is answered from the enclosing or nearest piece, up to %d pieces"%(kind,maxn),loc)
    # --- end point stored by the initialiser
    gi=u.flow(r"AkimaSpline::initialize\("); R.fn(gi.f); li=(gi.f.file,gi.f.line)
    A=[var(("arg",k,gi.f.args[k]["name"],gi.f.args[k]["ty"])) for k in range(4)]
    n_=A[3]
    ends={}
    for off in(24,32):
        v=gi.load(gi.endstate,A[0]+const(off),8,"double") if gi.endstate else None
        k=v.single() if v is not None else None
        ends[off]=None
        if k and k[0]=="load":
            for nm,b in(("x",A[1]),("y",A[2])):
                d=k[1]-b
                if gi.root(k[1])==b.single() and last_index(d): ends[off]=nm
                elif gi.root(k[1])==b.single(): ends[off]="other"
    if None in ends.values(): R.und("end point kept by the spline not recognised",li)
    else: R.check(set(ends.values())=={"x","y"},"the coordinates of the last data point are kept as the end of the spline",li)
    xl=[o for o,v in ends.items() if v=="x"]; yl_=[o for o,v in ends.items() if v=="y"]
    if len(xl)!=1 or len(yl_)!=1: return
    xl,yl_=xl[0],yl_[0]
    # --- accessors
    k_=var(("k",))
    def piece_value(g,th,v,i):
        """value as polynomial in the fields of piece i (F), the end point (XL,YL); None when something else is read"""
        vec=g.load(State(),th,8,"ptr"); end=g.load(State(),th+8,8,"ptr")
        m={}
        for a in expand(v).atoms():
            kk=akey(a)
            if kk[0]!="load" or kk[3]!="double": return None
            b=kk[1]
            if kk[1]==th+const(xl): m[kk]=var(("XL",)); continue
            if kk[1]==th+const(yl_): m[kk]=var(("YL",)); continue
            for base,tag in((vec+i.scale(SZ),"F"),(end-SZ,"L"),(vec,"A"),(end,"Z")):
                d=b-base
                if d.isconst():
                    o=int(d.cval())
                    if 0<=o<SZ: m[kk]=var((tag,o)); break
            else:
                d=b-vec
                if g.root(b)==g.root(vec): m[kk]=var(("wrong",kk))
                else: return None
        return xsubst(v,m)
    rel=lambda p: xsubst(p,{("x",):var(("F",ab))})
    lastp=lambda p: xsubst(xsubst(p,{("F",o):var(("L",o)) for o in range(0,SZ,8)}),{("x",):var(("XL",))})
    for rx,what,ref,refl in((r"getAbscissas\(\) const",  "abscissas", var(("F",ab)), var(("XL",))),
                       (r"getOrdinates\(\) const",  "ordinates", rel(E), var(("YL",))),
                       (r"getAbscissaDerivatives\(\) const","slopes", rel(D), lastp(D)),
                       (r"getAbscissaDerivatives\(nusquids::marray","slopes (into an array)", rel(D), lastp(D))):
        into="into" in what
        g=(ur if into else u).flow(r"AkimaSpline::"+rx); R.fn(g.f); lg=(g.f.file,g.f.line)
        th=[a for a in g.f.args if a["name"]=="this"]; out=[a for a in g.f.args if a["name"]!="this"]
        if len(th)!=1 or len(out)!=1 or g.endstate is None: R.und("%s: shape not recognised"%what,lg); continue
        th=var(("arg",th[0]["id"],"this","ptr")); Ov=var(("arg",out[0]["id"],out[0]["name"],"ptr"))
        np_=(g.load(State(),th+8,8,"ptr")-g.load(State(),th,8,"ptr"))
        npieces=[p for p in (var(("idiv",np_,const(SZ),"s")),var(("idiv",np_,const(SZ),"u")),np_.scale(Fraction(1,SZ)))]
        eff=g.effects
        if into:
            rs=[e for e in eff if e.kind=="call" and re.search(r"marray<.*>::resize\(",e.dem) and e.args[0]==Ov and not e.loops and e.guard==T]
            if not rs: R.und("%s: the array is not brought to size by resize"%what,lg); continue
            n=[p for p in npieces if rs[-1].args[-1]==p+1]
            if not n: R.check(False if any((rs[-1].args[-1]-p).isconst() for p in npieces) else None,"%s: the array has one entry per data point"%what,lg); continue
            n=n[0]; eff=eff[eff.index(rs[-1])+1:]
        else:
            tot=g.load(g.endstate,Ov+8,8,"i64"); ext=g.load(g.endstate,Ov,8,"i64")
            n=[p for p in npieces if tot==p+1 and ext==p+1]
            if not n: R.check(False if any((tot-p).isconst() for p in npieces) else None,"%s: the array has one entry per data point"%what,lg); continue
            n=n[0]
        R.ok("%s: the array has one entry per data point"%what,lg)
        dp=g.load(g.endstate,Ov+16,8,"ptr"); kk=dp.single()
        if kk and kk[0]=="ite": dp=kk[3] if kk[2].isconst() else kk[2]
        rt=g.root(dp)
        fs=fills(g,rt,8,eff) if rt is not None and dp==var(rt) else None
        if fs is None: R.und("%s: writes to the result not recognised"%what,lg); continue
        body_=[f for f in fs if f.n is not None and not(f.v==ZERO)]; single=[f for f in fs if f.n is None]
        if len(body_)!=1 or body_[0].step!=1 or len(single)!=1 or fs.index(body_[0])>fs.index(single[0]): R.und("%s: entries are not filled by one pass and one final entry"%what,lg); continue
        b,l=body_[0],single[0]
        q=np_.scale(Fraction(1,SZ)); ex=lambda p: subst(p,{n.single():q}) if n.single() else p
        dn=ex(b.n)-q
        R.check(True if b.lo==ZERO and dn==ZERO else False if b.lo.isconst() and dn.isconst() else None,"%s: entries of all pieces are filled from the first"%what,lg)
        dl=l.lo-n
        R.check(True if dl==ZERO else False if dl.isconst() else None,"%s: the entry after the last piece is the one of the end point"%what,lg)
        v=piece_value(g,th,b.val(k_),k_); w=piece_value(g,th,l.v,k_)
        R.check(None if v is None else v==ref,"%s: entry k is the one of data point k"%what,lg)
        R.check(None if w is None else w==refl,"%s: the last entry is the one of the last data point"%what,lg)
def last_index(d):
    """byte offset 8*(n-1), possibly with a 32-bit zero extension of n-1"""
    v=[k for k in deep_atoms(d) if k[0]=="arg"]
    if len(v)!=1: return False
    for n in(3,4,7):
        ev=Ev(leaf=lambda k,e: n if k==v[0] else None)
        try:
            if ev(d)!=8*(n-1): return False
        except Unknown: return False
    return True
main("C06","the value graph of the evaluation, over every order type of the query against the pieces, uses the enclosing (or nearest edge) piece; the accessors' result arrays, read back entry by entry, are the data abscissas, values and slopes in order with the end point last",body)
