"""Shared analysis of the two- and three-dimensional grid interpolators (C01-C04)."""
from nsq import *
from flow import *
from ev import *

def m_getderiv(fl,i,args,g,st,e):
    """summary: fills its marray argument with the spline's slopes, keeps its buffer (C06)"""
    if len(args)!=2: return "generic"
    k=0 if i.get("sret") else 1
    if i.get("sret"): return "generic"
    p=fl.load(st,args[1]+16,8,"ptr")
    e.buf=p; r=fl.root(p)
    e.spline=fl.root(args[0]); e.splinever=st.get(e.spline).ver if e.spline else None
    while r is not None and r[0]=="ite":
        p=(r[3] if r[2].isconst() else r[2]); r=fl.root(p)
    if r is not None: fl.clobber(st,r,("c",i["id"]))
    return None
def m_init(fl,i,args,g,st,e):
    if len(args)!=4: return "generic"
    r=fl.root(args[0])
    if r is not None: fl.clobber(st,r,("c",i["id"]))
    e.x,e.y,e.n=args[1:4]
    return None
MODELS=((r"AkimaSpline::getAbscissaDerivatives\(",m_getderiv),(r"AkimaSpline::initialize\(",m_init))
NOIN=(r"AkimaSpline::(initialize|getAbscissaDerivatives)\(",)

class Grid: pass
def nonnull(fl,p):
    r=fl.root(p)
    while r is not None and r[0]=="ite" and (r[2].isconst() or r[3].isconst()):
        p=p-var(r)+(r[3] if r[2].isconst() else r[2]); r=fl.root(p)
    return p

def load_grid(name,dim):
    bc=lower(src("src/tools.cpp"))
    G=Grid(); G.name=name; G.dim=dim
    u=extract(bc,roots=(r"^nusquids::%s::%s\(nusquids::marray<double, %du"%(name,name,dim),r"^nusquids::%s::operator\(\)\(double"%name),noinline=NOIN)
    G.ctor=u.flow(r"::%s\("%name,models=MODELS)
    G.op=u.flow(r"operator\(\)\(")
    fl=G.ctor
    A=[var(("arg",k,a["name"] or "a%d"%k,a["ty"])) for k,a in enumerate(fl.f.args)]
    G.this=A[0]; G.args=A[1:]
    # layout of marray: found through the moves in the constructor: data pointer of each argument
    es=fl.endstate
    o=es.get(("arg",0)+(A[0].single()[2:]))
    o=es.objs[A[0].single()]
    G.fields={}      # offset in *this -> meaning
    G.buf={}         # root of buffer -> offset
    ptrs={}
    for off,(sz,v) in o.cells.items():
        nv=nonnull(fl,v)
        r=fl.root(nv)
        if sz==8 and r is not None: ptrs[off]=nv
    G.ptrs=ptrs
    G.data_off=None; G.coord_off={}; G.tables=[]
    for off,v in ptrs.items():
        k=v.single()
        if k is None: continue
        if k[0]=="load" and k[-1]=="ptr":
            r,o2=fl.split(k[1])
            if r is not None and r[0]=="arg" and r[1]>=1:
                if r[1]==1: G.data_off=off; G.data=v
                else: G.coord_off[r[1]-2]=(off,v)
        elif k[0]=="call" and k[1] in("_Znwm","_Znam"): G.tables.append((off,v))
    if G.data_off is None or len(G.coord_off)!=dim: raise AnalysisError("cannot recognise where %s keeps its data and coordinates"%name)
    # extents: first `dim` words of an marray object; the argument objects hold them
    ext=lambda k,d: fl.load(State(),G.args[k]+8*d,8,"i64")
    G.ext=[ext(0,d) for d in range(dim)]
    G.cext=[ext(1+a,0) for a in range(dim)]
    # axis a (0=x) runs along the last-a'th dimension
    G.axdim=[dim-1-a for a in range(dim)]
    return G

def implied(fl,guard):
    """equalities that hold whenever guard does, as a normaliser"""
    sub={}
    for v in bvars(guard):
        k=ckey(v)
        if k[0]=="eq" and bimp(guard,cvar(k)):
            p=k[1]
            for m,c in p.t.items():
                if len(m)==1 and m[0][1]==1 and abs(c)==1 and akey(m[0][0])[0]=="load":
                    a=akey(m[0][0]); rest=(p-Poly({m:c})).scale(-Fraction(1)/c)
                    if a in deep_atoms(rest) or a in sub: continue
                    sub[a]=rest; break
    rw=Rewriter(lambda k: sub.get(k))
    def norm(p):
        for _ in range(3): p=rw.poly(p)
        return p
    return norm

def derive_tables(G,R=None):
    """role of every table: set of axes it is differentiated along; reports into R"""
    fl=G.ctor; dim=G.dim
    strides=[ONE]*dim
    for d in range(dim-2,-1,-1): strides[d]=strides[d+1]*G.ext[d+1]
    rg=fl.retguard
    norm=implied(fl,rg)
    # prefer the data array's own extents
    nrm=lambda p: norm(p)
    next_=[nrm(e) for e in G.ext]; nstr=[nrm(s) for s in strides]
    broot={}
    for off,v in G.tables: broot[fl.root(v)]=off
    role={fl.root(G.data):frozenset()}; roles={}
    for off,v in G.tables: roles[off]=None
    writes={}
    for e in fl.effects:
        if e.kind=="store" and e.root in broot: writes.setdefault(e.root,[]).append(e)
        if e.kind in("memcpy","memset"):
            r=fl.root(nonnull(fl,e.dst))
            if r in broot: writes.setdefault(r,[]).append(e)
    def decode(P):
        """P = sum stride_d*idx_d over distinct loop counters -> {dim: loop} or None"""
        P=nrm(P); out={}
        for d in range(dim):
            pass
        rest=P
        for L in {k[1] for k in deep_atoms(P) if k[0]=="lv"}:
            a=atom(("lv",L)); c=ZERO
            for m,cf in P.t.items():
                e=dict(m).get(a,0)
                if e==1: c=c+Poly({tuple(x for x in m if x[0]!=a):cf})
                elif e: return None
            ds=[d for d in range(dim) if nstr[d]==c]
            if len(ds)!=1: return None
            if ds[0] in out: return None
            out[ds[0]]=L; rest=rest-c*var(("lv",L))
        return out,rest
    def rep(c,what,loc,key=None):
        if R is not None: R.check(c,"%s: %s"%(G.name,what),loc,key)
    done={}
    order=[e for e in fl.effects if e.kind in("store","memcpy","memset") and (e.root if e.kind=="store" else fl.root(nonnull(fl,e.dst))) in broot]
    for e in order:
        r=e.root if e.kind=="store" else fl.root(nonnull(fl,e.dst))
        off=broot[r]; nm="derivative table at offset %d"%off
        if len(writes[r])>1:
            # initialisation before the real fill is allowed when values are constants
            if e.kind=="memset" or (e.kind=="store" and e.val.isconst()): continue
        if e.kind!="store": rep(None,nm+" is written by a block copy",e.loc); continue
        dec=decode(e.off.scale(Fraction(1,8)))
        if dec is None: rep(None,nm+": entry address is not of the form base+sum(stride*counter)",e.loc); continue
        idx,rest=dec
        if rest.t: rep(False,nm+" is filled at a constant displacement from the entry of its grid line",e.loc); continue
        # coverage
        miss=[d for d in range(dim) if d not in idx]
        ok=not miss
        for d,L in idx.items():
            t=fl.loopinfo[L]["trip"]
            if t is None: ok=None if ok else ok; continue
            if nrm(t)!=next_[d]: ok=False
        if ok is True and not bimp(rg,e.guard): ok=False if not any(k[0] in("lv",) for k in cond_atoms(e.guard)) else None
        rep(ok,nm+" is filled for every index of every dimension",e.loc)
        # value: slope written by a derivative call of this very iteration
        v=nonnull_val(fl,e.val); k=v.single()
        if k is None or k[0]!="load": rep(None,nm+": stored value is not an element of a slope line",e.loc); continue
        c=fl.calls.get(k[2][1]) if isinstance(k[2],tuple) and k[2] and k[2][0]=="c" else None
        srcr,so=fl.split(nonnull(fl,k[1]))
        if c is None or not hasattr(c,"buf"):
            stale=isinstance(k[2],tuple) or k[2]==0 or k[2]=="undef"
            inside=any(x in e.loops for x in [])
            # no slope call on that buffer shares the surrounding loops: the entries are left over from another sweep
            calls=[x for x in fl.effects if x.kind=="call" and hasattr(x,"buf") and fl.root(nonnull(fl,x.buf))==srcr]
            here=[x for x in calls if set(e.loops[:-1])<=set(x.loops)]
            rep(False if c is None and calls and not here else None,nm+" takes its entries from the line differentiated for it",e.loc,"%s: a derivative table takes its entries from a line differentiated for another one"%G.name); continue
        jidx=so.scale(Fraction(1,8))
        jl=jidx.single()
        if jl is None or jl[0]!="lv": rep(None,nm+": line index is not a plain counter",e.loc); continue
        # spline the slopes come from
        sv=c.splinever
        ic=fl.calls.get(sv[1]) if isinstance(sv,tuple) and sv and sv[0]=="c" else None
        if ic is None or not hasattr(ic,"x"): rep(None,nm+": the spline differentiated is not initialised in a recognised way",c.loc); continue
        if not set(ic.loops)>=set(L for d,L in idx.items() if L!=jl[1]): rep(False,nm+" uses a spline that is initialised once for several grid lines",c.loc); continue
        ax=None
        xp=fl.root(nonnull(fl,ic.x)); 
        for a,(o2,vv) in G.coord_off.items():
            if nonnull(fl,ic.x)==vv: ax=a
        if ax is None: rep(None,nm+": abscissas are not one of the coordinate arrays",ic.loc); continue
        n=nrm(ic.n)
        axd=[d for d,L in idx.items() if L==jl[1]]
        rep(axd==[G.axdim[ax]],nm+": the line runs along the axis of the coordinates it is differentiated against",e.loc)
        rep(n==next_[G.axdim[ax]],nm+": the whole line is given to the spline",ic.loc)
        # data given to the spline
        yv=nonnull_val(fl,fl.at_call(ic,nonnull(fl,ic.y)+var(jl).scale(8),8,"double"))
        direct=False
        yk=yv.single()
        if yk is None or yk[0]!="load": rep(None,nm+": line data not resolved",ic.loc); continue
        sr,soff=fl.split(nonnull(fl,yk[1]))
        if sr not in role and sr not in broot:
            rep(None,nm+": line data does not come from the table or a derivative table",ic.loc); continue
        # versions: a derivative table must be complete when it is read
        base=role.get(sr)
        if sr in broot and base is None:
            if any(w.loops for w in writes.get(sr,[]) if order.index(w)<order.index(e)) : rep(None,nm+": role of the source table unknown",ic.loc)
            else: rep(False,nm+" is differentiated from a table before that is filled",ic.loc)
            continue
        if sr in broot and set(done[sr].loops)&set(e.loops): rep(None,nm+": source table is filled in the same loop",ic.loc); continue
        rep(nrm(soff)==nrm(e.off),nm+": each entry comes from the grid line passing through it",e.loc)
        if nrm(soff)!=nrm(e.off): continue
        if ax in base: rep(False,nm+" is differentiated twice along the same axis",ic.loc); continue
        role[r]=base|{ax}; roles[off]=role[r]; done[r]=e
    G.roles=roles
    return roles
def nonnull_val(fl,v):
    k=v.single()
    if k and k[0]=="ite": 
        # value read through a possibly-null pointer
        return v
    return v

# ------------------------------------------------------------ evaluation of the cell polynomial
def cell_analysis(G,R=None):
    """Hermite identities at the corners; returns {subset of axes: table offset} used"""
    fl=G.op; dim=G.dim
    this=var(("arg",0)+tuple([fl.f.args[0]["name"] or "a0",fl.f.args[0]["ty"]]))
    q=[var(("arg",1+a,fl.f.args[1+a]["name"] or "a%d"%(1+a),fl.f.args[1+a]["ty"])) for a in range(dim)]
    loc=(fl.f.file,fl.f.line,fl.f.dem)
    def rep(c,what,key=None): 
        if R is not None: R.check(c,"%s::operator(): %s"%(G.name,what),loc,key)
    bufp=lambda off: fl.load(State(),this+off,8,"ptr")
    X=[bufp(G.coord_off[a][0]) for a in range(dim)]
    tabs={fl.root(bufp(G.data_off)):"data"}
    for off,v in G.tables: tabs[fl.root(bufp(off))]=off
    # the non-empty result
    res=fl.ret
    k=res.single()
    if k and k[0]=="ite":
        for s_ in (k[2],k[3]):
            if not s_.isconst(): res=s_
    # node coordinates used
    xi=[None]*dim
    atoms_=deep_atoms(res)
    # only loads that take part in the value, not those in indices/conditions
    val=value_atoms(res)
    xl=[dict() for _ in range(dim)]; tl=[]
    for a in val:
        if a[0]!="load": continue
        r,off=fl.split(a[1])
        if r is None: rep(None,"a table or node is read through an unrecognised address"); return None
        for ax in range(dim):
            if r==fl.root(X[ax]): xl[ax][a]=off
        if r in tabs: tl.append((a,tabs[r],off))
    H={}; sub={}; T=[var(("T",a)) for a in range(dim)]
    lowidx=[]
    for ax in range(dim):
        offs=list(set(xl[ax].values()))
        if len(offs)!=2: 
            rep(None if len(offs)==0 else None,"axis %d does not use exactly two nodes"%ax); return None
        d=offs[1]-offs[0]
        if not d.isconst(): rep(None,"nodes used on axis %d are not adjacent in a recognisable way"%ax); return None
        if abs(d.cval())!=8: rep(False,"the two nodes used on axis %d are not neighbours"%ax); return None
        lo=offs[0] if d.cval()==8 else offs[1]; hi=lo+8
        lowidx.append(lo.scale(Fraction(1,8)))
        x0=var(("X0",ax)); h=var(("H",ax))
        for a,o in xl[ax].items(): sub[a]=x0 if o==lo else x0+h
        sub[q[ax].single()]=x0+T[ax]*h
    G.lowidx=lowidx
    # the stride of each axis in table addresses
    ext=[fl.load(State(),this+(G.data_off-16-8*(dim-2)-8+8*d if False else 0)+8*d,8,"i64") for d in range(dim)]
    base=(G.data_off)
    # extents live at the start of the data array object: locate from the constructor
    dobj=None
    o=G.ctor.endstate.objs[G.this.single()]
    for off,(sz,v) in o.cells.items():
        if sz==8 and retype(v,'i64')==G.ext[0]: dobj=off if dobj is None or abs(off-G.data_off)<abs(dobj-G.data_off) else dobj
    G.dobj=dobj
    if dobj is None: rep(None,"extents of the table not located"); return None
    ext=[fl.load(State(),this+(dobj+8*d),8,"i64") for d in range(dim)]
    st=[ONE]*dim
    for d in range(dim-2,-1,-1): st[d]=st[d+1]*ext[d+1]
    axst=[st[G.axdim[a]] for a in range(dim)]
    org=ZERO
    for a in range(dim): org=org+lowidx[a]*axst[a]
    # all derivative tables share the data's shape (checked by C14/C04 through the constructor)
    extsub={}
    for off,v in G.tables:
        pass
    tabext=table_extent_loads(G,fl,this,ext)
    nrm=Rewriter(lambda k: tabext.get(k)).poly
    corner={}
    import itertools
    for a,tab,off in tl:
        d=nrm(off).scale(Fraction(1,8))-nrm(org)
        c=None
        for bits in itertools.product((0,1),repeat=dim):
            if d==sum((nrm(axst[i]) for i in range(dim) if bits[i]),ZERO): c=bits
        if c is None:
            rep(False if is_cell_shift(d,axst,nrm) else None,"a table is read at an entry that is not a corner of the cell"); 
            return None
        corner[a]=(tab,c)
    for a,(tab,c) in corner.items(): sub[a]=var(("D",tab,c))
    p=xsubst(res,sub)
    odd=[akey(a)[0] for a in p.atoms() if akey(a)[0] not in("T","H","D","X0","inv")]
    if odd: rep(None,"the result is not a rational function of nodes and table entries alone (%s)"%odd[0]); return None
    use={}; bad=False
    subsets=[frozenset(s) for r in range(dim+1) for s in itertools.combinations(range(dim),r)]
    def diff(p,v):
        a=atom(v); out=ZERO
        for m,c in p.t.items():
            e=dict(m).get(a,0)
            if e: out=out+Poly({tuple((x,y-(1 if x==a else 0)) for x,y in m if not(x==a and y==1)):c*e})
        return out
    try:
        for S in subsets:
            dp=p
            for ax in sorted(S): dp=diff(dp,("T",ax))
            got=set()
            for bits in itertools.product((0,1),repeat=dim):
                val=xsubst(dp,{("T",ax):const(bits[ax]) for ax in range(dim)})
                hs=ONE
                for ax in S: hs=hs*var(("H",ax))
                nmS="value" if not S else "d/d"+"d".join("xyz"[i] for i in sorted(S))
                at="corner %s"%(bits,)
                hit=None
                for tab in ["data"]+[o for o,_ in G.tables]:
                    if eqrat(val,var(("D",tab,bits))*hs): hit=tab; break
                if hit is None:
                    rep(False,"%s at %s is the stored one rescaled by the cell dimensions"%(nmS,at)); bad=True
                else: got.add(hit); rep(True,"%s at %s is the stored one rescaled by the cell dimensions"%(nmS,at))
            if len(got)==1: use[S]=got.pop()
            elif len(got)>1: rep(False,"%s comes from one table at all corners"%nmS); bad=True
        if use.get(frozenset())not in(None,"data"): rep(False,"corner values come from the data table")
        # degree: cubic in every direction
        for ax in range(dim):
            a=atom(("T",ax)); mx=max([dict(m).get(a,0) for m in p.t]+[0])
            rep(mx<=3,"degree in direction %d is at most three"%ax)
    except RecursionError: rep(None,"polynomial too large"); return None
    if len(set(use.values()))!=len(use): rep(False,"different derivatives come from different tables")
    G.use=use
    return use
def is_cell_shift(d,axst,nrm):
    """difference is an integer combination of axis strides (so provably not a corner)"""
    r=d
    for s in sorted([nrm(x) for x in axst],key=lambda p:-max([sum(e for _,e in m) for m in p.t]+[0])):
        (m0,c0),=s.t.items() if len(s.t)==1 else ((None,None),)
        if m0 is None: return False
        cf=r.t.get(m0,0)
        if Fraction(cf)/c0 not in range(-4,5): return False
        r=r-s.scale(Fraction(cf)/c0)
    return not r.t
def value_atoms(p):
    """atoms that enter the value arithmetically (through products, quotients, sums)"""
    out=set(); seen=set()
    def w(x):
        if x in seen: return
        seen.add(x)
        for a in x.atoms():
            k=akey(a)
            if k[0] in("inv",): w(k[1])
            elif k[0]=="fmul": w(k[1]); w(k[2])
            elif k[0]=="ite": w(k[2]); w(k[3])
            else: out.add(k)
    w(p); return out
def table_extent_loads(G,fl,this,ext):
    """extents of the derivative tables equal the data's (from the constructor's end state)"""
    out={}
    o=G.ctor.endstate.objs[G.this.single()]
    for off,(sz,v) in o.cells.items():
        for d in range(G.dim):
            if sz==8 and retype(v,'i64')==G.ext[d]:
                k=fl.load(State(),this+off,8,"i64").single()
                if k is not None and k!=ext[d].single():
                    out[k]=ext[d]
    # coordinate lengths equal extents by the constructor's checks
    norm=implied(G.ctor,G.ctor.retguard)
    return out

# ------------------------------------------------------------ choice of the cell (C03)
def shape_checks(G,R):
    fl=G.ctor; g=F
    for e in fl.effects:
        if e.kind=="throw": g=bor(g,e.guard)
    loc=(fl.f.file,fl.f.line,fl.f.dem)
    for a in range(G.dim):
        d=G.axdim[a]
        m=bnot(ceq(G.cext[a],G.ext[d]))
        what="%s: a number of %s-coordinates different from the grid size is rejected with an exception"%(G.name,"xyz"[a])
        if bimp(m,g): R.ok(what,loc); continue
        # only undecided when something opaque takes part in the checks
        R.check(None if opaque(fl,g) else False,what,loc)
def opaque(fl,g):
    for v in bvars(g):
        k=ckey(v)
        if k[0]=="bool": return True
        if any(x[0]=="call" and x[1] not in("_Znwm","_Znam") for x in cond_atoms(v_as_bdd(v))): return True
    return False
def v_as_bdd(v): return cvar(ckey(v))

def cell_choice(G,R,quick=True):
    fl=G.op; dim=G.dim
    loc=(fl.f.file,fl.f.line,fl.f.dem)
    if not hasattr(G,"lowidx"): R.und("%s::operator(): index of the lower node not recognised"%G.name,loc); return
    thisk=("arg",0)+tuple([fl.f.args[0]["name"] or "a0",fl.f.args[0]["ty"]])
    qk=[("arg",1+a,fl.f.args[1+a]["name"] or "a%d"%(1+a),fl.f.args[1+a]["ty"]) for a in range(dim)]
    cells=G.ctor.endstate.objs[G.this.single()].cells
    extk={}
    for d in range(dim): extk[G.ext[d].single()]=("n",G.axdim.index(d))
    for a in range(dim): extk[G.cext[a].single()]=("n",a)
    def nodes(a,n): return [10+m*(m+1)//2+a for m in range(n)]
    class OOB(Exception): pass
    def run(ax,ns,qs):
        def ctor_leaf(k,ev):
            if k[0]=="load":
                kk=k[:3]+("i64",)
                if kk in extk: return ns[extk[kk][1]]
                # total size words of the argument arrays
                pv=ev.poly(k[1]).ptr()
                if pv and pv[0][0]=="arg":
                    i=pv[0][1]
                    if k[3]=="ptr": return V(0,{("X",i-2):1}) if i>=2 else V(0,{("D",):1})
                    if i>=2: return ns[i-2]
                    t=1
                    for x in ns: t*=x
                    return t
            if k[0]=="call" and k[1] in("_Znwm","_Znam"): return V(0,{("D",k[3]):1})
            return None
        cev=Ev(leaf=ctor_leaf)
        def loadf(base,off,k,ev):
            if base==thisk:
                c=cells.get(off)
                if c is None: return None
                return cev.poly(c[1])
            if base[0]=="X":
                a=base[1]; N=nodes(a,ns[a])
                if off%8 or not 0<=off//8<len(N): raise OOB("node %s of axis %s with %d nodes"%(off/8,"xyz"[a],len(N)))
                return N[off//8]
            return None
        def call(k,ev):
            if k[1] in("std::upper_bound","std::lower_bound"):
                b,lo=ev.ptr(k[2][0]); b2,hi=ev.ptr(k[2][1]); v=ev(k[2][2])
                if b!=b2 or b[0]!="X": raise Unknown("range")
                N=nodes(b[1],ns[b[1]])
                if not 0<=lo<=hi<=8*len(N): raise OOB("search range")
                i=lo//8
                while i<hi//8 and (N[i]<=v if k[1].endswith("upper_bound") else N[i]<v): i+=1
                return V(8*i,{b:1})
        def leaf(k,ev):
            if k in qk: return qs[qk.index(k)]
        ev=Ev(loadf=loadf,leaf=leaf,call=call)
        return ev(G.lowidx[ax])
    cnt=0; und=None
    for ax in range(dim):
        bad=None
        for n in (range(2,6) if quick else range(2,9)):
            N=nodes(ax,n)
            reps=[N[0]-3]+[x for m in range(n) for x in ([N[m]]+([Fraction(N[m]+N[m+1],2)] if m+1<n else []))]+[N[-1]+3]
            for other in (2,7):
                ns=[other]*dim; ns[ax]=n
                for oq in (0,500):
                    for q in reps:
                        qs=[oq]*dim; qs[ax]=q
                        k=sum(1 for x in N if x<=q)
                        want={min(max(k-1,0),n-2)}
                        if q in N: want.add(min(max(k-2,0),n-2))
                        cnt+=1
                        try: got=run(ax,ns,qs)
                        except OOB as x: bad="%d nodes, query at %s: reads %s"%(n,pos(N,q),x); break
                        except Unknown as x: und=str(x); break
                        if got not in want: bad="%d nodes, query %s: picks the cell starting at node %s instead of %s"%(n,pos(N,q),got,max(want)); break
                    if bad or und: break
                if bad or und: break
            if bad or und: break
        what="%s::operator(): the cell used on the %s axis encloses the query, and is the nearest edge cell outside the grid"%(G.name,"xyz"[ax])
        if und: R.und(what+" ("+und+")",loc)
        else: R.check(bad is None,what,loc,detail=bad or "")
    R.notes.append("%d order types evaluated"%cnt)
def pos(N,q):
    k=sum(1 for x in N if x<=q)
    if q in N: return "on node %d"%(k-1)
    return "below the first node" if k==0 else "above the last node" if k==len(N) else "between nodes %d and %d"%(k-1,k)
