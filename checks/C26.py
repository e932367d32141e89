from common import *
from fills import *
GSLHDR=((r"^gsl_matrix_complex_(get|set|const_ptr|ptr|memcpy|free)$","*"),(r"^gsl_blas_zgemm$","*"))
INV={"N":"N","T":"T","C":"C","J":"J"}
def app(op,w):
    """op applied to a word of (matrix, op) letters"""
    comp={("N","N"):"N",("N","T"):"T",("N","C"):"C",("N","J"):"J",
          ("T","N"):"T",("T","T"):"N",("T","C"):"J",("T","J"):"C",
          ("C","N"):"C",("C","C"):"N",("C","T"):"J",("C","J"):"T",
          ("J","N"):"J",("J","J"):"N",("J","T"):"C",("J","C"):"T"}
    l=[(m,comp[(op,o)]) for m,o in w]
    return tuple(reversed(l)) if op in("T","C") else tuple(l)
def word(w): return " ".join(m+{"N":"","T":"^T","C":"^dagger","J":"*"}[o] for m,o in w) if w is not None else "?"
TR={111:"N",112:"T",113:"C"}
def cplx(p0,p1):
    """complex constant passed as two doubles"""
    if p0.isconst() and p1.isconst(): return complex(p0.cval(),p1.cval())
    a,b=p0.single(),p1.single()
    if a and b and a[0]=="ext" and b[0]=="ext" and a[1]==b[1]:
        k=a[1].single() if isinstance(a[1],Poly) else a[1]
        if k and k[0]=="call" and k[1]=="gsl_complex_rect" and all(x.isconst() for x in k[2]): return complex(k[2][0].cval(),k[2][1].cval())
    return None
def basis(R,u,nm,want):
    fl=u.flow(r"nusquids::%s\("%nm,const_callees=GSLHDR); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    U=("arg",0,fl.f.args[0]["name"],"ptr"); M=("arg",1,fl.f.args[1]["name"],"ptr")
    val={U:(("U","N"),),M:(("M","N"),)}; live={}; unknown=None
    for e in fl.effects:
        if e.kind in("load","ret"): continue
        if e.kind!="call":
            if e.kind=="store" and e.root and e.root[0]=="alloca": continue
            if e.kind in("throw","abort"): R.und(nm+": failure path",e.loc); return
            unknown=e; break
        A=e.args; r=[fl.root(a) for a in A]
        if e.guard!=T and e.guard!=fl.retguard or e.loops: unknown=e; break
        n=e.dem
        if n=="gsl_matrix_complex_alloc" or n=="gsl_matrix_complex_calloc":
            k=fl.root(e.ret); live[k]=e; val[k]=None
            sz=[fl.load(State(),var(U)+o,8,"i64") for o in(0,8)]
            m32=lambda p: var(("and",const(4294967295),p))
            R.check(True if all(a in (sz[0],sz[1],m32(sz[0]),m32(sz[1])) or a.single() and a.single()[0]=="load" and fl.root(a.single()[1]) in(U,M) for a in A) else None,nm+": scratch matrices have the size of the rotation",e.loc)
        elif n=="gsl_matrix_complex_memcpy":
            if r[0] not in val or r[1] not in val: unknown=e; break
            val[r[0]]=val[r[1]]
        elif n=="gsl_blas_zgemm":
            # ta tb alpha.re alpha.im A B beta.re beta.im C
            if len(A)!=9 or not A[0].isconst() or not A[1].isconst(): unknown=e; break
            al,be=cplx(A[2],A[3]),cplx(A[6],A[7]); a,b,c=r[4],r[5],r[8]
            if al is None or be is None or any(x not in val for x in(a,b,c)) or int(A[0].cval()) not in TR or int(A[1].cval()) not in TR: unknown=e; break
            if c in(a,b): R.bad(nm+": a product is written over one of its own factors",e.loc); return
            R.check(al==1 and be==0,nm+": products are taken with unit weight into cleared storage",e.loc)
            if not(al==1 and be==0): return
            x,y=val[a],val[b]
            val[c]=app(TR[int(A[0].cval())],x)+app(TR[int(A[1].cval())],y) if x is not None and y is not None else None
            if val[c] is None: R.bad(nm+": a product uses storage that was never filled",e.loc); return
            if len(val[c])>12: unknown=e; break
        elif n=="gsl_matrix_complex_free":
            if r[0] in(U,M): R.bad(nm+": a caller's matrix is released",e.loc); return
            if r[0] in live: del live[r[0]]; val.pop(r[0],None)
            elif r[0] is not None and r[0][0]=="call": R.bad(nm+": scratch storage is released twice",e.loc); return
            else: unknown=e; break
        elif n=="gsl_complex_rect": continue
        else: unknown=e; break
    if unknown is not None: R.und("%s: step not understood (%s)"%(nm,getattr(unknown,"dem",unknown.kind)[:60]),unknown.loc); return
    R.check(val[M]==want,"%s: the matrix becomes %s"%(nm,word(want)),loc,detail="it becomes "+word(val[M]) if val[M]!=want else "")
    R.check(val[U]==(("U","N"),),nm+": the rotation is not modified",loc)
    R.check(not live,nm+": all scratch matrices are released once",loc,detail="%d are not"%len(live) if live else "")
def conj(R,u):
    fl=u.flow(r"nusquids::gsl_matrix_complex_conjugate\(",const_callees=GSLHDR); R.fn(fl.f); loc=(fl.f.file,fl.f.line); nm="conjugate"
    m=var(("arg",0,fl.f.args[0]["name"],"ptr"))
    st=[e for e in fl.effects if e.kind=="call" and e.dem=="gsl_matrix_complex_set"]
    if len(st)!=1 or len(st[0].loops)!=2 or st[0].args[0]!=m: R.und(nm+": not one element assignment in a double loop",loc); return
    e=st[0]; i,j=e.args[1],e.args[2]; L=e.loops
    try:
        ok=True
        for n1 in range(1,4):
            for n2 in range(1,4):
                def loadf(b,off,k,ev):
                    if b==m.single() and off in(0,8): return n1 if off==0 else n2
                got=visits(fl,e,[i,j],loadf=loadf)
                if sorted(got)!=[(p,q) for p in range(n1) for q in range(n2)]: ok=False
        R.check(ok,nm+": every element is visited exactly once (matrices up to 3x3, bounds linear in the sizes)",e.loc)
    except Unknown as x: R.und(nm+": every element is visited exactly once: %s"%x,e.loc)
    # value: conj of the same element
    v=[e.args[3],e.args[4]]
    def ext(p,k):
        q=p.single()
        return q[1].single() if q and q[0]=="ext" and isinstance(q[1],Poly) and q[2:3] and (q[2]==k or q[2]==(k,) ) else None
    q=[p.single() for p in v]
    def inner(p):
        k=p.single(); 
        return (k[1].single() if isinstance(k[1],Poly) else k[1]) if k and k[0]=="ext" else None
    c=[inner(p) for p in v]
    def iselem(k): return k and k[0]=="call" and k[1]=="gsl_matrix_complex_get" and tuple(k[2])==(m,i,j)
    ok=None
    if c[0] and c[0]==c[1] and c[0][0]=="call" and c[0][1]=="gsl_complex_conjugate":
        g=[inner(p) for p in c[0][2]]
        ok=True if iselem(g[0]) and iselem(g[1]) and q[0][2]!=q[1][2] else (False if g[0] and g[0][0]=="call" and g[0][1]=="gsl_matrix_complex_get" else None)
    elif c[0] and iselem(c[0]) :
        # set from parts of the element itself
        neg=inner(-v[1]); ok=True if neg and iselem(neg) else False if c[1] and iselem(c[1]) else None
    R.check(ok,nm+": an element is replaced by its own complex conjugate",e.loc)
def life(R,u):
    for f,what in(("ws_life","a workspace"),("ws_copy","a copied workspace"),("ws_assign","an assigned workspace"),("ws_move","a moved workspace"),("ws_massign","a move-assigned workspace"),("int_own","the workspace of an integration")):
        fl=u.flow(r"^vp::%s\("%f,exc=True); R.fn(fl.f)
        al=[e for e in fl.effects if e.kind=="call" and e.dem=="gsl_integration_workspace_alloc"]
        fr=[e for e in fl.effects if e.kind=="call" and e.dem=="gsl_integration_workspace_free"]
        ends=[("on return",fl.retguard)]+[("when an exception passes",e.guard) for e in fl.effects if e.kind=="resume"]
        for a in al:
            for nm,g in ends:
                if g==F: continue
                # an exception before or by this allocation owns nothing
                hits=[e for e in fr if band(e.guard,g)!=F and e.args[0]==a.ret]
                always=[e for e in hits if bimp(g,e.guard)]
                maybe=[e for e in fr if band(e.guard,g)!=F and e.args[0]!=a.ret and a.ret.single() in deep_atoms(e.args[0])]
                if nm!="on return" and band(g,cvar(("throws",a.i["id"])))==g: continue
                if maybe: R.und("%s is released %s: depends on a condition"%(what,nm),a.loc); continue
                if len(always)==1 and len(hits)==1: R.ok("%s is released exactly once %s"%(what,nm),a.loc)
                elif len(hits)==0: R.bad("%s is released exactly once %s: it is never released"%(what,nm),a.loc)
                elif any(band(x.guard,y.guard,g)!=F for x in hits for y in hits if x is not y): R.bad("%s is released exactly once %s: it can be released more than once"%(what,nm),a.loc)
                elif bimp(g,bor(*[e.guard for e in hits])): R.ok("%s is released exactly once %s"%(what,nm),a.loc)
                else: R.bad("%s is released exactly once %s: a path does not release it"%(what,nm),a.loc)
        if not al: R.und("%s: nothing is allocated"%what,(fl.f.file,fl.f.line))
def body(R):
    u=extract(lower(src("src/tools.cpp")),roots=(r"nusquids::gsl_matrix",))
    d=("U","N"); h=("U","C"); M=("M","N")
    basis(R,u,"gsl_matrix_complex_change_basis_UMUC",(d,M,h)); basis(R,u,"gsl_matrix_complex_change_basis_UCMU",(h,M,d))
    conj(R,u)
    life(R,extract(lower(harness("integ.cpp")),roots=(r"^vp::(int_own|ws)",)))
main("C26","the sequence of matrix library calls, interpreted over products of the two inputs, leaves U M U^dagger (or its inverse) and the rotation intact; scratch matrices and workspaces have one release per allocation on every path, including copies of the owner",body)
