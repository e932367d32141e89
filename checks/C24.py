from common import *
from cex import find
def vload(fl,e,addr,off,ty="ptr"): return fl.at_call(e,addr+const(off),8,ty)
def streamcond(k):
    """('fail'|'good', call) for the state conditions of a stream"""
    if k[0]!="bool": return None
    c=k[1].single()
    if not c or c[0]!="call": return None
    n=c[1]
    if re.search(r"basic_ios.*EntEv$|basic_ios.*4failEv$|basic_ios.*3badEv$",n): return "fail",c
    if re.search(r"basic_ios.*cv.*Ev$|basic_ios.*4goodEv$|basic_[io]*fstream.*7is_openE",n): return "good",c
    return None
def open_check(R,fl,kind,ctor,what,loc):
    root=fl.root(ctor.args[0]); found=None
    for v in bvars(fl.retguard):
        sc=streamcond(ckey(v))
        if sc and fl.root(sc[1][2][0])==root:
            if band(fl.retguard,cvar(ckey(v)) if sc[0]=="fail" else bnot(cvar(ckey(v))))==F: found=True
            elif found is None: found=None
    if found: R.ok(what,loc); return
    any_=[v for v in bvars(fl.retguard) if streamcond(ckey(v))]
    exc=[e for e in fl.effects if e.kind=="call" and re.search(r"basic_ios<.*>::exceptions\(",e.dem)]
    R.check(None if any_ or exc else False,what,loc)
def trip(fl,L): return fl.loopinfo.get(L,{}).get("trip")
def writer(R,u):
    fl=u.flow(r"nusquids::quickwrite\("); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    A=fl.f.args; path=var(("arg",0,A[0]["name"],"ptr")); tbl=var(("arg",1,A[1]["name"],"ptr"))
    ld=lambda off,ty: fl.load(State(),tbl+off,8,ty)
    e0,e1,data=ld(0,"i64"),ld(8,"i64"),ld(24,"ptr")
    calls=[e for e in fl.effects if e.kind=="call"]
    ctor=[e for e in calls if re.search(r"basic_ofstream.*::(basic_ofstream|open)\(",e.dem) and len(e.args)>1]
    if not ctor: R.und("writer: no output file stream found",loc); return
    open_check(R,fl,"out",ctor[0],"writer: a file that cannot be created is reported by an exception",loc)
    root=fl.root(ctor[0].args[0])
    ins=[e for e in calls if re.search(r"::_M_insert<double>|operator<<\(double\)",e.dem)]
    if len(ins)!=1 or len(ins[0].loops)!=2: R.und("writer: elements are not written by one statement in a double loop",loc); return
    w=ins[0]; Lo,Li=w.loops; i,j=var(("lv",Lo)),var(("lv",Li))
    t0,t1=trip(fl,Lo),trip(fl,Li)
    for t,e,nm in((t0,e0,"rows"),(t1,e1,"columns")):
        R.check(None if t is None else True if t==e else False if (t-e).isconst() or t in(e0,e1) else None,"writer: all %s are visited"%nm,w.loc)
    want=fl.load(State(),data+(i*e1+j).scale(8),8,"double")
    k=w.args[1].single()
    def recog(k):
        if not k or k[0]!="load": return False
        d=k[1]-data
        return fl.root(k[1])==fl.root(data) and {a[0] for a in deep_atoms(d)}<= {"lv","load","arg"}
    R.check(True if w.args[1]==want else False if recog(k) or w.args[1].isconst() else None,"writer: element [i][j] is written at row i, column j",w.loc)
    R.check(True if bimp(fl.retguard,w.guard) else None,"writer: every element is written on every successful path",w.loc)
    def text(e):
        """what a stream insertion writes, or None"""
        if re.search(r"std::endl<",e.dem): return "\n"
        for a in e.args:
            k=a.single()
            if k and k[0]=="g":
                s=u.G.get(k[1],{}).get("str")
                if s is not None: return s
        if re.search(r"operator<<.*, char\)",e.dem) and e.args[-1].isconst(): return chr(int(e.args[-1].cval()))
        if re.search(r"basic_ostream<.*>::put\(|::write\(",e.dem) and len(e.args)>1 and e.args[1].isconst(): return chr(int(e.args[1].cval()))
        return None
    outs=[(e,text(e)) for e in calls if re.search(r"operator<<|endl|ostream<.*>::put\(|_M_insert",e.dem) and e is not w]
    k0=fl.effects.index(w)
    inner=[(e,t) for e,t in outs if Li in e.loops]; row=[(e,t) for e,t in outs if e.loops==(Lo,)]; other=[(e,t) for e,t in outs if (e,t) not in inner and (e,t) not in row]
    sep=[t for e,t in inner if bimp(w.guard,e.guard)]
    R.check(True if any(t and t.strip(" \t,")=="" and t.strip(",") for t in sep) else None if inner and (None in [t for _,t in inner] or not sep) else False,"writer: columns are separated by white space",w.loc)
    R.check(None if None in [t for _,t in inner] else not any("\n" in t for _,t in inner),"writer: a row is not broken within its columns",w.loc)
    nl=[t for e,t in row if bimp(w.guard,e.guard)]
    R.check(True if any(t and "\n" in t for t in nl) else None if row else False,"writer: each row ends its line",w.loc)
    if any(t is None or t.strip() for _,t in other+inner+row): R.und("writer: something else is written too",loc)
    pr=[e for e in calls if re.search(r"ios_base::precision\(long\)",e.dem)]+[e for e in calls if "_Setprecision" in e.dem]
    pr=[e for e in pr if fl.effects.index(e)<k0 and bimp(w.guard,e.guard)]
    v=pr[-1].args[-1] if pr else None
    if v is not None: R.check(v.cval()>=15 if v.isconst() else None,"writer: at least fifteen significant digits are written",pr[-1].loc)
    else: R.check(None if [e for e in calls if re.search("setf|hexfloat|scientific|copyfmt|scientific",e.dem)] else False,"writer: at least fifteen significant digits are written",loc)
    for e in calls:
        if re.search(r"ios_base::(setf|flags)\(|std::(fixed|scientific)\(",e.dem): R.und("writer: number format changed",e.loc)
def reader(R,u):
    fl=u.flow(r"nusquids::quickread\("); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    A=fl.f.args; O=var(("arg",0,A[0]["name"],"ptr")); path=var(("arg",1,A[1]["name"],"ptr"))
    calls=[e for e in fl.effects if e.kind=="call"]
    ctor=[e for e in calls if re.search(r"basic_ifstream.*::(basic_ifstream|open)\(",e.dem) and len(e.args)>1]
    if not ctor: R.und("reader: no input file stream found",loc); return
    open_check(R,fl,"in",ctor[0],"reader: a file that cannot be opened is reported by an exception",loc)
    push=[e for e in calls if re.search(r"^(void )?std::vector<std::vector<double.*>::(push_back|emplace_back)",e.dem)]
    pd=[e for e in calls if re.search(r"^(void )?std::vector<double, std::allocator<double>>::(push_back|emplace_back)",e.dem)]
    if len(push)!=1 or len(pd)!=1 or len(push[0].loops)<1: R.und("reader: rows are not collected by one statement in the line loop",loc); return
    P,D=push[0],pd[0]; L=P.loops[-1]
    table=P.args[0]; row=P.args[1]; rr=fl.root(row)
    rb,re_=vload(fl,P,row,0),vload(fl,P,row,8); d=re_-rb
    empty=ceq(d,ZERO)
    rsz=[var(("idiv",d,const(8),s)) for s in "su"]+[d.scale(Fraction(1,8))]
    # what the row holds
    R.check(True if fl.root(D.args[0])==rr and L in D.loops and len(D.loops)>len(P.loops) else None,"reader: numbers are appended to the row that is stored",D.loc)
    dr=fl.root(D.args[1])
    ex=[e for e in calls if re.search(r"_M_extract<double>|operator>>\(double&\)",e.dem) and e.loops==D.loops and len(e.args)>1 and fl.root(e.args[1])==dr]
    if len(ex)!=1: R.und("reader: number extraction not recognised",D.loc)
    else:
        g=[v for v in bvars(D.guard) if streamcond(ckey(v)) and any(a==ex[0].ret.single() or a[0]=="call" and a==ex[0].ret.single() for a in deep_atoms(streamcond(ckey(v))[1][2][0]))]
        cond=F
        for v in bvars(D.guard):
            sc=streamcond(ckey(v))
            if sc and (ex[0].ret.single() in deep_atoms(sc[1][2][0]) or fl.root(sc[1][2][0])==fl.root(ex[0].args[0])):
                failv=cvar(ckey(v)) if sc[0]=="fail" else bnot(cvar(ckey(v)))
                if band(D.guard,failv)==F: cond=T
        R.check(True if cond==T else None if [1 for v in bvars(D.guard) if streamcond(ckey(v)) and any(fl.root(x)==fl.root(ex[0].args[0]) for x in streamcond(ckey(v))[1][2])] else False,"reader: a number enters a row only when it was extracted",D.loc)
        ss=fl.root(ex[0].args[0])
        mk=[e for e in calls if re.search(r"basic_i?stringstream.*::basic_i?stringstream\(|::str\(",e.dem) and fl.root(e.args[0])==ss and len(e.args)>1]
        gl=[e for e in calls if "std::getline" in e.dem]
        if len(gl)==1 and len(mk)==1:
            R.check(fl.root(mk[0].args[1])==fl.root(gl[0].args[1]) and fl.root(gl[0].args[0])==fl.root(ctor[0].args[0]) and mk[0].loops==gl[0].loops or None,"reader: the numbers of a row come from one line of the file",mk[0].loc)
        else: R.und("reader: line handling not recognised",loc)
    # fresh row per line
    fresh=[e for e in calls if L in e.loops and re.search(r"std::vector<double, std::allocator<double>>::(vector|clear|swap|operator=)\b",e.dem) and any(fl.root(a)==rr for a in e.args)]
    mv=[e for e in calls if e is P and "&&" in e.dem]
    R.check(True if fresh else None if mv else False,"reader: every line starts with an empty row",P.loc)
    # blank lines
    gb=fl_cond(P.guard,empty)
    R.check(True if gb==F else None if any_line_guard(fl,P.guard) else False,"reader: blank lines do not become rows",P.loc)
    # columns
    st=fl.endstate
    if st is None: R.und("reader: never returns",loc); return
    x0,x1=fl.load(st,O,8,"i64"),fl.load(st,O+8,8,"i64")
    tr=fl.root(table)
    def tabload(p,off):
        k=p.single() if p is not None else None
        return k is not None and k[0]=="load" and k[1]==var(tr)+const(off)
    ok0=None; k0=x0.single()
    if k0 and k0[0]=="idiv" and k0[2]==const(24):
        t=[a for a in k0[1].t.items()]
        lo=[akey(m[0][0]) for m,c in t if len(m)==1 and c==-1]; hi=[akey(m[0][0]) for m,c in t if len(m)==1 and c==1]
        if len(lo)==len(hi)==1==len(t)/2: ok0=bool(tabload(var(lo[0]),0) and tabload(var(hi[0]),8))
    R.check(ok0 if ok0 else None,"reader: one table row per stored line",loc)
    k1=x1.single(); n=None
    if k1 and k1[0]=="mu" and k1[1]==L: n=fl.loopinfo[L].get("next",{}).get(k1[2])
    elif k1 and k1[0]=="mu" and isinstance(k1[2],tuple): n=fl.loopinfo[k1[1]].get("mnext",{}).get(k1[2])
    if n is None:
        front=any(a[0]=="load" and tabload(var(a),0) for a in deep_atoms(x1))
        R.check(None if front else False if x1.isconst() else None,"reader: the number of columns is that of the rows",loc)
    else:
        eqw=lambda p,e_: simp(p,empty,e_)
        nb=eqw(n,True)
        R.check(True if nb==x1 else False if nb in rsz or nb.isconst() or nb==ZERO else None,"reader: blank lines leave the number of columns alone",loc,"reader: blank lines leave the number of columns alone")
        nf=eqw(n,False); cols=[q for q in rsz if q==nf]
        if not cols and nf.single() and nf.single()[0]=="ite": 
            # on the paths that store the row
            k=nf.single()
            for c,a in((k[1],k[2]),(bnot(k[1]),k[3])):
                if bimp(P.guard,c) and a in rsz: cols=[a]
        R.check(True if cols else False if nf==x1 or nf.isconst() else None,"reader: a stored row sets the number of columns",loc)
        # equal columns
        c=F; hit=None
        for v in bvars(P.guard):
            k=ckey(v)
            if k[0]=="eq" and (x1.single() in cond_atoms(cvar(k))):
                hit=cvar(k)
        tb,te=vload(fl,P,table,0),vload(fl,P,table,8)
        if hit is None:
            own=[a for v in bvars(P.guard) for a in cond_atoms(cvar(ckey(v))) if a[0]=="mu" and a[1]==L]
            bad=band(P.guard,band(bnot(ceq(x1,rsz[0])),bnot(ceq(tb,te))))
            x=find(bad,vals=[0,8,16,24,32,1,2,3]) if own and all(a==x1.single() for a in own) else None
            if x is not None: R.check(False,"reader: lines with different numbers of columns are refused",P.loc)
            else: R.check(None if [a for v in bvars(P.guard) for a in cond_atoms(cvar(ckey(v))) if a[0]=="mu" and a[1]==L] else False,"reader: lines with different numbers of columns are refused",P.loc)
        else:
            first=[]
            for v in bvars(P.guard):
                k=ckey(v)
                if k[0]=="eq" and any(a[0]=="load" and fl.root(a[1])==tr for a in cond_atoms(cvar(k))): first.append(cvar(k))
            bad=band(P.guard,bnot(hit))
            ok=bad==F or any(band(bad,bnot(f))==F for f in first)
            eqcol=any(ceq(x1,q)==hit for q in rsz)
            R.check(True if ok and eqcol else None if not eqcol else False if not first or all(bimp(f,bnot(bad)) or band(bad,f)==F for f in first) else None,"reader: lines with different numbers of columns are refused",P.loc)
    # copy into the result
    dp=fl.load(st,O+24,8,"ptr"); k=dp.single()
    while k and k[0]=="ite": dp=k[3] if k[2].isconst() else k[2]; k=dp.single()
    wr=[e for e in fl.effects if e.kind=="store" and fl.root(dp) is not None and e.root==fl.root(dp) and not e.val==ZERO]
    if len(wr)!=1 or len(wr[0].loops)!=2: R.und("reader: result is not filled by one statement in a double loop",loc); return
    w=wr[0]; La,Lb=w.loops; i,j=var(("lv",La)),var(("lv",Lb)); off=w.off.scale(Fraction(1,8))
    ta,tb_=trip(fl,La),trip(fl,Lb)
    R.check(True if ta==x0 and tb_==x1 else None if ta is None or tb_ is None else False if (ta-x0).isconst() and (tb_-x1).isconst() else None,"reader: all entries of the result are filled",w.loc)
    R.check(True if off==i*x1+j else False if off in(j*x0+i,i*x0+j,j*x1+i) else None,"reader: values are stored at their own row and column",w.loc)
    k=w.val.single(); good=None
    if k and k[0]=="load":
        kk=None
        for a in k[1].atoms():
            a=akey(a)
            if a[0]=="load" and a[3]=="ptr": kk=a
        if kk is not None:
            o1=k[1]-var(kk); o2=kk[1]
            base=[akey(a) for a in o2.atoms() if akey(a)[0]=="load"]
            if len(base)==1 and tabload(var(base[0]),0):
                o2=o2-var(base[0]); good=(o1==j.scale(8) and o2==i.scale(24))
    R.check(good,"reader: entry [i][j] is the j-th number of the i-th stored line",w.loc)
def simp(p,c,val):
    """p knowing that condition c is val"""
    (v,l,h)=bnode(c)
    pol=(h==T)
    rw=Rewriter(None,lambda k: (val==pol) if k==ckey(v) else None)
    r=rw.poly(p)
    return r
def fl_cond(g,c):
    (v,l,h)=bnode(c); return brestrict(g,v,h==T)
def any_line_guard(fl,g):
    for v in bvars(g):
        k=ckey(v)
        for a in cond_atoms(cvar(k)):
            if a[0]=="call" and re.search(r"basic_string.*(5emptyE|4sizeE|6lengthE|find)",a[1]): return True
    return False
def body(R):
    u=extract(lower(src("src/tools.cpp")),roots=(r"nusquids::quick(read|write)\(",))
    writer(R,u); reader(R,u)
main("C24","for the writer: which element each insertion emits, loop bounds, separators, precision; for the reader: how row, column count and table evolve over one line (blank, first, later), and which number each entry of the result receives",body)
