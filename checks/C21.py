#!/usr/bin/env python3
"""C21: HDF5 objects are closed exactly once on every way out of the helpers and their callers."""
from h5lib import *
RULE=("every identifier returned by a library call that opens or creates an object is, when the call succeeded, either handed at once to an owning handle with the matching closing "
      "function or passed to the matching closing function exactly once before every way out (return, thrown exception, exception passing through); owning handles close what they own once "
      "on every way out, after the last use, transfer ownership when moved, and cannot be copied.")
HELP=(r"^void nusquids::marray<.*>::resize",)
def lifecycle(R,u,name,file=False):
    fl=u.flow(r"^vp::%s\("%name,exc=True,keep_abort=True); R.fn(fl.f)
    what="%s, %s"%("H5File" if file else "H5Handle",WORDS[name.split("_")[1]])
    A=[var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)]
    owned=[(a,None) for a in A] if file else list(zip(A[::2],A[1::2]))
    calls=[e for e in fl.effects if e.kind=="call"]
    order={id(e):n for n,e in enumerate(fl.effects)}
    quietsite={e.inst for e in calls if e.name is None or e.name in CLOSE}
    rw=signs(A,quietsite); g=rw.cond
    use=[e for e in calls if e.name=="vp_use"]
    cl=[e for e in calls if e.name in CLOSE or e.name is None]
    if any(e.loops for e in cl): R.und(what+": closes in a loop",cl[0].loc); return
    L=(fl.f.file,fl.f.line)
    ex=[("return",g(fl.retguard))]+[("an exception",g(e.guard)) for e in fl.effects if e.kind=="resume"]
    for n,(x,d) in enumerate(owned):
        nm=what+(", the %s object"%("moved","other")[n] if len(owned)>1 else "")
        mine=[]
        for e in cl:
            k=same(e.args[0],x)
            if k is None: R.und(nm+": which object is closed cannot be told",e.loc); return
            k=band(g(e.guard),g(k))
            if k!=F: mine.append((e,k))
        for e,c in mine:
            if d is None: R.check(True if e.name=="H5Fclose" else False if e.name else None,nm+" is closed as a file",e.loc); continue
            k=same(e.fp,d) if e.name is None else F
            R.check(None if k is None else bimp(c,g(k)),nm+" is closed by the function given",e.loc)
        pos=bnot(cvar(("neg",x.single())))
        tw=next(((a,b) for i,a in enumerate(mine) for b in mine[i+1:] if band(a[1],b[1])!=F),None)
        R.check(tw is None,nm+" is closed at most once",tw[1][0].loc if tw else L)
        inv=next((e for e,c in mine if not bimp(c,pos)),None)
        R.check(inv is None,nm+" is only closed if it is valid",inv.loc if inv else L)
        done=bor(F,*[c for e,c in mine])
        # objects that were never constructed because an earlier constructor threw are not owned
        for w,c in ex:
            # an owning handle's constructor throws for an invalid identifier: then the others may not have been constructed
            if not file: c=band(c,*[bnot(cvar(("neg",y.single()))) for y,_ in owned])
            bad=band(c,pos,bnot(done))!=F
            R.check(not bad,nm+" is closed on %s"%w,L)
    for e in use:
        x,d=owned[0]
        k=same(e.args[0],x)
        if k is None or not bimp(g(e.guard),g(k)): R.check(None if k is None else False,what+": the identifier handed out is the one owned",e.loc); continue
        R.ok(what+": the identifier handed out is the one owned",e.loc)
        early=next((c for c in cl if order[id(c)]<order[id(e)] and band(g(c.guard),g(e.guard),g(same(c.args[0],x) or F))!=F),None)
        R.check(early is None,what+": the object stays open while it is used",early.loc if early else e.loc)
def signs(A,quietsite):
    """conditions on the identifiers become "this identifier is negative"; closing calls do not throw"""
    own={a.single() for a in A}
    def cmap(k):
        if k[0]=="throws": return F if k[1] in quietsite else None
        if k[0] not in("spos","eq"): return None
        ats=set()
        for x in k[1:]:
            if isinstance(x,Poly): ats|={akey(a) for a in x.atoms()}
        sel=next((a for a in ats if a[0]=="ite"),None)
        def put(kk,v):
            r=Rewriter(lambda q: v if q==kk else None); return mkcond(tuple(r.poly(x) if isinstance(x,Poly) else x for x in k))
        if sel is not None: return bite(rw.cond(sel[1]),rw.cond(put(sel,sel[2])),rw.cond(put(sel,sel[3])))
        if len(ats)==1 and ats<=own:
            a=ats.pop(); N={put(a,const(v)) for v in(-1,-7,-(1<<40))}; P={put(a,const(v)) for v in(0,1,5<<56)}
            if len(N)==1 and len(P)==1 and N|P<={T,F}: return bite(cvar(("neg",a)),N.pop(),P.pop())
        return None
    rw=Rewriter(cmap=cmap); return rw
def same(p,x):
    if p==x: return T
    k=p.single()
    if k and k[0]=="ite":
        a,b=same(k[2],x),same(k[3],x)
        return None if a is None or b is None else bite(k[1],a,b)
    if p.isconst() or k and k[0]=="arg": return F
    return None
WORDS={"scope":"constructed and destroyed","get":"read through get()","nodesc":"constructed without a description","move":"move constructed","assign":"move assigned to an older object","assign2":"move assigned to a newer object","temp":"assigned from a temporary","self":"assigned to itself","reset":"assigned from an empty handle","empty":"empty","copies":"copied"}
def empty(R,u,name):
    fl=u.flow(r"^vp::%s\("%name,exc=True,keep_abort=True); R.fn(fl.f)
    c=next((e for e in fl.effects if e.kind=="call" and (e.name is None or e.name in CLOSE) and e.guard!=F),None)
    R.check(c is None,"H5Handle, empty: nothing is closed",c.loc if c else (fl.f.file,fl.f.line))
def body(R):
    u=extract(lower(harness("h5.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^(bool )?vp::\w+\(",),noinline=HELP)
    names=sorted(re.match(r"(?:bool )?vp::(\w+)\(",d).group(1) for d in u.fns if re.match(r"(bool )?vp::\w+\(",d))
    if not any(n.startswith("h_") for n in names): raise AnalysisError("anchor H5Handle: its entry points do not compile")
    for n in names:
        if n=="h_empty": empty(R,u,n)
        elif n.endswith("copies"):
            fl=u.flow(r"vp::%s\("%n); R.fn(fl.f)
            R.check(True if fl.ret==ZERO else False if fl.ret is not None and fl.ret.isconst() else None,"%s objects cannot be copied"%{"h":"H5Handle","f":"H5File"}[n[0]],(fl.f.file,fl.f.line))
        elif n[:2] in("h_","f_"): lifecycle(R,u,n,n[0]=="f")
    cnt=0
    for d,f in u.fns.items():
        m=re.match(r"vp::(w|r|wa|ra)_(\w+)\(",d)
        if m:
            fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f)
            cnt+=ownership(R,fl,{"w":"writeArrayH5","r":"readArrayH5","wa":"addH5Attribute","ra":"readH5Attribute"}[m.group(1)]+" (%s)"%m.group(2))
    u=extract(lower(src("src/tools.cpp"),defs=["-DNDEBUG"]),roots=(r"(.* )?nusquids::(add|read)H5Attribute<std::.*string",r"(.* )?nusquids::h5\w+\("))
    for d,f in u.fns.items():
        fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f)
        cnt+=ownership(R,fl,re.sub(r"<.*","<std::string>",d.replace("void nusquids::","")) if "<" in d else d.split("(")[0])
    R.scope("%d identifiers opened by the array and attribute helpers were followed with every condition on library results resolved"%cnt)
    R.scope("no value that fills the HDF5 error stack is looked at; a failing closing call is taken as closing")
    if cnt==0: raise AnalysisError("anchor: no helper opens anything")
    for f in("src/tools.cpp","src/body.cpp","src/xsections.cpp","src/nuSQuIDS.cpp","@atm.cpp","@h5.cpp"):
        try: u=extract(lower(harness(f[1:]) if f[0]=="@" else src(f),extra=["-I"+VERIF+"/stub"],defs=["-DNDEBUG"],tolerant=f[0]=="@"),roots=(r".*nusquids::",),noinline=(r".*nusquids::",))
        except ToolError as e:
            R.und("%s is not analysed: it does not compile against the declared interface of SQuIDS"%f); continue
        u.byname={x["name"]:x for x in u.fns.values()}; u.calm={}
        n=0
        for d,fn in u.fns.items():
            k=typestate(R,u,fn,cut(d))
            if k: R.analysed.append({"function":d[:160],"file":fn.get("file"),"line":fn.get("line")})
            n+=k
        R.scope("%s: %d identifiers opened, followed through the control flow graph of their function"%(f,n))
def cut(d):
    d=re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>","string",d)
    d=d.replace("(anonymous namespace)::","")
    return d.split("(")[0] if "{lambda" not in d else d[:80]
if __name__=="__main__": main("C21",RULE,body)
