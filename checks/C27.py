from common import *
QUAD=r"^gsl_integration_(qags|qag|qng|qagp|cquad|qagi\w*)$"
def one(R,u,rx,args,own,dflt):
    fl=u.flow(r"^vp::%s\("%rx,exc=True); R.fn(fl.f); lab=rx
    q=[e for e in fl.effects if e.kind=="call" and re.match(QUAD,e.dem)]
    if len(q)!=1: R.und("%s: integrator call not found or not unique"%lab,(fl.f.file,fl.f.line)); return
    e=q[0]; A={a["name"]:var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)}
    if e.dem!="gsl_integration_qags": R.und("%s: a different integrator is used"%lab,e.loc); return
    R.check(True if bimp(fl.retguard,e.guard) and e.guard!=F else False,"%s: the integrator is called on every path"%lab,e.loc)
    F_,a,b,ea,er,lim,ws,res,err=e.args
    def same(v,w): return True if v==w else (False if v.isconst() or v.single() in {x.single() for x in A.values()} or set(v.atoms())&{atom(w.single())} else None)
    R.check(same(a,A["a"]),"%s: lower limit"%lab,e.loc); R.check(same(b,A["b"]),"%s: upper limit"%lab,e.loc)
    acc=A.get("acc")
    if acc is not None:
        R.check(same(er,acc),"%s: requested accuracy is the relative tolerance"%lab,e.loc)
    R.check(True if ea==ZERO else False if ea.isconst() or ea==acc else None,"%s: no absolute tolerance ends the subdivision early"%lab,e.loc)
    n=A.get("n")
    if n is not None: R.check(same(lim,n),"%s: subdivision limit"%lab,e.loc)
    # function object
    fn=fl.at_call(e,F_,8,"ptr"); par=fl.at_call(e,F_+8,8,"ptr")
    k=fn.single()
    if not k or k[0]!="g": R.und("%s: integrand wrapper not recognised"%lab,e.loc)
    else:
        w=[f for f in u.fns.values() if f["name"]==k[1]]
        if not w: R.und("%s: integrand wrapper not exported"%lab,e.loc)
        else:
            g=Flow(Func(w[0]),u.G); g.phival={}; g.mutype={}; g.drop={}; g.condat={}; g.summ={}; g.run(); R.fn(g.f)
            X=var(("arg",0,g.f.args[0]["name"],g.f.args[0]["ty"])); P=var(("arg",1,g.f.args[1]["name"],"ptr"))
            c=[x for x in g.effects if x.kind=="call" and "vp::Fn::operator()" in x.dem]
            wl=(g.f.file,g.f.line)
            ok=len(c)==1 and c[0].args[0]==P and c[0].args[1]==X and g.ret==c[0].ret
            bad=len(c)==1 and (c[0].args[1]!=X and X.single() in deep_atoms(c[0].args[1]) or g.ret!=c[0].ret) or len(c)>1
            R.check(True if ok else False if bad else None,"%s: the caller's function is evaluated once, at the abscissa asked for, and its value returned"%lab,wl)
    pr=fl.root(par); f0=None
    if pr is not None and pr[0]=="alloca":
        f0=fl.at_call(e,par,8,"double")
        fa=[x for nm,x in A.items() if nm.startswith("f")]
        R.check(True if f0 in fa else None,"%s: the caller's function is the one integrated"%lab,e.loc)
    else: R.und("%s: integrand object not recognised"%lab,e.loc)
    # workspace and result
    if own:
        al=[x for x in fl.effects if x.kind=="call" and x.dem=="gsl_integration_workspace_alloc"]
        R.check(True if len(al)==1 and ws==al[0].ret else None,"%s: the workspace made for the call is used"%lab,e.loc)
        if len(al)==1:
            sz=al[0].args[0]; m=A.get("m")
            if m is not None: R.check(True if sz in(m,lim) else same(sz,m),"%s: workspace capacity"%lab,al[0].loc)
            elif sz.isconst() and lim.isconst(): R.check(sz.cval()>=lim.cval(),"%s: the workspace holds as many intervals as the subdivision limit"%lab,al[0].loc)
            else: R.und("%s: capacity not constant"%lab,al[0].loc)
    else: R.check(True if ws==fl.load(State(),A["ws"],8,"ptr") else None,"%s: the caller's workspace is used"%lab,e.loc)
    v=fl.ret; k=v.single() if v is not None else None
    R.check(True if k and k[0]=="load" and k[1]==res and k[2]!=0 else False if k and k[0]=="load" and k[1]==err or v is not None and v.isconst() or (k is None and v is not None and any(a[0]=="load" and a[1] in(res,err) for a in deep_atoms(v))) else None,"%s: the integral is returned"%lab,e.loc)
def body(R):
    u=extract(lower(harness("integ.cpp")),roots=(r"^vp::int_",r"__invoke"))
    for rx,own,d in(("int_ws",False,False),("int_own",True,False),("int_def",True,True),("int_wsdef",False,True)): one(R,u,rx,None,own,d)
main("C27","the arguments that reach the integrator are the caller's, in order; the wrapper evaluates the caller's function at the abscissa it is given; the value returned is read from the integral slot",body)
