from common import *
def body(R):
    bc=lower(src("src/resources.cpp")); u=extract(bc,roots=(r"nusquids::getResourcePath",))
    fl=u.flow(r"nusquids::getResourcePath"); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
    hdr=open(os.path.join(resource_dir(),"resource_paths.h")).read()
    mac={k:(re.search(r'#define\s+%s\s+"(.*)"'%k,hdr) or [None,None])[1] for k in("SOURCE_DATA_PATH","INSTALL_DATA_PATH")}
    gs=lambda p: (u.G.get(p.single()[1],{}).get("str") if p.single() and p.single()[0]=="g" else None)
    env=[e for e in fl.effects if e.kind=="call" and e.dem in("getenv","secure_getenv")]
    R.check(True if env else False,"the environment is consulted",loc)
    if not env: return
    R.check(True if bimp(fl.retguard,bor(F,*[e.guard for e in env])) else False,"the environment is consulted on every call",env[0].loc)
    nm={gs(e.args[0]) for e in env}
    R.check(True if nm=={"NUSQUIDS_DATA_PATH"} else None if None in nm else False,"the variable consulted is the documented one",env[0].loc)
    O=var(("arg",0,fl.f.args[0]["name"],"ptr"))
    rets={e.ret.single() for e in env}
    N=ceq(env[0].ret,ZERO)
    # several reads of the variable give the same value
    same=lambda g: Rewriter(lambda k: env[0].ret if k in rets and k!=env[0].ret.single() else None).cond(g)
    cons=[]; odd=[]
    for e in fl.effects:
        if e.kind!="call" or e in env: continue
        src_=[a for a in e.args if any(k in rets for k in deep_atoms(a))]
        if src_:
            g=same(e.guard)
            R.check(True if band(g,N)==F else False,"an unset variable is never used as a string",e.loc)
        if fl.root(e.args[0])==O.single() if e.args else False: cons.append(e)
        elif re.search(r"~|strlen|allocator",e.dem) is None and e.args: odd.append(e)
    build=[e for e in cons if re.search(r"basic_string<.*>::(basic_string|assign|operator=)(\[abi:cxx11\])?\(",e.dem)]
    other=[e for e in cons if e not in build and "~basic_string" not in e.dem]
    if other or any(len(e.args)<2 for e in build): R.und("the result is put together in another way",(other or build)[0].loc); return
    if not build: R.und("construction of the result not recognised",loc); return
    fromenv=[e for e in build if e.args[1].single() in rets]; const_=[(e,gs(e.args[1])) for e in build if e.args[1].single() not in rets]
    if any(s is None for _,s in const_): 
        for e,s in const_:
            k=e.args[1].single()
            if s is None and not(k and k[0]=="ite"): R.und("source of the result not recognised",e.loc); return
    # flatten selections between constants / the environment
    alts=[]
    def flat(e,p,g):
        k=p.single()
        if k and k[0]=="ite": flat(e,k[2],band(g,k[1])); flat(e,k[3],band(g,bnot(k[1]))); return
        alts.append((e,p,same(g)))
    for e in build: flat(e,e.args[1],e.guard)
    ge=bor(F,*[g for e,p,g in alts if p.single() in rets])
    R.check(True if bimp(bnot(N),ge) else False,"whenever the variable is set its value is the result",loc)
    for e,p,g in alts:
        if p.single() in rets: R.check(True if band(g,N)==F else False,"an unset variable is never used as a string",e.loc); continue
        s=gs(p)
        if s is None: R.und("source of the result not recognised",e.loc); continue
        R.check(True if band(g,bnot(N))==F else False,"a built-in location is used only when the variable is not set",e.loc)
        # installed or source location
        def decide(ch,g):
            def cf(k,ev):
                if k[0]=="eq" and any(x in rets for x in deep_atoms(k[1])): return True
            def lf(b,off,k,ev): return ch
            try: return Ev(loadf=lf,condf=cf).cond(g)
            except Unknown: return None
        a,b=decide(ord('A'),g),decide(ord('B'),g)
        want={"SOURCE_DATA_PATH":(True,False),"INSTALL_DATA_PATH":(False,True)}
        which=[k for k,v in mac.items() if v==s]
        if a is None or b is None: R.und("choice of the built-in location not recognised",e.loc)
        elif not which: R.check(False,"the built-in locations are the configured ones",e.loc)
        else: R.check(want[which[0]]==(a,b),"the %s is used exactly when the installation flag says so"%("source location" if which[0][0]=="S" else "installed location"),e.loc)
main("C28","guards of every construction of the result relative to the environment lookup: value of the variable if set, configured constant otherwise, no use of a null result",body)
