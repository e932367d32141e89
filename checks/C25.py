from common import *
from fills import *
def body(R):
    u=extract(lower(src("src/tools.cpp")),roots=(r"nusquids::(lin|log)space\(",))
    for nm in("linspace","logspace"):
        fl=u.flow(r"nusquids::%s\("%nm); R.fn(fl.f); loc=(fl.f.file,fl.f.line)
        A=fl.f.args
        if len(A)!=4 or not A[0].get("sret"): R.und(nm+": signature not recognised",loc); continue
        O=var(("arg",0,A[0]["name"],"ptr")); lo,hi,N=[var(("arg",k,A[k]["name"],A[k]["ty"])) for k in(1,2,3)]
        rz=Rewriter(lambda kk: ZERO if kk==N.single() else None).cond(fl.retguard)
        R.check(True if rz==F else False if rz==T else None,nm+": zero points are refused with an exception",loc)
        st=fl.endstate
        if st is None: R.und(nm+": never returns",loc); continue
        for off,w in((0,"extent"),(8,"number of entries")):
            v=fl.load(st,O+const(off),8,"i64"); d=v-N
            R.check(True if d==ZERO else False if d.isconst() else None,"%s: the %s is the requested count"%(nm,w),loc)
        dp=fl.load(st,O+16,8,"ptr"); k=dp.single()
        while k and k[0]=="ite": dp=k[3] if k[2].isconst() else k[2]; k=dp.single()
        fs=fills(fl,fl.root(dp)) if fl.root(dp) else None
        if not fs: R.und(nm+": writes to the result not recognised",loc); continue
        res={}
        def note(what,ok,ev=None):
            if what not in res or (ok is False) or (ok is None and res[what][0]): res[what]=(ok,ev)
        for n in range(1,9 if TIER=="quick" else 33):
            sb=lambda p: xsubst(p,{N.single():const(n)})
            rwc=Rewriter(lambda kk: const(n) if kk==N.single() else None)
            arr={}; stop=False
            for f in fs:
                g=rwc.cond(f.e.guard)
                if f.e.kind=="store" and g==F: continue
                if g!=T: 
                    # a guard the extraction kept open (no more than the refusal of bad counts)
                    if not bimp(rwc.cond(fl.retguard),g): note("shape",None,f.e.loc); stop=True; break
                try: l=sb(f.lo); c=sb(f.n) if f.n is not None else ONE
                except ZeroDivisionError: l=None
                if l is None or not l.isconst() or not c.isconst(): note("shape",None,f.e.loc); stop=True; break
                for j in range(max(0,int(c.cval()))):
                    idx=int(l.cval())+j*f.step
                    if not 0<=idx<n:
                        note("every write lies inside the result",False,f.e.loc); continue
                    try: arr[idx]=(sb(f.val(const(j))) if f.n is not None else sb(f.v),f)
                    except ZeroDivisionError: arr[idx]=(None,f)
            if stop: continue
            note("every write lies inside the result",res.get("every write lies inside the result",(True,))[0],None)
            for idx in range(n):
                if idx not in arr or (arr[idx][0] is not None and arr[idx][0]==ZERO): note("no point is left unset",False); continue
                v,f=arr[idx]
                if idx==n-1: note("the last point is exactly the maximum",v is not None and v==hi,f.e.loc); continue
                if idx==0 and v is not None and v==lo: note("the first point is exactly the minimum",True); continue
                if idx==0: note("the first point is exactly the minimum",False if v is not None else None,f.e.loc); continue
                if v is None: note("points between are equally spaced",None,f.e.loc); continue
                frac=const(Fraction(idx,n-1))
                if nm=="linspace": ok=eqrat(v,lo+(hi-lo)*frac)
                else:
                    kk=v.single(); ok=None
                    L=lambda p: var(("call","log",(p,),None,"double"))
                    if kk and kk[0]=="call" and kk[1]=="exp": ok=bool(eqrat(expand(kk[2][0]),L(lo)+(L(hi)-L(lo))*frac)) if not has_odd(kk[2][0],lo,hi) else None
                    elif kk and kk[0]=="call" and kk[1]=="pow": ok=None
                    elif not [a for a in deep_atoms(v) if a[0]=="call"]: ok=False
                note("points between are equally spaced",bool(ok) if ok is not None else None,f.e.loc)
            if n>1: note("no point is left unset",res.get("no point is left unset",(True,))[0])
        for w,(ok,l) in sorted(res.items()): R.check(ok,"%s: %s"%(nm,w+(" in the logarithm" if nm=="logspace" and "equally" in w else "")),l or loc)
def has_odd(p,lo,hi):
    return any(a[0]=="call" and a[1]!="log" for a in deep_atoms(p))
main("C25","the entries written to the result, for each point count, are the minimum, equally spaced values and the maximum itself; no write lies outside; zero points never return",body)
