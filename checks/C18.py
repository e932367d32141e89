from taulib import *
import tautab
def body(R):
    u=unit(); lg,lt=layouts(); bases={}
    for n in NAMES:
        fl=flow(u,n); R.fn(fl.f); loc=next((e.loc for e in fl.effects if e.kind=="ret"),(fl.f.file,fl.f.line))
        bases[n]=tautab.base(fl,lt)
        if bases[n] is None: R.und("%s: which table it reads"%n,loc); continue
        A=[("arg",k,a["name"],a["ty"]) for k,a in enumerate(fl.f.args)]
        st={}
        def note(w,ok,det="",l=None):
            if w not in st or (ok is False and st[w][0] is not False): st[w]=(ok,det,l)
        for N in(0,1,2,3):
            idx=sorted(set(list(range(N+2))+[2**31,2**32-1,2**32-N if N else 7]))
            for n0 in(0,1,2,3,2**31,2**32-1):
                for i in idx:
                    for j in idx:
                        cx="%d energies, (%d,%d,%d)"%(N,i,j,n0)
                        class H(At):
                            def loadf(s,b,o,k,ev):
                                if b==A[0]:
                                    for t in set(x for x in bases.values() if x is not None)|{bases[n]}:
                                        r=o-t
                                        if lt.e<=r<lt.e+24 and r%8==0: return ((2,N,N) if N else (0,0,0))[int(r-lt.e)//8]
                                        if r==lt.z: return 2*N*N
                                        if r==lt.d: return V(0,{("D",t):1})
                                    return None
                                if isinstance(b,tuple) and b[0]=="D": return V(0,{("E",b[1],o):1})
                                return None
                        vals={A[1]:i,A[2]:j,A[3]:n0}
                        m=H(fl,lt,[None,i,j,n0])
                        def sg(k): return None
                        try:
                            ev=m.ev(); ok=i<N and j<N and n0<2
                            for e in fl.effects:
                                if e.kind in("load","aload"):
                                    if not ev.cond(e.guard): continue
                                    p=ev.poly(e.addr).ptr()
                                    if p and isinstance(p[0],tuple) and p[0][0]=="D" and not(0<=p[1]<8*2*N*N and p[1]%8==0):
                                        note("no read outside the table",False,cx,e.loc)
                            note("no read outside the table",True)
                            ret=fl.endstate is not None and ev.cond(fl.retguard)
                            if not ok: note("an index out of range is refused",not ret,cx)
                            else:
                                note("indices in range are answered",ret,cx)
                                if ret:
                                    v=ev.poly(fl.ret); g=v.ptr()
                                    w=("E",bases[n],8*((n0*N+i)*N+j))
                                    note("the entry asked for is returned",(g is not None and g==(w,0)) if not v.n else False,"%s: %s instead of %s"%(cx,g and g[0],w))
                        except Unknown as x: note("bounds",None,"%s: %s"%(cx,x))
        for w,(ok,det,l) in st.items(): R.check(ok,"%s: %s"%(n,w),l or loc,detail=det)
        # each table is its own
    tautab.own(R,u,lg,lt,bases)
main("C18","the accessors evaluated symbolically from their extracted closed forms at every combination of in-range, just out-of-range and wrapped indices on tables of 0 to 3 energies: returned entry, refusal, and no read outside the table",body)
