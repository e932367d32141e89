from common import *
from shape import *
import itertools
def row(ix,ex):
    o=0
    for i,e in zip(ix,ex): o=o*e+i
    return o
def ent(n,k): return V(0,{("entry",n,k):1}).key()
ZK=V(0).key()
class Seen:
    """one verdict per statement over all shapes"""
    def __init__(s,R,loc): s.R=R; s.d={}; s.loc=loc
    def note(s,what,ok,det=""):
        o=s.d.get(what)
        if o is None or (ok is False and o[0] is not False) or (ok is None and o[0] is True): s.d[what]=(ok,det)
    def done(s):
        for w,(ok,det) in s.d.items(): s.R.check(ok,w,s.loc,detail=det)
def shapes(rk): return [s for s in itertools.product((1,2,3),repeat=rk)]+[tuple(0 if i==z else 2 for i in range(rk)) for z in range(rk)]
def state(S,what,at,arg,lay,ext,content,ctx,storage=True):
    """the array `arg` afterwards: extents ext, size, storage and contents"""
    ex,sz,dp=at.header(arg,lay); n=prod(ext)
    ok=all(not x.b for x in ex) and [x.n for x in ex]==list(ext)
    S.note(what+": extents",ok,"%s: %s"%(ctx,[x.n for x in ex]))
    S.note(what+": size is the product of the extents",not sz.b and sz.n==n,"%s: %s"%(ctx,sz.n))
    p=dp.ptr()
    if p is None:
        S.note(what+": storage holds size entries",True if not dp.b and dp.n==0 and n==0 else False,"%s: no storage"%ctx); return
    if p[1]!=0: S.note(what+": storage holds size entries",False,"%s: storage is not the start of a block"%ctx); return
    b=p[0]
    if isinstance(b,tuple) and b[0]=="call":
        if not re.match(r"_Znwm|_Znam|malloc",b[1]): S.note(what+": storage holds size entries",None,ctx); return
        req=at.ev()(b[2][0])
        S.note(what+": storage holds size entries",req==n*at.esz,"%s: %s bytes for %d entries"%(ctx,req,n))
        old=None
    elif isinstance(b,tuple) and b[0]=="D":
        a=[v for v in at.vals.values() if isinstance(v,Arr) and v.name==b[1]][0]
        S.note(what+": storage holds size entries",a.size==n,"%s: %d entries for %d"%(ctx,a.size,n)); old=a.name
    else: S.note(what+": storage holds size entries",None,ctx); return
    if content is None: return
    try:
        w=at.writes(b)
        out=[i for i in w if not 0<=i<n]
        S.note(what+": no write outside the storage",not out,"%s: entry %s"%(ctx,out[:1]))
        for k in range(n):
            g=w[k][0] if k in w else ent(old,k) if old else None
            if g==("?",): S.note(what+": contents",None,ctx); break
            if g!=content[k]:
                S.note(what+": contents",False,"%s: entry %d is %s instead of %s"%(ctx,k,"unset" if g is None else g[1] and g[1][0][0][1:] or g[0],content[k][1] and content[k][1][0][0][1:] or content[k][0])); break
        else: S.note(what+": contents",True)
    except Unknown as e: S.note(what+": contents",None,"%s: %s"%(ctx,e))
def returns(fl,at): return at.ev().cond(fl.retguard) if fl.endstate is not None else False
def body(R):
    allocs(R)
    plain(R)
def plain(R):
    u=extract(lower(harness("marr_shape.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"vp::",))
    lay={r:Layout(u,r) for r in(1,2,3)}
    for r in(1,2,3):
        if not lay[r].ok: R.und("rank %d: extents, size and storage are not plain members"%r)
    lay={r:l for r,l in lay.items() if l.ok}
    names={"d":"","q":" (copying)"}
    def fn(n):
        fl=u.flow(r"^vp::%s\("%n); R.fn(fl.f)
        loc=next((e.loc for e in fl.effects if e.loc and e.loc[0].endswith("marray.h")),(fl.f.file,fl.f.line))
        S=Seen(R,loc)
        tr=[e for e in fl.effects if e.kind=="trunc" and any(k[0] in("load","arg") for k in deep_atoms(e.val))]
        for e in tr:
            if int(e.to[1:])<64: R.bad("%s: sizes keep all their bits"%n,e.loc)
        return fl,S
    def guard(f,S,what):
        try: f()
        except Unknown as e: S.note(what,None,str(e))
        S.done()
    for T in("d","q"):
        sfx=names[T]
        # insertion, removal, resizing
        for rk in lay:
            for d in range(rk):
                def ins():
                    w="inserting along dimension %d of %d%s"%(d,rk,sfx)
                    for ext in shapes(rk):
                        for pos in range(ext[d]+1):
                            for num in(0,1,2):
                                at=At(fl,lay[rk],[Arr("a",ext),pos,num,"val"])
                                if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                                new=list(ext); new[d]+=num; c=[]
                                for ix in itertools.product(*[range(e) for e in new]):
                                    if pos<=ix[d]<pos+num: c.append(ent("val",0))
                                    else:
                                        o=list(ix); o[d]-=num if ix[d]>=pos else 0
                                        c.append(ent("a",row(o,ext)))
                                state(S,w,at,0,lay[rk],new,c,"shape %s, %d before %d"%(ext,num,pos))
                fl,S=fn("ins%s_%d_%d"%(T,rk,d)); guard(ins,S,"insertion")
                def dele():
                    w="removing along dimension %d of %d%s"%(d,rk,sfx)
                    for ext in shapes(rk):
                        for pos in range(ext[d]):
                            for num in range(ext[d]-pos+1):
                                at=At(fl,lay[rk],[Arr("a",ext),pos,num])
                                if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                                new=list(ext); new[d]-=num; c=[]
                                for ix in itertools.product(*[range(e) for e in new]):
                                    o=list(ix); o[d]+=num if ix[d]>=pos else 0
                                    c.append(ent("a",row(o,ext)))
                                state(S,w,at,0,lay[rk],new,c,"shape %s, %d from %d"%(ext,num,pos))
                fl,S=fn("del%s_%d_%d"%(T,rk,d)); guard(dele,S,"removal")
                def rsz():
                    w="resizing dimension %d of %d%s"%(d,rk,sfx)
                    for ext in shapes(rk):
                        for n in range(0,5):
                            at=At(fl,lay[rk],[Arr("a",ext),n])
                            if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                            new=list(ext); new[d]=n; c=[]
                            for ix in itertools.product(*[range(e) for e in new]):
                                c.append(ent("a",row(ix,ext)) if ix[d]<ext[d] else ZK)
                            state(S,w,at,0,lay[rk],new,c,"shape %s to %d"%(ext,n))
                fl,S=fn("rsz%s_%d_%d"%(T,rk,d)); guard(rsz,S,"resizing")
            # construction
            for n,w in(("mk","construction from a list of sizes"),("mkc","construction from a container of sizes"),("mkn","construction without initialisation")):
                if n=="mkn" and T=="q": continue
                def mk():
                    for ext in shapes(rk):
                        at=At(fl,lay[rk],["o"]+list(ext))
                        if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                        state(S,"rank %d%s: %s"%(rk,sfx,w),at,0,lay[rk],ext,[ZK]*prod(ext) if n!="mkn" else None,"shape %s"%(ext,))
                fl,S=fn("%s%d%s"%(n,rk,T if n!="mkn" else "")); guard(mk,S,w)
            if rk>1:
                def mki():
                    w="rank %d%s: construction from a range"%(rk,sfx)
                    for ext in shapes(rk):
                        for dn in(0,1,-1,5):
                            n=prod(ext)+dn
                            if n<0: continue
                            at=At(fl,lay[rk],["o"]+list(ext)+["src",None]); e=at.A[-1]
                            at.vals[e]=None
                            b=at.A[-2]; lf=at.leaf
                            at.leaf=lambda k,ev,lf=lf,e=e,b=b,n=n: V(n*8,{b:1}) if k==e else lf(k,ev)
                            if not returns(fl,at):
                                S.note(w+": a range of the right length is accepted",dn!=0,str(ext)); continue
                            S.note(w+": a range of another length is rejected",dn==0,"shape %s, %d entries"%(ext,n))
                            if dn==0: state(S,w,at,0,lay[rk],ext,[ent("src",k) for k in range(n)],"shape %s"%(ext,))
                fl,S=fn("mki%d%s"%(rk,T)); guard(mki,S,"construction from a range")
            # copies
            def cp():
                w="rank %d%s: copy construction"%(rk,sfx)
                for ext in shapes(rk):
                    for null in((False,True) if prod(ext)==0 else (False,)):
                        at=At(fl,lay[rk],["o",Arr("a",ext,null)])
                        if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                        state(S,w,at,0,lay[rk],ext,[ent("a",k) for k in range(prod(ext))],"shape %s"%(ext,))
                        state(S,w+": the source",at,1,lay[rk],ext,None if null else [ent("a",k) for k in range(prod(ext))],"shape %s"%(ext,)) if not null else None
            fl,S=fn("cp%d%s"%(rk,T)); guard(cp,S,"copy construction")
            def mv():
                w="rank %d%s: move construction"%(rk,sfx)
                for ext in shapes(rk):
                    at=At(fl,lay[rk],["o",Arr("a",ext)])
                    if not returns(fl,at): S.note(w+": is possible",False,str(ext)); continue
                    state(S,w,at,0,lay[rk],ext,[ent("a",k) for k in range(prod(ext))],"shape %s"%(ext,))
                    state(S,w+" leaves the source empty",at,1,lay[rk],(0,)*rk,None,"shape %s"%(ext,))
            fl,S=fn("mv%d%s"%(rk,T)); guard(mv,S,"move construction")
            for n,w in(("ca","copy assignment"),("ma","move assignment"),("sw","swapping")):
                def asg():
                    ww="rank %d%s: %s"%(rk,sfx,w)
                    for ext in shapes(rk):
                        for ext2 in [(2,)*rk,(3,1,2)[:rk],ext,(0,)*rk]:
                            at=At(fl,lay[rk],[Arr("o",ext2),Arr("a",ext)])
                            if not returns(fl,at): S.note(ww+": is possible",False,str(ext)); continue
                            state(S,ww,at,0,lay[rk],ext,[ent("a",k) for k in range(prod(ext))],"shape %s over %s"%(ext,ext2))
                            if n=="sw": state(S,ww+": the other array",at,1,lay[rk],ext2,[ent("o",k) for k in range(prod(ext2))],"shape %s with %s"%(ext,ext2))
                            elif n=="ca": state(S,ww+": the source",at,1,lay[rk],ext,[ent("a",k) for k in range(prod(ext))],"shape %s"%(ext,))
                            else:
                                # any coherent state will do
                                ex,sz,dp=at.header(1,lay[rk])
                                S.note(ww+": the source stays coherent",True if all(not x.b for x in ex) and prod([x.n for x in ex])==sz.n else False,str(ext))
                fl,S=fn("%s%d%s"%(n,rk,T)); guard(asg,S,w)
            if rk>1:
                def rs():
                    w="rank %d%s: reshaping"%(rk,sfx)
                    for ext in shapes(rk):
                        for new in shapes(rk):
                            at=At(fl,lay[rk],[Arr("o",ext)]+list(new))
                            if not returns(fl,at): S.note(w+": to the same total size is possible",prod(ext)!=prod(new),"%s to %s"%(ext,new)); continue
                            S.note(w+": to another total size is rejected",prod(ext)==prod(new),"%s to %s"%(ext,new))
                            if prod(ext)==prod(new): state(S,w,at,0,lay[rk],new,[ent("o",k) for k in range(prod(ext))],"shape %s to %s"%(ext,new))
                    for new in((2**16,2**16),(2**17,2**15),(2**32,2**31)) if rk==2 else ():
                        at=At(fl,lay[rk],[Arr("o",(0,)*rk)]+list(new))
                        S.note(w+": to another total size is rejected",not returns(fl,at),"empty to %s"%(new,))
                    unchanged(R,fl,S,w)
                fl,S=fn("rs%d%s"%(rk,T)); guard(rs,S,"reshaping")
        def mk0():
            at=At(fl,lay[2],["o"]); state(S,"default construction%s"%sfx,at,0,lay[2],(0,0),None,"")
        if 2 in lay: fl,S=fn("mk0%s"%T); guard(mk0,S,"default construction")
        for n,w in(("rsbad2","reshaping to another number of dimensions"),("rzbad2","resizing to more dimensions"),("rzbad3","resizing to fewer dimensions"),("mkbad2","constructing with too few sizes"),("mkbad1","constructing with too many sizes"),("mkbadc3","constructing from too short a container")):
            fl,S=fn(n+T)
            thr=[e for e in fl.effects if e.kind=="throw" or e.kind=="call" and e.dem and "__cxa_throw" in e.dem]
            ok=True if fl.endstate is None or fl.retguard==F else None; det=""
            if ok is None:
                rk=int(re.search(r"\d",n).group()); cont=n[:2]=="mk"
                try:
                    for ext in shapes(rk):
                        for sz in itertools.product(range(4),repeat=len(fl.f.args)-1):
                            if returns(fl,At(fl,lay[rk],["o" if cont else Arr("o",ext)]+list(sz))): ok=False; det="sizes %s are accepted"%(sz,)
                except Unknown as e: pass
            R.check(ok,"%s%s is rejected"%(w,sfx),S.loc,detail=det)
            if n[:2]=="rs" or n[:2]=="rz": unchanged(R,fl,S,w+sfx); S.done()
    # nested initialisers
    for n,rk,ext,vals in(("mkl1",1,(2,),"ab"),("mkl2",2,(2,3),"abcdef"),("mkl3",3,(2,2,1),"abcd")):
        if rk not in lay: continue
        def mkl():
            w="rank %d: construction from nested lists"%rk
            for e in shapes(rk):
                at=At(fl,lay[rk],["o"]+list(e)+list(vals))
                if not returns(fl,at): S.note(w+": fitting lists are accepted",e!=ext,str(e)); continue
                S.note(w+": lists of another shape are rejected",e==ext,str(e))
                if e==ext: state(S,w,at,0,lay[rk],ext,[ent(v,0) for v in vals],str(e))
        fl,S=fn(n); guard(mkl,S,"construction from nested lists")
    for n,rk,ext,vals in(("as1",1,(2,),"ab"),("as2",2,(2,3),"abcdef"),("as3",3,(2,2,1),"abcd")):
        if rk not in lay: continue
        def asl():
            w="rank %d: assignment from nested lists"%rk
            for e in shapes(rk):
                at=At(fl,lay[rk],[Arr("o",e)]+list(vals))
                if not returns(fl,at): S.note(w+": fitting lists are accepted",e!=ext,str(e)); continue
                S.note(w+": lists of another shape are rejected or adopted",e==ext or at.header(0)[0][0].n==ext[0],str(e))
                if e==ext: state(S,w,at,0,lay[rk],ext,[ent(v,0) for v in vals],str(e))
            unchanged(R,fl,S,w)
        fl,S=fn(n); guard(asl,S,"assignment from nested lists")
    # resizing all dimensions: each dimension is resized once, to the size given for it
    u2=extract(lower(harness("marr_shape.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"vp::rz\d[dq]",),noinline=(r"marray<.*>::resize\(unsigned long, unsigned long\)$",),
        extra=("--unroll-threshold=200000","--unroll-max-iteration-count-to-analyze=64","--unroll-full-max-count=64"))
    for T in("d","q"):
        for rk in(1,2,3):
            w="rank %d: resizing all dimensions%s"%(rk,names[T])
            fl=u2.flow(r"^vp::rz%d%s\("%(rk,T)); R.fn(fl.f); loc=next((e.loc for e in fl.effects if e.loc and e.loc[0].endswith("marray.h")),(fl.f.file,fl.f.line))
            A=[("arg",k,a["name"],a["ty"]) for k,a in enumerate(fl.f.args)]
            cs=[e for e in fl.effects if e.kind=="call" and e.dem and re.search(r"::resize\(unsigned long, unsigned long\)$",e.dem)]
            if not cs or any(e.loops or not e.args[1].isconst() or e.args[0]!=var(A[0]) for e in cs) or fl.endstate is None:
                R.und(w,loc); continue
            done=sorted(int(e.args[1].cval()) for e in cs)
            full=all(bimp(fl.retguard,e.guard) for e in cs)
            und=[e for e in cs if not bimp(fl.retguard,e.guard) and cex.find(band(fl.retguard,bnot(e.guard))) is None]
            R.check(True if done==list(range(rk)) and full else (None if und or len(set(done))<len(done) else False),w+": every dimension once",loc,detail=str(done))
            for e in cs:
                d=int(e.args[1].cval())
                if not 0<=d<rk: R.bad(w+": a dimension of the array",e.loc); continue
                x=e.args[2]-var(A[1+d])
                R.check(True if not x.t else (False if x.isconst() or all(k[0]=="arg" for m in x.t for k,_ in m) else None),w+": to the size asked for",e.loc,detail=show(e.args[2]))
def allocs(R):
    """assignment and swapping where allocators differ or do not travel with the contents"""
    u=extract(lower(harness("marr_alloc.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^vp::[tf]_\w+\(",))
    for P,tr in(("t","travelling allocator"),("f","staying allocator")):
        lay=Layout(u,2,pre=r"vp::%s_"%P)
        if not lay.ok: R.und("%s: extents, size and storage are not plain members"%tr); continue
        ids=u.flow(r"^vp::%s_id\("%P); k=ids.ret.single()
        if not k or k[0]!="load": R.und("%s: where the allocator is kept"%tr); continue
        off=int((k[1]-var(("arg",0,ids.f.args[0]["name"],"ptr"))).cval())
        for n,w in(("ca","copy assignment"),("ma","move assignment"),("sw","swapping"),("cp","copy construction"),("mv","move construction")):
            for q in("d","q"):
                try: fl=u.flow(r"^vp::%s_%s%s\("%(P,n,q)); R.fn(fl.f)
                except NotBuilt: R.und("%s%s, %s: does not compile for this type"%(w," (copying)" if q=="q" else "",tr)); continue
                loc=next((e.loc for e in fl.effects if e.loc and e.loc[0].endswith("marray.h")),(fl.f.file,fl.f.line))
                S=Seen(R,loc); ww="%s%s, %s"%(w," (copying)" if q=="q" else "",tr)
                try:
                    for ext in shapes(2):
                        for ext2 in [(2,2),(3,1),ext,(0,0)] if n in("ca","ma","sw") else [None]:
                            for i,j in((1,1),(1,2)):
                                if n=="sw" and P=="f" and i!=j: continue
                                at=At(fl,lay,["o" if ext2 is None else Arr("o",ext2),Arr("a",ext)]); at.ids={0:i,1:j}
                                lf=at.loadf
                                def loadf(b,o,kk,ev,at=at,lf=lf):
                                    if b[0]=="arg" and o==off and kk[3]=="i32" and fresh(kk[2]): return at.ids[b[1]]
                                    return lf(b,o,kk,ev)
                                at.loadf=loadf
                                if not returns(fl,at): S.note(ww+": is possible",False,str(ext)); continue
                                cx="shape %s over %s, allocators %d and %d"%(ext,ext2,i,j)
                                state(S,ww,at,0,lay,ext,[ent("a",k) for k in range(prod(ext))],cx)
                                if n=="sw": state(S,ww+": the other array",at,1,lay,ext2,[ent("o",k) for k in range(prod(ext2))],cx)
                                elif n in("ca","cp"): state(S,ww+": the source",at,1,lay,ext,[ent("a",k) for k in range(prod(ext))],cx)
                                else:
                                    ex,sz,dp=at.header(1,lay)
                                    S.note(ww+": the source stays coherent",True if all(not x.b for x in ex) and prod([x.n for x in ex])==sz.n else False,cx)
                except Unknown as e: S.note(ww,None,str(e))
                S.done()
def unchanged(R,fl,S,w):
    """nothing of the array is written on a path that ends in an exception"""
    rg=fl.retguard if fl.endstate is not None else F
    a=("arg",0,fl.f.args[0]["name"],"ptr"); bad=None; und=False
    for e in fl.effects:
        if e.kind in("store","wstore") and fl.root(e.addr) is not None:
            r=fl.root(e.addr); mine=r==a or (r[0]=="load" and fl.root(r[1])==a)
            if mine and not bimp(e.guard,rg):
                x=cex.find(band(e.guard,bnot(rg))); bad=e if x is not None else bad; und=und or x is None
    S.note(w+": a rejected request changes nothing",False if bad else None if und else True)
import cex
main("C14","closed forms of the extents, size, storage request and every entry written by each constructor, assignment, swap, insertion, removal, resize and reshape, for moving and copying element types and ranks 1 to 3, evaluated on all shapes with extents 0 to 3; rejected requests return on no path and write nothing",body)
