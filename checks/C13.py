from common import *
import random, itertools
def row(ix,ex):
    o=0
    for i,e in zip(ix,ex): o=o*e+i
    return o
class Layout:
    """where an array of each rank keeps its extents, size and storage, as its public accessors read them"""
    def __init__(s,u,R,rk):
        ext=u.flow(r"^vp::ext_%d\("%rk); sz=u.flow(r"^vp::size_%d\("%rk); dt=u.flow(r"^vp::data_%d\("%rk)
        def off(fl,ty):
            k=fl.ret.single()
            if not k or k[0]!="load" or k[3]!=ty: return None
            d=k[1]-var(("arg",0,fl.f.args[0]["name"],"ptr"))
            return d
        e=off(ext,"i64"); z=off(sz,"i64"); d=off(dt,"ptr"); dim=var(("arg",1,ext.f.args[1]["name"],"i64"))
        s.ok=None not in(e,z,d) and (e-dim.scale(8)).isconst() and z.isconst() and d.isconst()
        if s.ok: s.e,s.z,s.d=[int(x.cval()) for x in((e-dim.scale(8)),z,d)]
D="DATA"
def body(R):
    u=extract(lower(harness("marr_access.cpp"),defs=["-DNDEBUG"]),roots=(r"vp::",))
    rnd=random.Random(5)
    for rk in(1,2,3,4):
        lay=Layout(u,R,rk)
        if not lay.ok: R.und("rank %d: extents, size and storage are not plain members"%rk); continue
        shapes=[s for s in itertools.product((1,2,3,5),repeat=rk)]
        rnd.shuffle(shapes); shapes=shapes[:14]+[tuple(rnd.choice((2**33+1,7,2**20,3)) for _ in range(rk)) for _ in range(4)]
        def run(name,args,expect,what,ptr=True,cond=lambda ex,a: True):
            """args(ex,size) -> list of argument tuples; expect(ex,size,args) -> element index or number"""
            fl=u.flow(r"^vp::%s\("%name); R.fn(fl.f); loc=next((e.loc for e in fl.effects if e.loc),(fl.f.file,fl.f.line))
            tr=[e for e in fl.effects if e.kind=="trunc" and any(k[0] in("load","arg") for k in deep_atoms(e.val))]
            if tr: R.bad("%s keeps all bits of the position"%what,tr[0].loc,detail_(tr[0]))
            if fl.loopinfo: R.und(what+": a loop remains",loc); return
            if not isinstance(fl.ret,Poly): R.und(what,loc); return
            A=[("arg",k,a["name"],a["ty"]) for k,a in enumerate(fl.f.args)]
            n=0; bad=None
            try:
                for ex in shapes:
                    size=1
                    for e in ex: size*=e
                    for args_ in args(ex,size):
                        def loadf(b,o,k,ev):
                            if b==A[0]:
                                if lay.e<=o<lay.e+8*rk and (o-lay.e)%8==0: return ex[int(o-lay.e)//8]
                                if o==lay.z: return size
                                if o==lay.d: return V(0,{D:1})
                            return None
                        def leaf(k,ev):
                            if k in A[1:]: return args_[A.index(k)-1]
                            return None
                        ev=Ev(loadf=loadf,leaf=leaf); r=ev.poly(fl.ret); n+=1
                        want=expect(ex,size,args_)
                        if ptr: okp= r.b=={D:1} and r.n==8*want
                        else: okp= (not r.b) and r.n==want
                        if not okp and bad is None: bad="shape %s, arguments %s: %s instead of %s"%(ex,args_,(r.n/8 if r.b=={D:1} else r) if ptr else r.n,want)
            except Unknown as x:
                if str(x)=="division by zero": R.bad("%s divides by zero on shape %s"%(what,ex),loc); return
                R.check(None,"%s (%s)"%(what,x),loc); return
            R.check(bad is None,what,loc,detail=bad or "")
        def idx(ex,size):
            l=[tuple(rnd.randrange(e) for e in ex) for _ in range(4)]+[tuple(e-1 for e in ex),tuple(0 for e in ex)]
            return l
        for v,vn in(("m","mutable"),("c","constant")):
            for f,fn in(("sub","chained subscripts"),("lst","an index list"),("con","an index container")):
                run("%s%d_%s"%(f,rk,v),idx,lambda ex,s,a: row(a,ex),"rank %d, %s array: %s address the row-major element"%(rk,vn,fn))
        pos=lambda ex,size: [(0,),(size-1,),(size//2,)]
        for d in range(rk):
            def co(ex,size,a,d=d,rev=False):
                n=a[0] if not rev else size-1-a[0]
                for e in reversed(ex[d+1:]): n//=e
                return n%ex[d]
            run("coord_%d_%d"%(rk,d),pos,co,"rank %d: coordinate %d of an iterator"%(rk,d),ptr=False)
            run("rcoord_%d_%d"%(rk,d),pos,lambda ex,s,a,d=d: co(ex,s,a,d,True),"rank %d: coordinate %d of a reverse iterator"%(rk,d),ptr=False)
        none=lambda ex,size: [()]
        for n_,w in(("it_m","begin()+n"),("it_c","constant begin()+n"),("it_cb","cbegin()+n"),("itx_m","begin()[n]"),("itn","n+begin()"),("pluseq_m","begin()+=n")):
            run("%s_%d"%(n_,rk),pos,lambda ex,s,a: a[0],"rank %d: %s is element n"%(rk,w))
        for n_,w in(("rit_m","rbegin()+n"),("rit_c","constant rbegin()+n"),("rit_cb","crbegin()+n"),("ritx_m","rbegin()[n]"),("rpluseq_m","rbegin()+=n")):
            run("%s_%d"%(n_,rk),pos,lambda ex,s,a: s-1-a[0],"rank %d: %s is element n from the end"%(rk,w))
        one=lambda ex,size: [(1,),(size,)]
        run("minuseq_m_%d"%rk,one,lambda ex,s,a: s-a[0],"rank %d: end()-=n is element n from the end"%rk)
        run("rminuseq_m_%d"%rk,one,lambda ex,s,a: a[0]-1,"rank %d: rend()-=n counts from the front"%rk)
        for n_,ix in(("pre_m",lambda s:1),("post_m",lambda s:1),("postd_m",lambda s:s-1),("rpre_m",lambda s:s-2),("rpost_m",lambda s:s-2),("rpostd_m",lambda s:0),("front_m",lambda s:0),("front_c",lambda s:0),("back_m",lambda s:s-1),("back_c",lambda s:s-1)):
            w={"pre_m":"stepping an iterator forwards and back","post_m":"stepping an iterator yields the old position","postd_m":"stepping an iterator back yields the old position","rpre_m":"stepping a reverse iterator forwards and back","rpost_m":"stepping a reverse iterator yields the old position","rpostd_m":"stepping a reverse iterator back yields the old position","front_m":"front","front_c":"constant front","back_m":"back","back_c":"constant back"}[n_]
            run("%s_%d"%(n_,rk),none,lambda ex,s,a: ix(s),"rank %d: %s"%(rk,w))
        for n_ in("dist_m","dist_c","rdist_m","rdist_c"):
            run("%s_%d"%(n_,rk),none,lambda ex,s,a: s,"rank %d: %s iterators span the whole %sarray"%(rk,"reverse" if n_[0]=="r" else "forward","constant " if n_[-1]=="c" else ""),ptr=False)
        run("size_%d"%rk,none,lambda ex,s,a: s,"rank %d: size"%rk,ptr=False)
        run("rank_%d"%rk,none,lambda ex,s,a: rk,"rank %d: rank"%rk,ptr=False)
        run("empty_%d"%rk,none,lambda ex,s,a: 0,"rank %d: an array with elements is not empty"%rk,ptr=False)
        two=lambda ex,s: [(0,0),(0,1),(1,0),(3,3),(5,2)]
        import operator as o
        for n_,op,w in(("lt",o.lt,"<"),("gt",o.gt,">"),("le",o.le,"<="),("ge",o.ge,">="),("eq",o.eq,"=="),("ne",o.ne,"!=")):
            run("%s_%d"%(n_,rk),two,lambda ex,s,a: int(op(*a)),"rank %d: iterators compare %s by position"%(rk,w),ptr=False)
            if n_ not in("eq","ne"): run("r%s_%d"%(n_,rk),two,lambda ex,s,a: int(op(*a)),"rank %d: reverse iterators compare %s by position"%(rk,w),ptr=False)
        fl=u.flow(r"^vp::exts_%d\("%rk); R.fn(fl.f); O=var(("arg",1,fl.f.args[1]["name"],"ptr")); a=var(("arg",0,fl.f.args[0]["name"],"ptr"))
        got=[fl.load(fl.endstate,O+const(8*d),8,"i64") for d in range(rk)]
        want=[fl.load(State(),a+const(lay.e+8*d),8,"i64") for d in range(rk)]
        R.check(True if got==want else None if any(not(g.single() and g.single()[0]=="load") for g in got) else False,"rank %d: the extents are reported in order"%rk,(fl.f.file,fl.f.line))
def detail_(e): return "truncated to %s"%e.to
main("C13","the address (or number) returned by every accessor of arrays of rank 1 to 4, as a function of the extents, the size and the indices, is the row-major one on small shapes with all kinds of indices and on shapes beyond 32 bits; no index product is truncated",body)
