from common import *
from shape import *
from fault import *
import itertools
CT=re.compile(r"^vp::[EM]::[EM]\("); DT=re.compile(r"^vp::[EM]::~[EM]\(")
def shapes(): return [(2,2),(1,2),(2,1),(0,2)]
def nm(k):
    return {"arg":lambda:k[2],"D":lambda:"the storage of "+k[1]}.get(k[0],lambda:k[0])()
class Case:
    def __init__(s,R,fl,lay,idoff,what,loc): s.R=R; s.fl=fl; s.lay=lay; s.idoff=idoff; s.what=what; s.loc=loc; s.d={}
    def note(s,w,ok,det="",loc=None):
        o=s.d.get(w)
        if o is None or (ok is False and o[0] is not False) or (ok is None and o[0] is True): s.d[w]=(ok,det,loc)
    def done(s):
        for w,(ok,det,loc) in s.d.items(): s.R.check(ok,s.what+": "+w,loc or s.loc,detail=det)
    def prep(s,ids):
        def p(f):
            lf=f.loadf
            def loadf(b,o,kk,ev):
                if b[0]=="arg" and o==s.idoff and b[1] in ids and kk[3]=="i32":
                    if not fresh(kk[2]): raise Unknown("an allocator is read after it changed")
                    return ids[b[1]]
                return lf(b,o,kk,ev)
            f.loadf=loadf
        return p
    def one(s,vals,ids,target=None,dead=None,cx="",check=None):
        """every exit at this shape; target: array constructed here, dead: array destroyed here"""
        r=run(s.fl,s.lay,vals,ctor=CT,dtor=DT,prep=s.prep(ids))
        s.judge(r,vals,ids,target,dead,cx)
        if check: check(r)
        n=0
        for e in sites(s.fl):
            f=Fault(s.fl,s.lay,vals); s.prep(ids)(f)
            try: its=f.reached(e)
            except Unknown as x: s.note("every exit is understood",None,"%s: %s"%(cx,x),e.loc); continue
            pick=its if len(its)<=6 else its[:3]+its[len(its)//2:len(its)//2+1]+its[-2:]
            for it in pick:
                rr=run(s.fl,s.lay,vals,e,it,ctor=CT,dtor=DT,prep=s.prep(ids))
                if rr is None: continue
                n+=1
                q=re.sub(r"\(.*","",e.dem or e.name)
                s.judge(rr,vals,ids,target,dead,cx+", exception from %s%s"%({"vp_alloc":"the allocator"}.get(e.name,q)," in iteration %s"%(it,) if it else ""),e)
        return n
    def judge(s,r,vals,ids,target,dead,cx,site=None):
        f=r.f; note=s.note
        if r.kind is None: note("every exit is understood",None,cx); return
        if r.kind=="terminate": note("no exception ends the program",False,cx,site and site.loc); return
        esz=f.esz
        blocks={}; alive={}
        for k,v in enumerate(vals):
            if isinstance(v,Arr) and not v.null: blocks[("D",v.name)]=(ids[k],v.size)
        for p,i,n,e in r.allocs:
            if p is None or p[1]: note("every exit is understood",None,cx); return
            blocks[p[0]]=(i,n)
        alive=dict(blocks)
        for p,i,n,e in r.frees:
            if not p.b:
                if p.n==0: continue
                note("what is released is a block that was obtained",False,cx,e.loc); continue
            q=p.ptr()
            if q is None or q[0] not in blocks:
                note("what is released is a block that was obtained",None if q is None or q[0][0] not in("arg","D","call") else False,"%s: %s"%(cx,p),e.loc); continue
            if q[1]: note("what is released is a block that was obtained",False,"%s: not its start"%cx,e.loc); continue
            if q[0] not in alive: note("no block is released twice",False,cx,e.loc); continue
            bi,bn=alive.pop(q[0])
            note("a block is released by an allocator equal to the one it came from",bi==i,"%s: allocator %s instead of %s"%(cx,i,bi),e.loc)
            note("a block is released with the element count it was obtained with",bn==n,"%s: %s instead of %s"%(cx,n,bn),e.loc)
        # arrays alive where control leaves
        held={}
        if r.state is None: note("every exit is understood",None,cx); return
        arrays=[k for k,v in enumerate(vals) if (isinstance(v,Arr) and k!=dead) or (k==target and r.kind=="ret")]
        if r.f.site is not None and getattr(r,"implicit",False):
            for L,v in zip(r.f.site.loops,r.f.it.values()): f.env[L]=v
        try:
            for k in arrays:
                d=f.end(k,s.lay.d,"ptr",r.state); z=f.end(k,s.lay.z,"i64",r.state); i=f.end(k,s.idoff,"i32",r.state)
                who="the new array" if k==target else "array %s"%s.fl.f.args[k]["name"]
                if not d.b:
                    if d.n!=0: note("every array holds its own block or none",None,cx)
                    else: note("an array without storage has no elements",z.n==0 and not z.b,cx)
                    continue
                q=d.ptr()
                if q is None or q[0] not in blocks: note("every array holds its own block or none",None if q is None else False,"%s: %s holds %s"%(cx,who,d)); continue
                if q[0] not in alive: note("no array keeps a block which was released",False,"%s: %s"%(cx,who),site and site.loc); continue
                note("no array keeps a block which was released",True)
                note("every array holds its own block or none",q[0] not in held and q[1]==0,"%s: %s"%(cx,who),site and site.loc)
                held[q[0]]=k
                bi,bn=alive[q[0]]
                note("an array keeps an allocator able to release its block",i.n==bi and not i.b,"%s: %s"%(cx,who),site and site.loc)
                note("an array knows the element count of its block",z.n==bn and not z.b,"%s: %s says %s for %s"%(cx,who,z.n,bn),site and site.loc)
        except Unknown as x: note("every exit is understood",None,"%s: %s"%(cx,x))
        finally: f.env.clear()
        leak=[b for b in alive if b not in held]
        note("no block is lost",not leak,"%s: %s"%(cx,", ".join("the storage of "+b[1] if b[0]=="D" else "a block obtained here" for b in leak)),site and site.loc)
        # elements
        cnt={}
        for b,(i,n) in blocks.items():
            if b[0]=="D":
                for j in range(n): cnt[(b,j)]=1
        ev=sorted([(o,+1,p,e) for p,o,e in r.ctors]+[(o,-1,p,e) for p,o,e in r.dtors],key=lambda x:x[0])
        bad=None
        for o,w,p,e in ev:
            q=p.ptr()
            if q is None:
                if not p.b: note("elements come into being in storage only",False,"%s: %s"%(cx,p),e.loc)
                else: note("every element constructed is destroyed once, before its storage goes",None,cx)
                continue
            if q[0] not in blocks:
                continue
            j=q[1]//esz if q[1]%esz==0 else None
            n=blocks[q[0]][1]
            if j is None or not 0<=j<n: note("elements stay within their storage",False,"%s: entry %s of %s"%(cx,j,n),e.loc); continue
            cnt[(q[0],j)]=cnt.get((q[0],j),0)+w
        for (b,j),c in sorted(cnt.items(),key=repr):
            want=1 if b in held else 0
            if c!=want:
                note("every element constructed is destroyed once, before its storage goes",False,"%s: entry %d %s"%(cx,j,"destroyed without having been constructed" if c<0 else "not destroyed" if c>want else "missing"),site and site.loc); break
        else:
            full=all((b,j) in cnt for b in held for j in range(blocks[b][1]))
            note("every element constructed is destroyed once, before its storage goes",full,"%s: an entry was never constructed"%cx,site and site.loc)
def body(R):
    u=extract(lower(harness("marr_own.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^(vp::E\* )?vp::[tf]_\w+\(",))
    tot=0
    for P,tr in(("t","travelling allocator"),("f","staying allocator")):
        lays={}; idoffs={}
        for rk in(1,2):
            lays[rk]=Layout(u,rk,pre=r"(?:vp::E\* )?vp::%s_"%P)
            ids=u.flow(r"^vp::%s_id_%d\("%(P,rk)); k=ids.ret.single()
            if lays[rk].ok and k and k[0]=="load": idoffs[rk]=int((k[1]-var(("arg",0,ids.f.args[0]["name"],"ptr"))).cval())
        for q,el in(("e","copied elements"),("m","moved elements")):
            def case(n,what,rk=2):
                if rk not in idoffs: return None
                try: fl=u.flow(r"^vp::%s_%s%s\("%(P,n,q),exc=True); R.fn(fl.f)
                except NotBuilt: R.und("%s (%s, %s): does not compile for this type"%(what,el,tr)); return None
                loc=next((e.loc for e in fl.effects if e.loc and e.loc[0].endswith("marray.h")),(fl.f.file,fl.f.line))
                return Case(R,fl,lays[rk],idoffs[rk],"%s (%s, %s)"%(what,el,tr),loc)
            def go(c,gen):
                nonlocal tot
                if c is None: return
                try:
                    for a in gen(c): tot+=c.one(**a) or 0
                except Unknown as x: c.note("every exit is understood",None,str(x))
                c.done()
            go(case("mk","construction from a list of sizes"),lambda c:(dict(vals=["o",7,*s],ids={},target=0,cx="shape %s"%(s,)) for s in shapes()))
            go(case("mkc","construction from a container of sizes"),lambda c:(dict(vals=["o",7,*s],ids={},target=0,cx="shape %s"%(s,)) for s in shapes()))
            def rng(c):
                for s in shapes():
                    for dn in(0,1):
                        n=prod(s)+dn
                        yield dict(vals=["o",7,*s,"src",None],ids={},target=0,cx="shape %s, %d entries"%(s,n),n=n)
            c=case("mki","construction from a range")
            if c is not None:
                try:
                    for a in rng(c):
                        n=a.pop("n"); pr=c.prep
                        def prep(ids,n=n,pr=pr):
                            p0=pr(ids)
                            def p(f):
                                p0(f); e=f.A[-1]; b=f.A[-2]; f.vals[e]=None; lf=f.leaf
                                f.leaf=lambda k,ev:V(n*8,{b:1}) if k==e else lf(k,ev)
                            return p
                        c.prep=prep; tot+=c.one(**a) or 0; c.prep=pr
                except Unknown as x: c.note("every exit is understood",None,str(x))
                c.done()
            go(case("mkl","construction from nested lists",1),lambda c:(dict(vals=["o",7,s,"va","vb"],ids={},target=0,cx="size %d"%s) for s in(2,1,3,0)))
            go(case("cp","copy construction"),lambda c:(dict(vals=["o",Arr("a",s)],ids={1:5},target=0,cx="shape %s"%(s,)) for s in shapes()))
            def mv(c):
                for s in shapes(): yield dict(vals=["o",Arr("a",s)],ids={1:5},target=0,cx="shape %s"%(s,),check=lambda r:empty(c,r))
            go(case("mv","move construction"),mv)
            def two(c,same=False):
                for s in shapes():
                    for s2 in((2,2),(3,1),(0,2)):
                        for i,j in((5,5),(5,6)):
                            if same and i!=j: continue
                            yield dict(vals=[Arr("o",s2),Arr("a",s)],ids={0:i,1:j},cx="shape %s over %s, allocators %d and %d"%(s,s2,i,j))
            go(case("ca","copy assignment"),two)
            go(case("ma","move assignment"),two)
            go(case("sw","swapping"),lambda c:two(c,P=="f"))
            for d in(0,1):
                go(case("in%d"%d,"insertion along dimension %d"%d),lambda c:(dict(vals=[Arr("o",s),p,n,"val"],ids={0:5},cx="shape %s, %d before %d"%(s,n,p)) for s in shapes() for p in range(s[d]+1) for n in(0,1,2)))
                go(case("er%d"%d,"removal along dimension %d"%d),lambda c:(dict(vals=[Arr("o",s),p,n],ids={0:5},cx="shape %s, %d from %d"%(s,n,p)) for s in shapes() for p in range(s[d]) for n in range(s[d]-p+1)))
            go(case("rs","reshaping"),lambda c:(dict(vals=[Arr("o",(2,2)),n,m],ids={0:5},cx="to (%d, %d)"%(n,m)) for n,m in((4,1),(1,4),(3,1))))
            go(case("des","destruction"),lambda c:(dict(vals=[Arr("o",s,z)],ids={0:5},dead=0,cx="shape %s"%(s,)) for s in shapes() for z in((False,True) if not prod(s) else (False,))))
            for n,w in(("sca","copying an array to itself"),("sma","moving an array to itself")):
                c=case(n,w)
                if c is None: continue
                for e in c.fl.effects:
                    if e.kind in("ret","load","landingpad","lifetime"): continue
                    if e.kind in("store","wstore") and c.fl.root(e.addr) is not None and c.fl.root(e.addr)[0]=="alloca": continue
                    if e.kind in("store","wstore") and e.val==c.fl.load(State(),e.addr,e.sz,e.ty): continue
                    c.note("changes nothing",False if e.guard==T else None,"",e.loc); break
                else: c.note("changes nothing",True)
                c.done()
    R.scope("%d exits by an exception, each at one faulting call and iteration, at the listed shapes"%tot)
def empty(c,r):
    d=r.f.end(1,c.lay.d,"ptr"); z=r.f.end(1,c.lay.z,"i64")
    c.note("the source is left without storage and elements",d.n==0 and not d.b and z.n==0 and not z.b)
main("C15","effects of every marray operation on storage and elements, unwind edges included: for the normal exit and for an exception at each call that can throw, every block obtained or held is afterwards held by exactly one array whose allocator and size match it, or was released once with them, and exactly the constructed elements were destroyed",body)
