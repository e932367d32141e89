"""Contents of memory at a point of an operation, at one shape: the last of the extracted writes before it, as an
expression in the entries the arrays had at the start."""
from alg import *
from flow import *
from ev import *
from shape import *
class Mem(At):
    def __init__(s,fl,lay,vals,esz=8,**k):
        At.__init__(s,fl,lay,vals,esz); s.ord={id(e):n for n,e in enumerate(fl.effects)}
        s.lpos={}
        for n,e in enumerate(fl.effects):
            for L in e.loops: s.lpos.setdefault(L,n)
        s.lat={}
        for e in fl.effects:
            if e.kind=="load":
                k=e.val.single()
                if k and k[0]=="load": s.lat.setdefault(k,e)
        s.byw=None; s.depth=0; s.mum={}
    def time(s,e,env=None):
        env=s.env if env is None else env; t=[]
        for L in e.loops:
            if L not in env: raise Unknown("a value read in another loop")
            t+=[s.lpos[L],env[L]]
        return tuple(t+[s.ord[id(e)]])
    def counter(s,L):
        t=s.fl.loopinfo.get(L,{}).get("trip")
        if t is None: raise Unknown("a loop without closed form")
        return int(s.ev()(t))
    def leaf(s,k,ev):
        if k[0]=="lvx": return s.counter(k[1])
        if k[0]=="mu" and k[1] in s.env: return s.recur(k,lambda p: V(1 if s.ev().cond(p[1]) else 0) if isinstance(p,tuple) else s.ev().poly(p))
        return At.leaf(s,k,ev)
    def recur(s,k,f):
        """a value carried round a loop, without closed form: follow the recurrence"""
        L=k[1]; li=s.fl.loopinfo[L]; n=s.env[L]; key=(k,f is None,tuple(sorted((o,s.env[o]) for o in s.around(L))))
        nx,ini=(li.get("mnext",{}),li.get("minit",{})) if isinstance(k[2],tuple) else (li["next"],li["init"])
        if k[2] not in nx or k[2] not in ini: raise Unknown("mu")
        if key in s.mum: return s.mum[key]
        s.depth+=1
        if s.depth>400: raise Unknown("too deep")
        try:
            if n==0:
                del s.env[L]; r=f(ini[k[2]])
            else:
                s.env[L]=n-1; r=f(nx[k[2]])
            s.mum[key]=r; return r
        finally: s.env[L]=n; s.depth-=1
    def around(s,L):
        r=[]
        while L is not None:
            if L in s.env: r.append(L)
            L=s.fl.loopinfo[L].get("parent")
        return r
    # addresses and guards are evaluated with the entries unknown
    def all_writes(s):
        """{base: [(time, index, length, effect, env)]}"""
        if s.byw is not None: return s.byw
        s.byw={}
        sv=dict(s.env); s.env.clear()
        try:
            for e in s.fl.effects:
                if e.kind not in("store","wstore","memcpy","memset"): continue
                def f(ev):
                    p=ev.poly(e.addr if e.kind in("store","wstore") else e.dst).ptr()
                    if p is None: raise Unknown("a write through "+show(e.addr if e.kind in("store","wstore") else e.dst))
                    if isinstance(p[0],tuple) and p[0][0]=="alloca": return
                    n=e.sz if e.kind in("store","wstore") else int(ev(e.len))
                    if n==0: return
                    s.byw.setdefault(p[0],[]).append((s.time(e),p[1],n,e,dict(s.env)))
                s.each(e,f)
        except Unknown: s.byw=None; raise
        finally: s.env.clear(); s.env.update(sv)
        for l in s.byw.values(): l.sort(key=lambda x:x[0])
        return s.byw
    def initial(s,base,off):
        if off%s.esz: raise Unknown("part of an entry")
        i=int(off)//s.esz
        if isinstance(base,tuple) and base[0]=="D": return var(("entry",base[1],i))
        if isinstance(base,tuple) and base[0]=="arg" and isinstance(s.vals.get(base),str): return var(("entry",s.vals[base],i))
        return None
    def read(s,base,off,t,sz):
        """what is at base+off before time t"""
        s.depth+=1
        if s.depth>200: raise Unknown("too deep")
        try:
            last=None
            for w in s.all_writes().get(base,()):
                if t is not None and w[0]>=t: break
                if w[1]<off+sz and off<w[1]+w[2]: last=w
            if last is None:
                r=s.initial(base,off)
                if r is None: raise Unknown("read of unset storage")
                return r
            tm,o,n,e,env=last
            if e.kind in("store","wstore"):
                if o!=off or n!=sz: raise Unknown("part of an entry")
                return s.value(e.val,e,env)
            if e.kind=="memset":
                if not e.val.isconst() or e.val.cval(): raise Unknown("a fill")
                return ZERO
            sv=dict(s.env); s.env.clear(); s.env.update(env)
            try: q=s.ev().poly(e.src).ptr()
            finally: s.env.clear(); s.env.update(sv)
            if q is None: raise Unknown("a copy")
            return s.read(q[0],q[1]+off-o,tm,sz)
        finally: s.depth-=1
    def value(s,p,e,env):
        """a value used by effect e in iteration env, as an expression in initial entries"""
        sv=dict(s.env); s.env.clear(); s.env.update(env)
        try:
            ev=s.ev(); t0=s.time(e,env)
            def am(k):
                if k[0]=="load":
                    pt=ev.poly(k[1]).ptr()
                    if pt is None: raise Unknown("load through "+show(k[1]))
                    h=None
                    if k[3] in("i64","i32","ptr"):
                        try: h=s.loadf(pt[0],pt[1],k,ev)
                        except Unknown: h=None
                        if isinstance(h,(int,Fraction)): return const(h)
                        if isinstance(h,V) and not h.b: return const(h.n)
                    le=s.lat.get(k)
                    if fresh(k[2]) and not (isinstance(pt[0],tuple) and pt[0][0]=="call"):
                        r=s.initial(pt[0],pt[1])
                        if r is not None: return r
                    if le is None: raise Unknown("a read whose place is unknown")
                    return s.read(pt[0],pt[1],s.time(le,env),{"double":8,"i64":8,"ptr":8,"i32":4,"float":4}.get(k[3],8))
                if k[0]=="ite": return rw.poly(k[2] if s.ccond(k[1],ev) else k[3])
                if k[0]=="lv" or k[0]=="lvx": return const(ev.at(atom(k)).num())
                if k in s.vals:
                    v=s.vals[k]
                    if isinstance(v,str) and k[3]!="ptr": return var(("entry",v,0))
                    if isinstance(v,(int,Fraction)): return const(v)
                if k[0]=="mu":
                    if k[3]=="ptr" or k[3][0]=="i": v=ev.at(atom(k)); return const(v.n) if not v.b else None
                    raise Unknown("a recurrence without closed form")
                return None
            rw=Rewriter(am)
            return rw.poly(p)
        finally: s.env.clear(); s.env.update(sv)
    def ccond(s,c,ev): return ev.cond(c)
    def condf(s,k,ev):
        return None
    def ev(s):
        def callf(k,ev):
            if k[1] in("bcmp","memcmp"): return s.cmpmem(k,ev)
            return None
        return Ev(loadf=s.loadf,leaf=s.leaf,call=callf,condf=s.condf)
    def cmpmem(s,k,ev):
        e=next((e for e in s.fl.effects if e.kind=="call" and e.name==k[1] and e.ret.single()==k),None)
        if e is None or e.loops: return None
        n=ev(e.args[2]); r=0
        if n%8: return None
        for w in range(int(n)//8):
            a,b=[ev(s.fl.at_call(e,e.args[x]+const(8*w),8,"i64")) for x in(0,1)]
            if a!=b: return 1
        return 0
    def entries(s,base,n,t=None):
        return [s.read(base,k*s.esz,t,s.esz) for k in range(n)]
