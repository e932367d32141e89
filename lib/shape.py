"""The extracted closed forms of an array operation, evaluated at a shape: what the arrays are afterwards, and which
entry each new entry comes from.  Addresses are polynomials in the extents and loop counters, so agreement on a
grid of shapes larger than their degree is agreement everywhere."""
from alg import *
from flow import *
from ev import *
class Layout:
    def __init__(s,u,rk,pre="vp::"):
        ext=u.flow(r"^%sext_%d\("%(pre,rk)); sz=u.flow(r"^%ssize_%d\("%(pre,rk)); dt=u.flow(r"^%sdata_%d\("%(pre,rk))
        def off(fl,ty):
            k=fl.ret.single()
            if not k or k[0]!="load" or k[3]!=ty: return None
            return k[1]-var(("arg",0,fl.f.args[0]["name"],"ptr"))
        e=off(ext,"i64"); z=off(sz,"i64"); d=off(dt,"ptr"); dim=var(("arg",1,ext.f.args[1]["name"],"i64"))
        s.rk=rk; s.ok=None not in(e,z,d) and (e-dim.scale(8)).isconst() and z.isconst() and d.isconst()
        if s.ok: s.e,s.z,s.d=[int(x.cval()) for x in((e-dim.scale(8)),z,d)]
def prod(l):
    r=1
    for x in l: r*=x
    return r
class Arr:
    """an array before the operation: extents, and storage whose entries are (name,k)"""
    def __init__(s,name,ext,null=False): s.name=name; s.ext=tuple(ext); s.size=prod(ext); s.null=null
class At:
    """one shape: leaf values of a flow"""
    def __init__(s,fl,lay,vals,esz=8):
        """vals: per argument a number, an Arr, or a name for a scalar kept symbolic / an input pointer"""
        s.fl=fl; s.lay=lay; s.esz=esz; s.env={}; s.stale=None
        s.A=[("arg",k,a["name"],a["ty"]) for k,a in enumerate(fl.f.args)]
        s.vals=dict(zip(s.A,vals)); s.ev_=None
    def loadf(s,b,o,k,ev):
        v=s.vals.get(b); L=s.lay
        if isinstance(v,tuple) and v[0]=="lay": L,v=v[1],v[2]
        if isinstance(v,Arr):
            if not fresh(k[2]): raise Unknown("a header is read after it changed")
            if L.e<=o<L.e+8*L.rk and (o-L.e)%8==0: return v.ext[int(o-L.e)//8]
            if o==L.z: return v.size
            if o==L.d: return V(0) if v.null else V(0,{("D",v.name):1})
            return None
        if isinstance(b,tuple) and b and b[0]=="D":
            if not fresh(k[2]): raise Unknown("an entry is read after it may have changed")
            if o%s.esz: return None
            return V(0,{("entry",b[1],o//s.esz):1})
        if isinstance(v,str):
            if o%s.esz: return None
            return V(0,{("entry",v,o//s.esz):1})
        return None
    def leaf(s,k,ev):
        if k[0]=="lv":
            if k[1] in s.env: return s.env[k[1]]
            raise Unknown("a loop counter outside its loop")
        if k in s.vals:
            v=s.vals[k]
            if isinstance(v,(int,Fraction,float)): return v
            if isinstance(v,str): return V(0,{k:1}) if k[3]=="ptr" else V(0,{("entry",v,0):1})
        return None
    def ev(s):
        return Ev(loadf=s.loadf,leaf=s.leaf)
    def each(s,e,f,limit=4000):
        """f(ev) for each iteration in which effect e happens"""
        n=[0]
        def rec(ls):
            if not ls:
                n[0]+=1
                if n[0]>limit: raise Unknown("too many iterations")
                ev=s.ev()
                if ev.cond(e.guard): f(ev)
                return
            t=s.fl.loopinfo.get(ls[0],{}).get("trip")
            if t is None: raise Unknown("a loop without closed form")
            c=s.ev()(t)
            if c!=int(c): raise Unknown("trip count")
            if c>limit: raise Unknown("too many iterations")
            for x in range(max(0,int(c))):
                s.env[ls[0]]=x; rec(ls[1:])
            s.env.pop(ls[0],None)
        rec(list(e.loops))
    def writes(s,base):
        """entries written through pointers based on base: {index: (value key, effect)}; None value = undecided overlap"""
        out={}; E=s.esz
        for n,e in enumerate(s.fl.effects):
            if e.kind not in("store","wstore","memcpy","memset"): continue
            def put(i,v):
                o=out.get(i)
                if o is not None and o[0]!=v and e.loops and o[1].loops and e is not o[1] and set(e.loops)&set(o[1].loops): raise Unknown("interleaved writes")
                out[i]=(v,e)
            if e.kind in("store","wstore"):
                def f(ev):
                    p=ev.poly(e.addr).ptr()
                    if p is None: raise Unknown("a store through "+show(e.addr))
                    if p[0]!=base: return
                    if e.sz!=E or p[1]%E: raise Unknown("a partial write")
                    try: v=ev.poly(e.val).key()
                    except Unknown: v=("?",)
                    put(p[1]//E,v)
            elif e.kind=="memset":
                def f(ev):
                    p=ev.poly(e.dst).ptr()
                    if p is None or p[0]!=base: return
                    n_=ev(e.len)
                    if n_%E or p[1]%E or not e.val.isconst() or e.val.cval(): raise Unknown("a partial fill")
                    for i in range(int(n_)//E): put(p[1]//E+i,V(0).key())
            else:
                def f(ev):
                    p=ev.poly(e.dst).ptr()
                    if p is None: raise Unknown("a copy to "+show(e.dst))
                    if p[0]!=base: return
                    q=ev.poly(e.src).ptr(); n_=ev(e.len)
                    if q is None or n_%E or p[1]%E or q[1]%E: raise Unknown("a partial copy")
                    for i in range(int(n_)//E):
                        nm=q[0][1] if q[0][0]=="D" else s.vals.get(q[0])
                        put(p[1]//E+i,V(0,{("entry",nm,q[1]//E+i):1}).key())
            s.each(e,f)
        return out
    def end(s,arg,off,ty,st=None):
        """a member at return"""
        fl=s.fl
        return s.ev().poly(fl.load(st or fl.endstate,var(s.A[arg])+const(off),{"i32":4,"i8":1,"i16":2}.get(ty,8),ty))
    def header(s,arg,lay=None):
        L=lay or s.lay
        return [s.end(arg,L.e+8*i,"i64") for i in range(L.rk)],s.end(arg,L.z,"i64"),s.end(arg,L.d,"ptr")
def fresh(ver): return ver==0 or ver is None
