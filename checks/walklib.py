"""What a function does to files and tables, read off its extracted effects in program order: library calls are given
their documented meaning on abstract objects (strings, arrays, splines, shared pointers, maps, files), everything else
is the extracted value graph."""
from common import *
from alg import *
from flow import *
from nsq import *
from ev import Ev,V,Unknown
import re,math
from fractions import Fraction as Q
class Refused(Exception): pass
class Arr:
    """array: extents and entries (row major)"""
    def __init__(s,ext,vals): s.ext=list(ext); s.vals=list(vals)
    def copy(s): return Arr(s.ext,s.vals)
class Vec(Arr):
    def __init__(s,vals=()): s.ext=[len(vals)]; s.vals=list(vals)
    def copy(s): return Vec(s.vals)
class Spline:
    def __init__(s,x,y): s.x=list(x); s.y=list(y)
    def copy(s): return Spline(s.x,s.y)
class Bicubic:
    def __init__(s,d,x,y): s.d=d.copy(); s.x=x.copy(); s.y=y.copy()
    def copy(s): return Bicubic(s.d,s.x,s.y)
class Ptr:
    def __init__(s,to=None): s.to=to      # to: V or None
    def copy(s): return Ptr(s.to)
class Pair:
    def __init__(s,a,b): s.a=a; s.b=b
    def copy(s): return Pair(s.a,cp(s.b))
class Refs:
    """tuple of references: addresses"""
    def __init__(s,*A): s.A=A
    def copy(s): return s
class Tup:
    def __init__(s,*A): s.A=A
    def copy(s): return Tup(*[cp(a) for a in s.A])
class Map:
    def __init__(s,pairs=()): s.d=dict(pairs); s.order=list(s.d)
    def copy(s): return Map([(k,cp(s.d[k])) for k in s.order])
class Hand:
    """a handle on something in a file"""
    def __init__(s,path): s.path=path
    def copy(s): return s
class Stream:
    def __init__(s,name,ok): s.name=name; s.ok=ok; s.prec=6; s.rows=[[]]; s.fmt=False
    def copy(s): return s
def cp(o): return o.copy() if hasattr(o,"copy") else o
STRING=r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
class World:
    """files: name -> contents.  Text: rows of numbers (None: cannot be opened).  Stored: {path: Arr | number}, aliases."""
    def __init__(s): s.text={}; s.out={}; s.h5={}; s.alias={}; s.unopenable=False; s.closed={}; s.written=[]
    def real(s,path):
        while path in s.alias: path=s.alias[path]
        p=path.rsplit("/",1)
        if len(p)==2 and p[0] and p[0]!=path:
            q=s.real(p[0])
            if q!=p[0]: return s.real(q+"/"+p[1])
        return path
    def has(s,path):
        path=s.real(path); return path in s.h5 or any(k.startswith(path+"/") for k in s.h5)
class Walk:
    def __init__(s,u,fl,world,obj=None,args=None,leaf=None,limit=400):
        s.u=u; s.fl=fl; s.w=world; s.obj=obj if obj is not None else {}; s.args=args or {}; s.xleaf=leaf; s.env={}; s.mu={}; s.lvx={}; s.res={}; s.cells={}; s.n=0; s.heap={}; s.limit=limit; s.issues=[]; s.trace=[]
        s.nid=0; s.exitof={}
        s.ev=s.mk()
    def mk(s,base=None):
        e=Ev(leaf=s.leaf,call=s.callv,condf=s.condv)
        if base is not None: e.m=dict(base.m); e.cm=dict(base.cm)
        return e
    def condv(s,k,ev):
        if k[0]=="nan":
            try: v=ev(k[1])
            except Unknown: return None
            return isinstance(v,float) and math.isnan(v)
        if k[0] in("feq","eq"):
            try: v=ev.poly(k[1])
            except Unknown: return None
            if v.b or not isinstance(v.n,float) or not math.isnan(v.n): return None
            # two infinities compare equal, their difference is not a number
            a,b=ZERO,ZERO
            for m,c in k[1].t.items():
                t=const(c)
                for x,e in m:
                    for _ in range(e): t=t*var(akey(x))
                if c<0: b=b-t
                else: a=a+t
            return ev(a)==ev(b)
        if k[0]=="exit":
            if k[1] not in s.exitof: raise Unknown("loop not run")
            return s.exitof[k[1]]==k[2]
        return None
    def fresh(s,kind):
        s.nid+=1; return (kind,s.nid)
    # ---- values
    def leaf(s,k,ev):
        if s.xleaf:
            r=s.xleaf(k,ev)
            if r is not None: return r
        if k[0]=="lv":
            if k[1] in s.env: return V(s.env[k[1]])
            raise Unknown("loop variable outside its loop")
        if k[0]=="lvx":
            if k[1] in s.lvx: return V(s.lvx[k[1]])
            raise Unknown("loop not run")
        if k[0]=="mu":
            r=s.mu.get((k[1],k[2]))
            if r is None: raise Unknown("recurrence")
            return r
        if k[0]=="fconst": return V(float(k[1].replace("-nan","nan")))
        if k[0]=="inv":
            v=ev(k[1])
            if v==0: return V(float("inf"))
            return None
        if k[0]=="arg" and k[1] in s.args: return s.args[k[1]]
        if k[0]=="toint":
            v=ev(k[1])
            if isinstance(v,float) and (math.isnan(v) or math.isinf(v)): raise Unknown("conversion of "+str(v))
            return V(math.trunc(v))
        if k[0]=="load": return s.load(ev.poly(k[1]),k[3],k)
        return None
    def load(s,a,ty,k):
        pt=a.ptr()
        if pt is None:
            if not a.b: raise Unknown("null pointer read")
            raise Unknown("load through several pointers")
        b,off=pt
        if (b,off) in s.cells: return s.cells[(b,off)]
        if b[0]=="data":
            o=s.heap[b]; i=Q(off)/getattr(o,"width",8)
            if i.denominator!=1 or not 0<=i<len(o.vals): s.issues.append("entry %s of %d read"%(i,len(o.vals))); raise Unknown("entry outside the array")
            v=o.vals[int(i)]
            if v is None: raise Unknown("entry never set")
            return V(v)
        if b[0]=="node":
            m,key=b[1],b[2]; v=m.d[key]
            if off==8: return V(key)
            o=s.obj.get((b,16))
            if o is None and off==16 and isinstance(v,Ptr): return v.to if v.to is not None else V(0)
        for (bb,oo),o in s.obj.items():
            if bb!=b or not oo<=off: continue
            j=off-oo
            if isinstance(o,Vec):
                if j==0: return V(0,{s.data(o):1})
                if j==8: return V(getattr(o,"width",8)*len(o.vals),{s.data(o):1})
            elif isinstance(o,Arr):
                R=len(o.ext)
                if 0<=j<8*R: return V(o.ext[int(j)//8])
                if j==8*R: return V(math.prod(o.ext))
                if j in(8*R+8,8*R): return V(0,{s.data(o):1})
            elif isinstance(o,Ptr) and j==0: return o.to if o.to is not None else V(0)
            elif isinstance(o,Pair) and j==0: return V(o.a)
            elif isinstance(o,Map) and 24<=j<=32: return V(len(o.d))
            elif isinstance(o,(Stream,)) and j==0: return V(0,{("vtable",):1})
        if b==("vtable",): return V(0)       # the stream's virtual base is taken to be the stream itself
        if b[0]=="g":
            v=s.fl.gload(b[1],const(off),ty) if Q(off).denominator==1 else None
            if v is not None: return s.ev.poly(v)
        if ty=="ptr": return V(0,{k:1})
        raise Unknown("load "+show(k[1]))
    def data(s,o):
        for d,x in s.heap.items():
            if x is o: return d
        d=s.fresh("data"); s.heap[d]=o; return d
    def callv(s,k,ev):
        i=k[3] if len(k)>3 else None
        if i is not None and i in s.res: return s.res[i]
        n=k[1]
        if n in("log10","exp10","log2","exp2","cbrt","log","exp","sqrt"):
            x=float(ev(k[2][0]))
            if n=="exp10": return V(10.0**x)
            if n=="exp2": return V(2.0**x)
            if n.startswith("log") and x<=0: return V(float("-inf") if x==0 else float("nan"))
            return V(getattr(math,n)(x))
        if n=="pow":
            a,b=(float(ev(x)) for x in k[2])
            try: return V(a**b)
            except (OverflowError,ZeroDivisionError): return V(float("inf"))
        if n in("fmin","fmax"): return V((min if n=="fmin" else max)(ev(k[2][0]),ev(k[2][1])))
        if n in("llvm.is.fpclass",) : return None
        return None
    # ---- running
    def run(s):
        """('returned',) | ('refused', effect)"""
        try:
            s.block(list(s.fl.effects),0)
            if not s.ev.cond(s.fl.retguard): return ("refused",None)
            return ("returned",)
        except Refused as x: return ("refused",x.args[0] if x.args else None)
    def block(s,effs,d):
        i=0
        while i<len(effs):
            e=effs[i]
            if len(e.loops)<=d: s.step(e); i+=1; continue
            L=e.loops[d]; j=i
            while j<len(effs) and len(effs[j].loops)>d and effs[j].loops[d]==L: j+=1
            s.loop(L,effs[i:j],d); i=j
    def loop(s,L,effs,d):
        li=s.fl.loopinfo[L]; outer=s.ev
        ent=li.get("entry")
        if ent is not None and not outer.cond(ent): return
        t=li.get("trip"); n=None
        if t is not None and len(li["exits"])<=1:
            c=outer(t); n=max(0,int(c))
        mus=[(k,li.get("init",{}).get(k),li.get("next",{}).get(k)) for k in li.get("next",{})]+[(k,li.get("minit",{}).get(k),li.get("mnext",{}).get(k)) for k in li.get("mnext",{})]
        def val(p,ev):
            try: return None if p is None else V(1 if ev.cond(p[1]) else 0) if isinstance(p,tuple) else ev.poly(p)
            except Unknown: return None
        new={k:val(a,outer) for k,a,b in mus}
        i=0
        while n is None or i<n:
            if i>s.limit: raise Unknown("loop does not end")
            s.env[L]=i
            for k,v in new.items(): s.mu[(L,k)]=v
            s.ev=s.mk(outer)
            s.block(effs,d+1)
            if n is None:
                x=[k for k,(_,_,g) in enumerate(li["exits"]) if s.ev.cond(g)]
                if x: s.exitof[L]=x[0]; break
            it=s.ev
            new={k:val(b,it) for k,a,b in mus}
            i+=1
        if n is not None:
            for k,v in new.items(): s.mu[(L,k)]=v
        s.lvx[L]=i; s.env.pop(L,None); s.ev=outer
    def step(s,e):
        s.n+=1
        if s.n>200000: raise Unknown("too long")
        if e.kind=="load":
            try:
                if s.ev.cond(e.guard): s.ev.poly(e.val)
            except (Unknown,ZeroDivisionError): pass
            return
        if e.kind in("store","wstore"):
            if not s.ev.cond(e.guard): return
            if e.addr is None: raise Unknown("store")
            a=s.ev.poly(e.addr).ptr()
            if a is None:
                z=s.ev.poly(e.addr)
                if not z.b and 0<=z.num()<4096 and hasattr(s,"names"): s.names.append("(null)")
                raise Unknown("store through "+show(e.addr))
            try: v=s.ev.poly(e.val) if e.val is not None else None
            except Unknown: v=None
            b,off=a
            if b[0]=="data":
                o=s.heap[b]; i=Q(off)/getattr(o,"width",8)
                if i.denominator!=1 or not 0<=i<len(o.vals): s.issues.append("entry %s of %d written"%(i,len(o.vals))); return
                o.vals[int(i)]=v.n if v is not None and not v.b else None
            elif v is not None: s.cells[(b,off)]=v
            else: s.cells.pop((b,off),None)
            return
        if e.kind=="throw":
            if s.ev.cond(e.guard): raise Refused(e)
            return
        if e.kind in("memcpy","memset"):
            if s.ev.cond(e.guard): s.blockop(e)
            return
        if e.kind=="call":
            if not s.ev.cond(e.guard): return
            s.ev.m.pop(None,None)
            r=s.call(e)
            if r is not None: s.res[e.i["id"]]=r if isinstance(r,V) else V(r)
    def blockop(s,e):
        if e.kind=="memset": return
        # objects copied bytewise
        try:
            d,x=s.ev.poly(e.dst).ptr(),s.ev.poly(e.src).ptr(); n=int(s.ev(e.len))
        except (Unknown,AttributeError,TypeError): return
        if d is None or x is None: return
        if x[0][0]=="data" and d[0][0]=="data":
            a,b=s.heap[x[0]],s.heap[d[0]]
            for i in range(n//8): b.vals[int(d[1])//8+i]=a.vals[int(x[1])//8+i]
            return
        for (b,o),v in list(s.cells.items()):
            if b==x[0] and x[1]<=o<x[1]+n: s.cells[(d[0],d[1]+o-x[1])]=v
        for (b,o),v in list(s.obj.items()):
            if b==x[0] and x[1]<=o<x[1]+n: s.obj[(d[0],d[1]+o-x[1])]=cp(v)
    # ---- objects at addresses
    def A(s,e,i):
        p=s.ev.poly(e.args[i]).ptr()
        if p is None: raise Unknown("object "+show(e.args[i]))
        return p
    def O(s,e,i,kind=None):
        a=s.A(e,i); o=s.obj.get(a)
        if o is None and a[0][0]=="node" and a[1]==16: o=a[0][1].d[a[0][2]]
        if o is None and a[0][0]=="slot": o=a[0][1].d.get(a[0][2])
        if o is None or (kind and not isinstance(o,kind)): raise Unknown("%s: what %s holds"%((e.dem or e.name)[:60],show(e.args[i])[:40]))
        return o
    def put(s,a,o):
        if a[0][0]=="slot": a[0][1].d[a[0][2]]=o; return
        if a[0][0]=="node" and a[1]==16: a[0][1].d[a[0][2]]=o; return
        s.obj[a]=o
    def text(s,e,i):
        """text of a string object or of a pointer to characters"""
        k=e.args[i].single()
        if k and k[0]=="g":
            g=s.u.G.get(k[1])
            if g and g.get("str") is not None: return g["str"]
        v=s.ev.poly(e.args[i]); p=v.ptr()
        if p and p[0][0]=="chars": return p[0][1]
        if p and p[0][0]=="g":
            g=s.u.G.get(p[0][1])
            if g and g.get("str") is not None: return g["str"]
        return s.O(e,i,str)
    def mem(s,e,a,sz=4,ty="i32"):
        """number in memory at the argument of a call"""
        p=s.ev.poly(a).ptr()
        if p is not None and p in s.cells: return s.cells[p].num()
        if p is not None and p in s.obj and isinstance(s.obj[p],Pair): return s.obj[p].a
        v=s.fl.at_call(e,a,sz,ty)
        return s.ev(v)
    def stream(s,e,i):
        v=s.ev.poly(e.args[i]); p=v.ptr()
        if p is not None and p in s.obj and isinstance(s.obj[p],Stream): return s.obj[p]
        if p is not None and p[0][0]=="stream": return p[0][1]
        raise Unknown("stream "+show(e.args[i])[:60])
    # ---- the library
    def call(s,e):
        d=e.dem or e.name or ""
        for rx,f in MODELS:
            if rx.match(d):
                r=f(s,e,d)
                if r is not NO: return r
        if e.noreturn: raise Refused(e)
        s.trace.append(d)
        return None
NO=object()
MODELS=[]
def model(rx):
    def dec(f): MODELS.append((re.compile(rx.replace("STR",re.escape("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"))),f)); return f
    return dec
# ---- strings
@model(r"(STR::basic_string\(|STR::basic_string<.*>\()")
def _(s,e,d):
    a=s.A(e,0)
    if len(e.args)==1: s.put(a,""); return
    try: s.put(a,s.text(e,1))
    except Unknown: s.obj.pop(a,None)
@model(r"STR::(operator=|assign)\(")
def _(s,e,d):
    try: s.put(s.A(e,0),s.text(e,1))
    except Unknown: s.obj.pop(s.A(e,0),None)
    return s.ev.poly(e.args[0])
@model(r"STR::(operator\+=|append)\(")
def _(s,e,d):
    s.put(s.A(e,0),s.O(e,0,str)+s.text(e,1)); return s.ev.poly(e.args[0])
@model(r"STR std::operator\+<")
def _(s,e,d):
    try: s.put(s.A(e,0),s.text(e,1)+s.text(e,2))
    except Unknown: s.obj.pop(s.A(e,0),None)
@model(r"STR std::(__cxx11::)?to_string|std::__cxx11::to_string\(|std::to_string\(")
def _(s,e,d): s.put(s.A(e,0),"#")
@model(r"STR::(c_str|data)\(")
def _(s,e,d): return V(0,{("chars",s.O(e,0,str)):1})
@model(r"STR::~basic_string|.*::~[A-Za-z_]*\(\)$")
def _(s,e,d): 
    m=re.match(r"nusquids::H5(File|Handle)::~",d)
    if m:
        o=s.obj.get(s.A(e,0))
        if o is not None: s.w.closed[id(o)]=True
# ---- streams
@model(r"std::basic_ofstream<.*>::basic_ofstream\(STR|std::basic_ofstream<.*>::basic_ofstream\(char const")
def _(s,e,d):
    n=s.text(e,1); st=Stream(n,not(s.w.unopenable and n.endswith(s.w.unopenable))); s.put(s.A(e,0),st); s.w.out[n]=st
@model(r"std::basic_ofstream<.*>::open\(")
def _(s,e,d):
    n=s.text(e,1); st=Stream(n,not(s.w.unopenable and n.endswith(s.w.unopenable))); s.put(s.A(e,0),st); s.w.out[n]=st
@model(r"std::basic_ofstream<.*>::basic_ofstream\(\)")
def _(s,e,d): s.put(s.A(e,0),Stream(None,True))
@model(r"std::basic_ios<.*>::(operator!|fail|bad)\(")
def _(s,e,d): return V(0 if s.stream(e,0).ok else 1)
@model(r"std::basic_ios<.*>::(operator bool|good)\(|std::basic_ofstream<.*>::is_open\(")
def _(s,e,d): return V(1 if s.stream(e,0).ok else 0)
@model(r"std::ios_base::precision\(long\)")
def _(s,e,d):
    st=s.stream(e,0); o=st.prec; st.prec=int(s.ev(e.args[1])); return V(o)
@model(r"std::ostream& std::ostream::_M_insert<(double|long double|long|unsigned long|bool)>\(|std::ostream::operator<<\((double|float|int|unsigned int|long|unsigned long|short|unsigned short)\)")
def _(s,e,d):
    st=s.stream(e,0); v=s.ev(e.args[1]); st.rows[-1].append((v,st.prec if "double" in d or "float" in d else 99)); return V(0,{("stream",st):1})
@model(r".*std::operator<<<.*\(std::basic_ostream<.*>&, char(?! const)|std::ostream::put\(|std::basic_ostream<.*>::put\(")
def _(s,e,d):
    st=s.stream(e,0); c=int(s.ev(e.args[1])); chars(st,chr(c&255)); return V(0,{("stream",st):1})
@model(r".*std::operator<<<.*\(std::basic_ostream<.*>&, char const\*\)|.*std::operator<<<.*\(std::basic_ostream<.*>&, STR const&\)")
def _(s,e,d):
    st=s.stream(e,0); chars(st,s.text(e,1)); return V(0,{("stream",st):1})
@model(r".*std::endl<|std::basic_ostream<.*>::flush\(|.*std::__ostream_insert")
def _(s,e,d):
    if "insert" in d:
        st=s.stream(e,0); chars(st,s.text(e,1)); return V(0,{("stream",st):1})
    st=s.stream(e,0)
    if "endl" in d: chars(st,"\n")
    return V(0,{("stream",st):1})
@model(r"std::basic_ostream<.*>::operator<<\(|std::ostream::operator<<\(")
def _(s,e,d):
    st=s.stream(e,0); k=e.args[1].single(); n=k[1] if k and k[0]=="g" else ""
    if "endl" in n: chars(st,"\n")
    elif "flush" in n: pass
    elif "scientific" in n: st.fmt="sci"
    else: raise Unknown("written to a stream: "+(n or show(e.args[1])[:40]))
    return V(0,{("stream",st):1})
@model(r".*std::operator<<<.*\(std::basic_ostream<.*>&, std::_Setprecision\)")
def _(s,e,d):
    st=s.stream(e,0); st.prec=int(s.ev(e.args[1]))&0xffffffff; return V(0,{("stream",st):1})
def chars(st,t):
    for c in t:
        if c=="\n": st.rows.append([])
        elif c.isspace(): st.rows[-1].append(None)
        else: st.rows[-1].append("other:"+c)
def rows(st):
    """numbers per line, or a reason why they cannot be told apart"""
    out=[]
    for r in st.rows:
        line=[]; sep=True
        for x in r:
            if x is None: sep=True
            elif isinstance(x,str): return None,"text %r between the numbers"%x[6:]
            else:
                if not sep: return None,"numbers run together"
                line.append(x); sep=False
        if line: out.append(line)
    return out,None
# ---- arrays
@model(r"nusquids::marray<double, (\d+)u.*>::(marray|operator=)[<(]|nusquids::marray<.*>& nusquids::marray<.*>::operator=")
def _(s,e,d):
    m=re.match(r"nusquids::marray<double, (\d+)u",d) or re.search(r"marray<double, (\d+)u",d)
    R=int(m.group(1)); a=s.A(e,0)
    if len(e.args)>=2:
        o=s.obj.get(s.ev.poly(e.args[1]).ptr()) if s.ev.poly(e.args[1]).ptr() else None
        if o is None and s.ev.poly(e.args[1]).ptr():
            try: o=s.O(e,1)
            except Unknown: o=None
        if isinstance(o,Arr) and not isinstance(o,Vec):
            s.put(a,o.copy()); return s.ev.poly(e.args[0])
    if re.search(r"::operator=",d): raise Unknown("array assignment")
    x=extents(s,e,R)
    if x is None: s.put(a,Arr([0]*R,[])); return
    s.put(a,Arr(x,[None]*math.prod(x)))
def extents(s,e,R):
    """extents given by a vector object or an initializer list"""
    for i in range(1,len(e.args)):
        try: p=s.ev.poly(e.args[i]).ptr()
        except Unknown: continue
        if p is None: continue
        o=s.obj.get(p)
        if isinstance(o,Vec) and len(o.vals)==R: return [int(x) for x in o.vals]
        try:
            n=int(s.ev(e.args[i+1])) if i+1<len(e.args) else None
        except Unknown: n=None
        if n==R:
            try: return [int(s.mem(e,e.args[i]+const(8*j),8,"i64")) for j in range(R)]
            except Unknown: continue
    return None
@model(r"(.* )?nusquids::marray<double, (\d+)u.*>::resize[<(]")
def _(s,e,d):
    R=int(re.search(r"marray<double, (\d+)u",d).group(1)); m=re.search(r"::resize(<.*>)?\(unsigned (int|long), unsigned (int|long)\)",d)
    o=s.O(e,0,Arr)
    if m: raise Unknown("resize of one extent")
    x=extents(s,e,R)
    if x is None: raise Unknown("new extents of an array")
    s.put(s.A(e,0),Arr(x,[None]*math.prod(x)))
# ---- vectors
@model(r"std::vector<(double|unsigned long|float).*>::(vector|operator=|assign)\(")
def _(s,e,d):
    a=s.A(e,0)
    if len(e.args)<3 and "vector()" in d: s.put(a,Vec()); return
    try: p=s.ev.poly(e.args[1]).ptr()
    except Unknown: p=None
    o=s.obj.get(p) if p else None
    if isinstance(o,Vec): s.put(a,o.copy()); return s.ev.poly(e.args[0])
    try: n=int(s.ev(e.args[2])) if len(e.args)>2 else None
    except Unknown: n=None
    if p is not None and n is not None and "initializer_list" in d:
        s.put(a,Vec([s.mem(e,e.args[1]+const(8*j),8,"double" if "<double" in d else "i64") for j in range(n)])); return s.ev.poly(e.args[0])
    try: n=int(s.ev(e.args[1]))
    except Unknown: n=None
    if n is not None and "vector(unsigned long" in d: s.put(a,Vec([0]*n)); return
    s.put(a,Vec())
@model(r"std::vector<(double|unsigned long|float).*>::(push_back|emplace_back)[<(]|.*std::vector<(double|unsigned long|float).*>::emplace_back<")
def _(s,e,d):
    o=s.O(e,0,Vec); p=s.ev.poly(e.args[1]).ptr()
    try: o.vals.append(s.mem(e,e.args[1],8,"double"))
    except Unknown: o.vals.append(None)
    o.ext=[len(o.vals)]
@model(r"std::vector<(double|unsigned long|float).*>::(reserve|shrink_to_fit)\(")
def _(s,e,d): return None
@model(r"std::vector<(double|unsigned long|float).*>::resize\(")
def _(s,e,d):
    o=s.O(e,0,Vec); n=int(s.ev(e.args[1])); o.vals=(o.vals+[0]*n)[:n]; o.ext=[n]
@model(r"std::vector<(double|unsigned long|float).*>::(size)\(")
def _(s,e,d): return V(len(s.O(e,0,Vec).vals))
@model(r"std::vector<(double|unsigned long|float).*>::(operator\[\]|at)\(")
def _(s,e,d): return V(8*s.ev(e.args[1]),{s.data(s.O(e,0,Vec)):1})
@model(r"std::vector<(double|unsigned long|float).*>::(data|begin|front|cbegin)\(")
def _(s,e,d): return V(0,{s.data(s.O(e,0,Vec)):1})
@model(r"std::vector<(double|unsigned long|float).*>::(end|cend)\(")
def _(s,e,d): o=s.O(e,0,Vec); return V(getattr(o,"width",8)*len(o.vals),{s.data(o):1})
@model(r"std::vector<(double|unsigned long|float).*>::(back)\(")
def _(s,e,d): o=s.O(e,0,Vec); return V(8*len(o.vals)-8,{s.data(o):1})
# ---- interpolators
@model(r"nusquids::(AkimaSpline|BiCubicInterpolator)::operator=")
def _(s,e,d): s.put(s.A(e,0),cp(s.O(e,1))); return s.ev.poly(e.args[0])
@model(r"nusquids::(AkimaSpline|BiCubicInterpolator)::(AkimaSpline|BiCubicInterpolator)\((nusquids::\2( const)?&&?)?\)")
def _(s,e,d):
    if len(e.args)==1: s.obj.pop(s.A(e,0),None); return
    s.put(s.A(e,0),cp(s.O(e,1)))
@model(r"nusquids::AkimaSpline::AkimaSpline\(")
def _(s,e,d):
    def seq(i):
        p=s.ev.poly(e.args[i]).ptr()
        if p is None: raise Unknown("spline of "+show(e.args[i]))
        if p[0][0]=="data": 
            o=s.heap[p[0]]; k=int(p[1])//8; return o.vals[k:]
        return s.O(e,i,Arr).vals
    x,y=seq(1),seq(2); n=min(len(x),len(y))
    if len(e.args)>3 and "double const*" in d: 
        n=int(s.ev(e.args[3]))
        if n>len(x) or n>len(y): s.issues.append("a spline of %d points is built from %d and %d numbers"%(n,len(x),len(y)))
    elif len(x)!=len(y): s.issues.append("a spline is built from %d abscissas and %d ordinates"%(len(x),len(y)))
    if any(v is None for v in x[:n]+y[:n]): raise Unknown("spline of unknown numbers")
    s.put(s.A(e,0),Spline(x[:n],y[:n]))
@model(r"nusquids::BiCubicInterpolator::BiCubicInterpolator\(nusquids::marray")
def _(s,e,d):
    t,x,y=s.O(e,1,Arr),s.O(e,2,Arr),s.O(e,3,Arr)
    if t.ext!=[y.ext[0],x.ext[0]]: raise Refused(e)
    s.put(s.A(e,0),Bicubic(t,x,y))
@model(r"nusquids::AkimaSpline::(getAbscissas|getOrdinates)\(")
def _(s,e,d):
    o=s.O(e,1,Spline); v=o.x if "Absc" in d else o.y; s.put(s.A(e,0),Arr([len(v)],v))
@model(r"nusquids::BiCubicInterpolator::(getXCoords|getYCoords|getData)\(")
def _(s,e,d):
    o=s.O(e,len(e.args)-1,Bicubic); r=o.x if "XC" in d else o.y if "YC" in d else o.d
    if len(e.args)>1: s.put(s.A(e,0),r.copy()); return
    a=s.fresh("part"); s.obj[(a,0)]=r; return V(0,{a:1})
# ---- pointers
@model(r"std::shared_ptr<std::enable_if<.*make_shared|.*std::make_shared<")
def _(s,e,d):
    a=s.fresh("made"); s.put(s.A(e,0),Ptr(V(0,{a:1})))
def pointee(s,e,i=0):
    return s.O(e,i,Ptr).to
@model(r"std::(__)?shared_ptr(_access)?<.*>::(operator\*|operator->|get|_M_get)\(")
def _(s,e,d):
    t=pointee(s,e); return t if t is not None else V(0)
@model(r"std::(__)?shared_ptr<.*>::operator bool\(")
def _(s,e,d): return V(0 if pointee(s,e) is None else 1)
@model(r"std::(__)?shared_ptr<.*>::(operator=|shared_ptr|__shared_ptr)[<(]|(.* )?std::shared_ptr<.*>::operator=")
def _(s,e,d):
    if len(e.args)==1: s.put(s.A(e,0),Ptr()); return
    p=s.ev.poly(e.args[1]).ptr()
    if p is None: s.put(s.A(e,0),Ptr()); return
    s.put(s.A(e,0),Ptr(s.O(e,1,Ptr).to)); return s.ev.poly(e.args[0])
@model(r"(bool )?std::operator(==|!=)<.*shared_ptr<")
def _(s,e,d):
    a,b=s.O(e,0,Ptr).to,s.O(e,1,Ptr).to
    r=(a.key() if a else None)==(b.key() if b else None); return V(int(r==("operator==" in d)))
# ---- maps keyed by an enumeration
MAP=r"std::(unordered_map|map)<nusquids::[A-Za-z:]*(NeutrinoFlavor|PDGCode), "
def node(m,key): return V(0,{("node",m,key):1})
@model(MAP+r".*>::(find|count|at|operator\[\])\(")
def _(s,e,d):
    f=re.search(r">::(find|count|at|operator\[\])\(",d).group(1); m=s.O(e,0,Map); k=int(s.mem(e,e.args[1]))
    if f=="count": return V(int(k in m.d))
    if f=="operator[]":
        if k not in m.d: m.d[k]=Ptr(); m.order.append(k)
        return V(0,{("slot",m,k):1})
    if k not in m.d:
        if f=="at": raise Refused(e)
        return V(0)
    return V(0,{("slot",m,k):1}) if f=="at" else node(m,k)
@model(MAP+r".*>::(end|cend)\(")
def _(s,e,d): return V(0)
@model(MAP+r".*>::(begin|cbegin)\(|std::_Hashtable<nusquids::.*>::(begin|cbegin|_M_begin)\(")
def _(s,e,d):
    m=s.O(e,0,Map); return node(m,m.order[0]) if m.order else V(0)
@model(MAP+r".*>::(size)\(")
def _(s,e,d): return V(len(s.O(e,0,Map).d))
@model(MAP+r".*>::unordered_map\(std::initializer_list|"+MAP+r".*>::map\(std::initializer_list")
def _(s,e,d):
    n=int(s.ev(e.args[2])); a=s.A(e,1); L=[]; P=sorted((o,x) for (b,o),x in s.obj.items() if b==a[0] and isinstance(x,Pair) and o>=a[1])
    if len(P)<n: raise Unknown("contents of a map")
    m=Map([(int(x.a),cp(x.b)) for o,x in P[:n]])
    s.put(s.A(e,0),m)
@model(r"std::pair<nusquids::[A-Za-z:]*(NeutrinoFlavor|PDGCode)( const)?, .*>::pair[<(]")
def _(s,e,d):
    if len(e.args)==2: s.put(s.A(e,0),cp(pairof(s,e,1))); return
    k=s.mem(e,e.args[1])
    try: b=s.text(e,2)
    except Unknown: b=cp(s.O(e,2))
    s.put(s.A(e,0),Pair(k,b))
def pairof(s,e,i):
    a=s.A(e,i)
    if a[0][0]=="node" and a[1]==8: return Pair(a[0][2],a[0][1].d[a[0][2]])
    return s.O(e,i,Pair)
@model(r"std::__detail::_Node_iterator(_base)?<.*>::(operator\*|operator->)\(|std::__detail::_Node_const_iterator<.*>::(operator\*|operator->)\(")
def _(s,e,d):
    p=itnode(s,e,0); return V(8,{p:1})
def itnode(s,e,i):
    """node an iterator object points to"""
    a=s.A(e,i)
    v=s.cells.get(a)
    if v is None: v=s.ev.poly(s.fl.at_call(e,e.args[i],8,"ptr"))
    p=v.ptr()
    if p is None or p[0][0]!="node": raise Unknown("iterator")
    return p[0]
@model(r"std::__detail::_Node_(const_)?iterator(_base)?<.*>::(operator\+\+|_M_incr)\(")
def _(s,e,d):
    n=itnode(s,e,0); m,k=n[1],n[2]; i=m.order.index(k); s.cells[s.A(e,0)]=node(m,m.order[i+1]) if i+1<len(m.order) else V(0); return s.ev.poly(e.args[0])
@model(r"(bool )?std::__detail::operator(==|!=)\(std::__detail::_Node_iterator")
def _(s,e,d):
    def nd(i):
        try: p=s.ev.poly(e.args[i]).ptr()
        except Unknown: p=None
        v=s.cells.get(p) if p else None
        if v is None: v=s.ev.poly(s.fl.at_call(e,e.args[i],8,"ptr"))
        return v.key()
    return V(int((nd(0)==nd(1))==("operator==" in d)))
# ---- tuples
@model(r"std::tuple<.*&>::tuple<.*>\(|std::tuple<.*&>::tuple\(")
def _(s,e,d): s.put(s.A(e,0),Refs(*[s.A(e,i) for i in range(1,len(e.args))]))
@model(r".*std::tuple<.*&>::operator=<|std::enable_if<__assignable<")
def _(s,e,d):
    r=s.O(e,0,Refs); a=s.A(e,1); o=pairof(s,e,1) if a not in s.obj or isinstance(s.obj[a],Pair) else s.obj[a]
    L=[o.a,o.b] if isinstance(o,Pair) else list(o.A)
    if len(L)!=len(r.A): raise Unknown("tuple assignment")
    for t,v in zip(r.A,L):
        if v is None: raise Unknown("tuple element")
        if isinstance(v,(int,float,Q)): s.cells[t]=V(v)
        elif isinstance(v,V): s.cells[t]=v
        else: s.put(t,cp(v))
    return s.ev.poly(e.args[0])
@model(r"(.* )?std::make_tuple<|std::tuple<.*>::tuple<.*>\(|std::tuple<.*>::tuple\(")
def _(s,e,d):
    m=[]
    for i in range(1,len(e.args)):
        try: m.append(cp(s.O(e,i)))
        except Unknown:
            m.append(V(s.mem(e,e.args[i],8,"double")))
    s.put(s.A(e,0),Tup(*m))
# ---- files
@model(r"nusquids::fexists\(")
def _(s,e,d): return V(int(s.text(e,0) in s.w.text or s.text(e,0) in s.w.files if hasattr(s.w,"files") else s.text(e,0) in s.w.text))
@model(r"nusquids::quickread\(")
def _(s,e,d):
    n=s.text(e,1); r=s.w.text.get(n)
    s.w.reads=getattr(s.w,"reads",[])+[n]
    if r is None: raise Refused(e)
    s.put(s.A(e,0),Arr([len(r),len(r[0]) if r else 0],[x for l in r for x in l]))
@model(r"nusquids::(log|lin)space\(double, double, unsigned int\)")
def _(s,e,d):
    a,b=float(s.ev(e.args[1])),float(s.ev(e.args[2])); n=int(s.ev(e.args[3]))
    if "logspace" in d: v=[math.exp(math.log(a)+(math.log(b)-math.log(a))*i/(n-1)) if n>1 else a for i in range(n)]
    else: v=[a+(b-a)*i/(n-1) if n>1 else a for i in range(n)]
    s.put(s.A(e,0),Arr([n],v))
@model(r"nusquids::NeutrinoDISCrossSectionsFromTables::isHDF\(")
def _(s,e,d): return V(0)
@model(r"H5(F(open|create)|G(open|create)2?)$")
def _(s,e,d):
    if d.startswith("H5F"): p=""
    else:
        p=idpath(s,e,0)+"/"+s.text(e,1)
        if "open" in d and not s.w.has(p): return V(-1)
        if "create" in d: s.w.groups=getattr(s.w,"groups",set())|{p}
    return V(0,{("h5",p):1})
def idpath(s,e,i):
    p=s.ev.poly(e.args[i]).ptr()
    if p is None or p[0][0]!="h5": raise Unknown("location in a file: "+show(e.args[i])[:50])
    return p[0][1]
@model(r"nusquids::H5(File|Handle)::H5(File|Handle)\(long")
def _(s,e,d):
    try: p=s.ev.poly(e.args[1]).ptr()
    except Unknown: p=None
    if p is None or p[0][0]!="h5": 
        k=e.args[1].single()
        if k and k[0]=="call" and re.match("H5[PST]",k[1]): s.put(s.A(e,0),Hand(None)); return
        v=s.ev.poly(e.args[1])
        if not v.b and v.n<0: raise Refused(e)
        raise Unknown("handle")
    s.put(s.A(e,0),Hand(p[0][1]))
@model(r"nusquids::H5(File|Handle)::(operator long|get)\(")
def _(s,e,d):
    o=s.O(e,0,Hand)
    return V(0,{("h5",o.path):1}) if o.path is not None else V(0,{("h5prop",):1})
@model(r"nusquids::h5ObjectExists\(")
def _(s,e,d): return V(int(s.w.has(idpath(s,e,0)+"/"+s.text(e,1))))
@model(r"void nusquids::readArrayH5<(.*), (\d+)u")
def _(s,e,d):
    p=s.w.real(idpath(s,e,0)+"/"+s.text(e,1)); R=int(re.match(r"void nusquids::readArrayH5<.*?, (\d+)u",d).group(1)); o=s.w.h5.get(p)
    if not isinstance(o,Arr) or len(o.ext)!=R: raise Refused(e)
    s.put(s.A(e,2),o.copy())
@model(r"void nusquids::writeArrayH5<")
def _(s,e,d):
    p=idpath(s,e,0)+"/"+s.text(e,1)
    if s.w.real(p) in s.w.h5: s.issues.append("%s is written twice"%p)
    s.w.h5[s.w.real(p)]=s.O(e,2,Arr).copy(); s.w.written.append(p)
    m=re.match(r"void nusquids::writeArrayH5<(\w+)",d); s.w.stored=getattr(s.w,"stored",{}); s.w.stored[p]=m.group(1)
@model(r"(void |herr_t |int )?nusquids::readH5Attribute[<(]")
def _(s,e,d):
    p=idpath(s,e,0)+"@"+s.text(e,1); o=s.w.h5.get(p)
    if o is None: raise Refused(e)
    s.cells[s.A(e,2)]=V(o)
@model(r"(void |herr_t |int )?nusquids::addH5Attribute[<(]")
def _(s,e,d):
    p=idpath(s,e,0)+"@"+s.text(e,1)
    try: v=s.ev(e.args[2])
    except Unknown: v=s.mem(e,e.args[2],8,"double")
    s.w.h5[p]=v; s.w.written.append(p)
@model(r"H5Lcreate_hard$|H5Lcreate_soft$")
def _(s,e,d):
    a,b=idpath(s,e,0)+"/"+s.text(e,1),idpath(s,e,2)+"/"+s.text(e,3)
    if s.w.has(b): s.issues.append("%s is linked though it exists"%b)
    if not s.w.has(a): return V(-1)
    s.w.alias[b]=a; s.w.written.append(b); return V(0)
@model(r"H5Lget_info[0-9]?$")
def _(s,e,d):
    p=idpath(s,e,0)+"/"+s.text(e,1)
    if not s.w.has(p): return V(-1)
    a=s.A(e,2); r=s.w.real(p)
    for o in range(0,48,4): s.cells[(a[0],a[1]+o)]=V(0)
    ids=s.w.__dict__.setdefault("ids",{}); n=ids.setdefault(r,1000+len(ids))
    for o in range(16,40,8): s.cells[(a[0],a[1]+o)]=V(n)
    return V(0)
@model(r"H5Otoken_cmp$")
def _(s,e,d): return NO
@model(r"H5(open|check_version|Pcreate|Pset_.*|Eset_auto.*|.close)$")
def _(s,e,d): return V(0)
@model(r"(.* )?std::(forward|move|get|tie|__addressof|addressof)<")
def _(s,e,d): return s.ev.poly(e.args[0]) if len(e.args)==1 else NO
