"""Bodies and tracks: members by name, vectors by what they hold, splines by what they were built from."""
from common import *
from h5lib import *
from alg import *
from flow import *
from nsq import *
import re
VEC=r"std::vector<double, std::allocator<double>>"
SP=r"(.*\s)?std::(enable_if<.*::type std::)?(shared_ptr|__shared_ptr|__shared_count|_Sp_[a-z_]*|__allocated_ptr|__shared_ptr_access)(<.*>)?::.*"
BODY="nusquids::Body"
def unit(roots=()):
    bc=lower(harness("body.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    u=extract(bc,roots=(r"nusquids::[A-Za-z0-9_:]*::(Serialize|Deserialize|density|ye|FillDerivedParams|GetName\[.*|IsConstantDensity)\(.*",r"nusquids::[A-Za-z0-9_:]*::GetName\[.*",r"vp::.*",r"__cxx_global_var_init.*",r"_GLOBAL__.*",
        r"nusquids::(detail::register|Get(Body|Track)Deser).*")+tuple(roots),
        noinline=(r".*nusquids::(add|read|write)(H5Attribute|ArrayH5).*",r"nusquids::AkimaSpline::.*",r"nusquids::detail::register.*",r"nusquids::(quickread|getResourcePath|GetBodyDeserializer|GetTrackDeserializer).*"),
        inline=(r".*std::(make_shared|allocate_shared)<.*",SP),layouts=True)
    return u
# ---------------------------------------------------------------- memory of vectors and splines
def vec_model(fl,i,args,g,st,e):
    """a member function of a vector changes that vector only"""
    a=args[0]; r=fl.root(a)
    if r is None: return "generic"
    off=a-var(r)
    if not off.isconst(): return "generic"
    o=st.get(r).copy(); k=off.cval()
    if "~vector" in (i.get("dem") or ""): return None
    for x in [x for x,(cs,_) in o.cells.items() if x<k+24 and k<x+cs]: del o.cells[x]
    for j in range(3):
        o.cells[k+8*j]=(8,var(("load",a+const(8*j),("c",i["id"]),"ptr")))
    st.put(r,o)
    if i.get("ty") not in(None,"void"): return var(("call",i.get("callee"),tuple(args),i["id"],i["ty"]))
    return None
def quiet(fl,i,args,g,st,e):
    if i.get("ty") not in(None,"void"): return var(("call",i.get("callee"),tuple(args),i["id"],i["ty"]))
    return None
def elements(fl,i,args,g,st,e):
    """an algorithm on [first,last) of a vector: its elements change"""
    return "generic"
MODELS=((r"^(void )?"+VEC+r"::(~?vector|resize|push_back|emplace_back|operator=|assign|clear|reserve|swap|insert|shrink_to_fit|_M_[a-z_]*)(<.*>)?\(",vec_model),
        (r"^nusquids::AkimaSpline::(~?AkimaSpline|operator=)\(",quiet))
def flow(u,rx): return u.flow(rx,exc=False,models=MODELS)
def classes(u):
    """kinds: everything with both Serialize and Deserialize"""
    S={}; D={}
    for d in u.fns:
        m=re.match(r"(nusquids::[A-Za-z0-9_:]+)::Serialize\(long\) const$",d)
        if m: S[m.group(1)]=d
        m=re.match(r"(nusquids::[A-Za-z0-9_:]+)::Deserialize\(long\)$",d)
        if m: D[m.group(1)]=d
    return sorted(set(S)&set(D))
class Member:
    def __init__(s,name,off,type,size): s.name=name; s.off=off; s.type=type; s.size=size
    def kind(s):
        t=s.type.replace("const ","").replace(" const","").strip()
        if t=="double": return "double"
        if t in("unsigned int","int"): return "i32"
        if t in("unsigned long","long"): return "i64"
        if t=="bool": return "bool"
        if re.match(VEC+"$",t): return "vec"
        if t=="nusquids::AkimaSpline": return "spline"
        return None
def members(u,K,base=0):
    l=u.layouts.get(K)
    if l is None: return None
    out=[]
    for m in l["members"]:
        if m["inh"]:
            x=members(u,m["type"],base+m["off"])
            if x is None: return None
            out+=x
        elif not m["name"].startswith("_vptr"): out.append(Member(m["name"],base+m["off"],m["type"],m["size"]))
    return out
def literal(u,p):
    k=p.single()
    if k and k[0]=="g":
        g=u.G.get(k[1]); return g.get("str") if g else None
    return None
class View:
    """one function on the paths that return normally; vectors and splines resolved"""
    def __init__(s,u,fl,norm=None):
        s.u=u; s.fl=fl; s.S=fl.retguard; s.calls=[e for e in fl.effects if e.kind=="call" and band(e.guard,s.S)!=F]
        s.order={id(e):n for n,e in enumerate(fl.effects)}; s.norm=norm or (lambda p:p); s.st=fl.endstate
        s.byid={e.i["id"]:e for e in s.calls if e.i is not None}
    def u_(s,p): return s.norm(under(p,s.S))
    # -- strings
    def text(s,p,depth=0):
        """the literal a character pointer or string object denotes"""
        if depth>8: return None
        t=literal(s.u,p)
        if t is not None: return t
        k=p.single()
        if k is None: return None
        if k[0]=="call":
            e=next((e for e in s.calls if e.ret is not None and e.ret==p),None)
            if e is not None and e.dem and re.search(r"basic_string<.*>::(c_str|data)\(",e.dem): return s.text(e.args[0],depth+1)
            return None
        if k[0]=="alloca":
            W=[e for e in s.calls if e.args and e.args[0]==p and e.dem and not re.search(r"~basic_string|::(c_str|data|size|length|empty)\(",e.dem)]
            if len(W)!=1 or len(W[0].args)<2: 
                return None
            b=W[0].dem
            if re.search(r"::basic_string(<.*>)?\(char const\*",b) or re.search(r"::basic_string\(std::.*basic_string<",b): return s.text(W[0].args[1],depth+1)
            m=re.match(r"(nusquids::[A-Za-z0-9_:]+::GetName)\[abi:cxx11\]\(\)",b)
            if m: return name_of(s.u,m.group(1))
        return None
    # -- vectors
    def begin(s,a,at=None):
        st=at.state if at is not None else s.st
        return s.load(a,8,"ptr",at)
    def load(s,a,sz,ty,at=None):
        v=s.fl.at_call(at,a,sz,ty) if at is not None else s.fl.load(s.st,a,sz,ty)
        return under(v,s.S)
    def holder(s,p,depth=0):
        """what the array beginning at p is: ('own',addr,id) made by call id, ('at',addr) at entry"""
        k=p.single()
        if k is None or k[0]!="load" or depth>8: return None
        if isinstance(k[2],tuple) and k[2] and k[2][0]=="c" and k[2][1] in s.byid:
            e=s.byid[k[2][1]]
            if e.dem and re.search(r"vector<.*>::(vector|operator=)\(std::vector<.*const&",e.dem) and e.args[0]==k[1]:
                return s.holder(s.load(e.args[1],8,"ptr",e),depth+1)
            if e.dem and re.search(r"vector<.*>::vector\(unsigned long",e.dem) and e.args[0]==k[1]: return ("new",p,e)
            return ("by",p,e)
        if k[2]==0: return ("in",k[1])
        return None
def name_of(u,getname):
    """the text a GetName function returns"""
    r=[f for d,f in u.fns.items() if d.startswith(getname+"[abi:cxx11](")]
    if len(r)!=1: return None
    fl=u.flow_of(r[0])
    for e in fl.effects:
        if e.kind=="call" and e.dem and re.search(r"::basic_string(<.*>)?\(char const\*",e.dem) and e.args[0]==var(("arg",0,fl.f.args[0]["name"],"ptr")): return literal(u,e.args[1])
    return None
# ---------------------------------------------------------------- files
KTYPE={"H5T_NATIVE_DOUBLE_g":"double","H5T_IEEE_F64LE_g":"double","H5T_IEEE_F64BE_g":"double","H5T_NATIVE_UINT_g":"i32","H5T_NATIVE_INT_g":"i32","H5T_STD_U32LE_g":"i32","H5T_STD_I32LE_g":"i32",
       "H5T_STD_U32BE_g":"i32","H5T_STD_I32BE_g":"i32","H5T_NATIVE_UINT32_g":"i32","H5T_NATIVE_FLOAT_g":"float","H5T_IEEE_F32LE_g":"float","H5T_NATIVE_LDOUBLE_g":"long double","H5T_STD_U64LE_g":"i64","H5T_STD_I64LE_g":"i64",
       "H5T_NATIVE_ULONG_g":"i64","H5T_NATIVE_LONG_g":"i64","H5T_NATIVE_HSIZE_g":"i64","H5T_STD_U8LE_g":"i8","H5T_STD_I8LE_g":"i8","H5T_NATIVE_UCHAR_g":"i8","H5T_NATIVE_CHAR_g":"i8","H5T_NATIVE_HBOOL_g":"i8",
       "H5T_NATIVE_SHORT_g":"i16","H5T_NATIVE_USHORT_g":"i16","H5T_STD_I16LE_g":"i16","H5T_STD_U16LE_g":"i16"}
WIDTH={"float":4,"double":8,"i8":1,"i16":2,"i32":4,"i64":8,"long double":16}
CTYPE={"double":"double","float":"float","unsigned int":"i32","int":"i32","bool":"i8","unsigned char":"i8","char":"i8","unsigned long":"i64","long":"i64","unsigned short":"i16","short":"i16"}
def htype(p):
    k=p.single()
    if k and k[0]=="load":
        g=k[1].single()
        if g and g[0]=="g": return KTYPE.get(g[1],"?"+g[1])
    return None
class Entry:
    def __init__(s,name,kind,val,e,ftype=None,dim=None): s.name=name; s.kind=kind; s.val=val; s.e=e; s.ftype=ftype; s.dim=dim
class Odd(Exception): pass
def group_arg(v,fl,e):
    return True if v.u_(e)==var(("arg",fl.f_group,fl.f.args[fl.f_group]["name"],fl.f.args[fl.f_group]["ty"])) else None
def attr_type(dem):
    """template argument of an attribute helper"""
    m=re.search(r"H5Attribute<(.*?)>\(",dem)
    if m: return m.group(1)
    pts,_=split_params(dem)
    return re.sub(r" const&|&$","",pts[2]).strip() if pts and len(pts)>2 else None
def writes(v,g):
    """entries stored under the group; Odd when something is stored in a way not understood"""
    out=[]
    for e in v.calls:
        b=base_name(e.dem or e.name or "")
        if e.name and re.match(r"H5(Dwrite|LTset|LTmake_dataset\b|Gcreate|Lcreate|Ocopy|PT|TB|IM)",e.name) and e.name!="H5LTmake_dataset": raise Odd("stored by "+e.name)
        if e.name=="H5Awrite":
            a=next((c for c in v.calls if c.ret is not None and c.ret==v.u_(e.args[0])),None)
            if a is None or a.name not in("H5Acreate2","H5Acreate1"): raise Odd("which attribute is written")
            if v.u_(a.args[0])!=g: raise Odd("object of an attribute")
            n=v.text(v.u_(a.args[1]))
            t=htype(e.args[1])
            if t is None or t[0]=="?" : raise Odd("type of attribute %s"%n)
            if n is None: raise Odd("name of an attribute")
            out.append(Entry(n,t,v.load(e.args[2],WIDTH[t],t if t in("double","i32","i64","i16","i8","float") else "double",e),e,ftype=htype(a.args[2])))
        elif re.search(r"addH5Attribute$",b) or re.search(r"addH5Attribute<",e.dem or ""):
            if v.u_(e.args[0])!=g: raise Odd("object of an attribute")
            n=v.text(e.args[1])
            if n is None: raise Odd("name of an attribute")
            t=attr_type(e.dem)
            if t and "basic_string" in t: out.append(Entry(n,"string",e.args[2],e)); continue
            if t not in CTYPE: raise Odd("type of attribute %s"%n)
            t=CTYPE[t]; out.append(Entry(n,t,v.load(e.args[2],WIDTH[t],t,e),e,ftype=t))
        elif e.name and re.match(r"H5LTmake_dataset",e.name):
            if v.u_(e.args[0])!=g: raise Odd("group of a dataset")
            n=v.text(v.u_(e.args[1]))
            if n is None: raise Odd("name of a dataset")
            gen=e.name=="H5LTmake_dataset"
            t={"double":"double","float":"float","int":"i32","long":"i64"}.get(e.name[len("H5LTmake_dataset_"):]) if not gen else htype(e.args[4])
            if not v.u_(e.args[2]).isconst(): raise Odd("rank of dataset %s"%n)
            rk=int(v.u_(e.args[2]).cval())
            out.append(Entry(n,("array",t,rk),v.u_(e.args[5 if gen else 4]),e,dim=[v.load(e.args[3]+const(8*k),8,"i64",e) for k in range(rk)]))
        elif re.search(r"writeArrayH5",b): raise Odd("stored by writeArrayH5")
    return out
class Reader(View):
    """a reconstruction: values in terms of what is stored under which name"""
    def __init__(s,u,fl,g,names):
        s.g=g; s.names=names; s.reads=[]; s.probes={}; s.odd=None
        View.__init__(s,u,fl)
        s.bufs={}; s.arr={}
        for e in s.calls:
            b=base_name(e.dem or e.name or "")
            if e.name in("H5Aread",):
                a=next((c for c in s.calls if c.ret is not None and c.ret==under(e.args[0],s.S)),None)
                if a is None or a.name not in("H5Aopen","H5Aopen_name"): raise Odd("which attribute is read")
                if under(a.args[0],s.S)!=g: raise Odd("object of an attribute")
                n=s.text(under(a.args[1],s.S)); t=htype(e.args[1])
                if n is None: raise Odd("name of an attribute read")
                if t is None or t[0]=="?": raise Odd("type of attribute %s"%n)
                s.bufs[e.i["id"]]=(e.args[2],n,t); s.reads.append((n,t,e))
            elif re.search(r"readH5Attribute",b):
                if under(e.args[0],s.S)!=g: raise Odd("object of an attribute")
                n=s.text(e.args[1]); t=attr_type(e.dem)
                if n is None: raise Odd("name of an attribute read")
                if t and "basic_string" in t: s.reads.append((n,"string",e)); continue
                if t not in CTYPE: raise Odd("type of attribute %s"%n)
                s.bufs[e.i["id"]]=(e.args[2],n,CTYPE[t]); s.reads.append((n,CTYPE[t],e))
            elif re.search(r"readArrayH5",b):
                if under(e.args[0],s.S)!=g: raise Odd("group of a dataset")
                n=s.text(under(e.args[1],s.S))
                if n is None: raise Odd("name of a dataset read")
                m=re.search(r"marray<(\w+), ?(\d+)",e.dem)
                s.arr[e.i["id"]]=(e.args[2],n); s.reads.append((n,("array",CTYPE.get(m.group(1)) if m else None,int(m.group(2)) if m else None),e))
            elif e.name and re.match(r"H5LTread_dataset",e.name):
                if under(e.args[0],s.S)!=g: raise Odd("group of a dataset")
                n=s.text(under(e.args[1],s.S))
                if n is None: raise Odd("name of a dataset read")
                t={"double":"double","float":"float","int":"i32","long":"i64"}.get(e.name[len("H5LTread_dataset_"):]) if e.name!="H5LTread_dataset" else htype(e.args[2])
                s.reads.append((n,("array",t,1),e)); s.bufs[e.i["id"]]=(under(e.args[-1],s.S),n,("array",t))
            elif e.name in("H5Aexists","H5Aexists_by_name","H5Lexists","H5LTfind_attribute","H5LTfind_dataset"):
                k=2 if e.name=="H5Aexists_by_name" else 1
                n=s.text(under(e.args[k],s.S))
                if under(e.args[0],s.S)!=g or n is None: raise Odd("what is looked for")
                s.probes[e.i["id"]]=n
            elif e.name and re.match(r"H5(Dread|LTget|PT|TB|IM|Gopen)",e.name): raise Odd("read by "+e.name)
        s.fillof={}
        s.memo={}
        # the round trip: everything that was stored is there
        def am(k):
            if k[0]=="call" and len(k)>3 and k[3] in s.probes: return ONE if s.probes[k[3]] in s.names else ZERO
            return None
        s.there=Rewriter(am)
        s.S=s.there.cond(s.S)
        s.calls=[e for e in s.calls if band(s.there.cond(e.guard),s.S)!=F]
        s.reads=[r for r in s.reads if r[2] in s.calls]
        s.rw=Rewriter(s.am)
        s.norm=lambda p: s.rw.poly(p)
    def load(s,a,sz,ty,at=None):
        v=s.fl.at_call(at,a,sz,ty) if at is not None else s.fl.load(s.st,a,sz,ty)
        return under(s.there.poly(v) if hasattr(s,"there") else v,s.S)
    def at(s,p): return under(s.rw.poly(under(s.there.poly(p),s.S)),s.S)
    def am(s,k):
        if k[0]!="load": return None
        v=k[2]
        if isinstance(v,tuple) and v and v[0]=="c" and v[1] in s.bufs:
            a,n,t=s.bufs[v[1]]
            if k[1]==a and not isinstance(t,tuple): return var(("tok",n))
        if k[3]=="ptr":
            b=s.vector(k)
            if b is not None: return b
        if k[3]!="ptr":
            a=s.rw.poly(k[1])
            for q in a.atoms():
                x=akey(q)
                if x[0]=="vec" and a.t.get(((q,1),))==1:
                    off=a-var(x)
                    if x[1][0]=="ds": return var(("elt",x[1],off.scale(Fraction(1,8))))
        return None
    def vector(s,k):
        """pointers into vectors"""
        v=k[2]
        if isinstance(v,tuple) and v and v[0]=="c" and v[1] in s.byid:
            e=s.byid[v[1]]
            if not e.dem or not re.match(r"(void )?"+VEC,e.dem): return None
            for j in(0,8,16):
                if k[1]==e.args[0]+const(j):
                    h=s.source(var(("load",e.args[0],v,"ptr")),s.order[id(e)])
                    if h is None: return None
                    tok,n=h
                    return var(("vec",tok))+(const(8)*n if j==8 else ZERO) if j<16 else None
        return None
    def source(s,p,before=None,depth=0):
        """(token, length) of the array beginning at p (a load atom), as of effect number before"""
        k=p.single()
        if k is None or depth>8: return None
        e=s.byid.get(k[2][1]) if isinstance(k[2],tuple) else None
        if e is None: return None
        d=e.dem or ""
        if re.search(r"vector<.*>::vector\(std::vector<",d) or re.search(r"vector<.*>::operator=\(std::vector<",d):
            q=under(s.there.poly(s.fl.at_call(e,e.args[1],8,"ptr")),s.S)
            h=s.source(q,s.order[id(e)],depth+1)
            return h
        if re.search(r"vector<.*>::vector\(unsigned long",d) or re.search(r"vector<.*>::resize\(unsigned long",d):
            key=(p,before)
            t=s.filled(p,before,s.order[id(e)])
            n=s.rw.poly(under(s.there.poly(e.args[1]),s.S))
            if t is None: t=("raw",e.i["id"])
            return t,n
        return ("raw",e.i["id"]),var(("len",e.i["id"]))
    def filled(s,p,before,after):
        """dataset the array at p was filled from; None when it was not, or not as a whole"""
        W=[]
        for e in s.fl.effects:
            n=s.order[id(e)]
            if n<=after or band(s.there.cond(e.guard),s.S)==F: continue
            if e.kind=="store":
                if e.root is not None and var(e.root)==p: W.append(e)
            elif e.kind=="memcpy":
                if s.fl.root(e.dst) is not None and var(s.fl.root(e.dst))==p: W.append(e)
            elif e.kind=="call" and e.i is not None and e.i["id"] in s.bufs and isinstance(s.bufs[e.i["id"]][2],tuple) and under(e.args[-1],s.S)==p: W.append(e)
        if not W: return None
        if len(W)!=1: raise Odd("an array is filled in several steps")
        e=W[0]
        if before is not None and s.order[id(e)]>before: return ("late",)
        if e.kind=="call": return ("ds",s.bufs[e.i["id"]][1])
        src=None
        if e.kind=="memcpy":
            if e.dst!=p: raise Odd("part of an array is filled")
            src=e.src
        else:
            if len(e.loops)!=1: raise Odd("an array is filled")
            L=e.loops[0]; lv=var(("lv",L))
            if e.addr!=p+lv.scale(8): raise Odd("an array is filled out of order")
            k=e.val.single()
            if k is None or k[0]!="load": raise Odd("an array is filled by a computation")
            src=k[1]-lv.scale(8)
        k=src.single()
        if k is None:
            base=[a for a in (akey(x) for x in src.atoms()) if a[0]=="load" and isinstance(a[2],tuple) and a[2][0]=="c" and a[2][1] in s.arr]
            if len(base)==1 and (src-var(base[0])).isconst(): return ("part",s.arr[base[0][2][1]][1])
            raise Odd("source of an array")
        if k[0]=="load" and isinstance(k[2],tuple) and k[2][0]=="c" and k[2][1] in s.arr:
            a,n=s.arr[k[2][1]]
            l=next((l for d,l in s.u.layouts.items() if re.match(r"nusquids::marray<double, ?1u?[,>]",d)),None)
            off=next((m["off"] for m in l["members"] if m["name"]=="data"),None) if l else None
            if off is not None and k[1]!=a+const(off): raise Odd("source of an array")
            return ("ds",n)
        raise Odd("source of an array")
def splines(v,base):
    """what each spline at base+off is built from: off -> (x begin, y begin, order) as seen when it was built"""
    cur={}
    for e in v.calls:
        d=e.dem or ""
        if not re.match(r"nusquids::AkimaSpline::(AkimaSpline|operator=)\(",d): continue
        pts,_=split_params(d); dst=e.args[0]
        if not pts: cur[dst]=None
        elif len(pts)==2 and "vector" in pts[0]:
            cur[dst]=tuple(under(v.fl.at_call(e,e.args[k],8,"ptr"),v.S) for k in(1,2))
        elif len(pts)==1: cur[dst]=cur.get(e.args[1],"?")
        else: cur[dst]="?"
    out={}
    for a,x in cur.items():
        o=a-base
        if o.isconst(): out[int(o.cval())]=x
    return out
