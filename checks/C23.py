#!/usr/bin/env python3
"""C23: what the HDF5 array and attribute helpers store is what they read back."""
from h5lib import *
from shape import Layout,Arr,At
import itertools
RULE=("on every normal return, the array writer has created the dataset of the given name with the file type of the stored type and a space of the array's extents in order, and written the whole array from its "
      "first element in its in-memory type; chunks lie within the extents. The reader takes the extents of that dataset in order, resizes the destination to them before reading, and reads the whole dataset into its "
      "storage in its in-memory type. Attribute writer and reader use the same type, the caller's object and, for strings, the whole length.")
HELP=(r"^void nusquids::marray<.*>::resize",)
# type identifiers of the library by class and size (HDF5 predefined types; little endian host)
KIND={}
for n,k in(("DOUBLE","f8"),("FLOAT","f4"),("INT","i4"),("UINT","u4"),("LONG","i8"),("ULONG","u8"),("LLONG","i8"),("ULLONG","u8"),("SHORT","i2"),("USHORT","u2"),("SCHAR","i1"),("UCHAR","u1"),("LDOUBLE","f16"),
            ("INT8","i1"),("UINT8","u1"),("INT16","i2"),("UINT16","u2"),("INT32","i4"),("UINT32","u4"),("INT64","i8"),("UINT64","u8")): KIND["H5T_NATIVE_%s_g"%n]=(k,"le")
for n,k in(("IEEE_F32","f4"),("IEEE_F64","f8"),("STD_I8","i1"),("STD_I16","i2"),("STD_I32","i4"),("STD_I64","i8"),("STD_U8","u1"),("STD_U16","u2"),("STD_U32","u4"),("STD_U64","u8")):
    for b in("le","be"): KIND["H5T_%s%s_g"%(n,b.upper())]=(k,b)
ELT={"d":"f8","f":"f4","i":"i4","u":"u4"}
NAMES={"f8":"double","f4":"float","i4":"int","u4":"unsigned int","i8":"a 64 bit integer","u8":"an unsigned 64 bit integer"}
def typ(p):
    """(kind,byte order) of a type argument; None: not a predefined type"""
    k=p.single()
    if k and k[0]=="load":
        g=k[1].single()
        if g and g[0]=="g": return KIND.get(g[1])
    return None
class F1:
    """the part of a function that runs when it returns normally"""
    def __init__(s,fl):
        s.fl=fl; s.h=H5Flow(fl); s.S=s.h.g(fl.retguard); s.L=(fl.f.file,fl.f.line)
        s.calls=[e for e in fl.effects if e.kind=="call" and band(s.h.g(e.guard),s.S)!=F]
        s.arg=[var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)]
    def a(s,e,k): return under(s.h.p(e.args[k]),s.S)
    def a0(s,e,k): return under(e.args[k],s.S)
    def of(s,*n): return [e for e in s.calls if e.name in n]
    def by(s,p):
        """the call that returned p"""
        return next((e for e in s.calls if e.ret is not None and e.ret.single() is not None and (e.ret==p or s.h.p(e.ret)==p)),None)
    def always(s,e): return bimp(s.S,s.h.g(e.guard))
    def string(s,p,want):
        """is the character pointer that of the string want? True/False/None"""
        e=s.by(p)
        if e is not None and e.dem and re.search(r"basic_string<.*>::(c_str|data|operator\[\])\(",e.dem):
            if "operator[]" in e.dem and e.args[1]!=ZERO: return False
            return s.isstr(e.args[0],want)
        k=p.single()
        if k and k[0]=="load" and k[3]=="ptr": return s.isstr(k[1],want)      # first member: the characters
        if k and k[0]=="g": return False
        return None
    def isstr(s,x,want):
        if x==want: return True
        k=x.single()
        if not k or k[0] not in("alloca",): return False if k and k[0]=="arg" else None
        W=[e for e in s.calls if e.args and e.args[0]==x and e.dem and not re.search(r"~basic_string|::(c_str|data|size|length|empty|operator\[\])\(",e.dem)]
        if len(W)!=1 or len(W[0].args)<2: return None
        b=base_name(W[0].dem)
        if b.endswith("basic_string::basic_string") and re.search(r"basic_string\(std::.*basic_string<",W[0].dem) and len(W[0].args)==2: return s.isstr(W[0].args[1],want)
        if "operator+" in b: return False
        return None
def tri(R,c,what,loc,detail=""): R.check(c,what,loc,detail=detail)
def both(*l): return False if any(x is False for x in l) else None if any(x is None for x in l) else True
def buf(x,e,p,n,want):
    """n values in memory at p as call e sees them; want(k,value)->bool"""
    r=[]
    for k in range(n):
        v=under(x.fl.at_call(e,p+const(8*k),8,"i64"),x.S); r.append(want(k,v))
    return both(*r)
def writer(R,u,fl,src_,dst,rk):
    x=F1(fl); what="writeArrayH5 (%s stored as %s, rank %d)"%(NAMES[ELT[src_]],NAMES[ELT[dst]],rk)
    loc,name,data,lvl=x.arg[:4]
    lay=Layout(u,rk,"vp::x"+src_)
    if not lay.ok: R.und(what+": layout of the array",x.L); return 0
    W=x.of("H5Dwrite"); C=x.of("H5Dcreate1","H5Dcreate2")
    if not W or any(e.loops for e in W+C): R.und(what+": the dataset is not written by H5Dwrite",x.L); return 0
    for e in W:
        c=x.by(x.a(e,0)) if x.by(x.a(e,0)) in C else x.by(x.a0(e,0))
        if c is None or c not in C: R.und(what+": which dataset is written cannot be told",e.loc); continue
        tri(R,x.a(c,0)==loc if x.a(c,0).single() else None,what+": the dataset is created in the group given",c.loc)
        tri(R,x.string(x.a(c,1),name),what+": the dataset has the name given",c.loc)
        t=typ(x.a(c,2)); tri(R,None if t is None else t[0]==ELT[dst],what+": the dataset has the type asked for",c.loc)
        sp=x.by(x.a(c,3))
        if sp is None or sp.name!="H5Screate_simple": R.und(what+": the space of the dataset is not made by H5Screate_simple",c.loc)
        else:
            r=x.a(sp,0)
            if not r.isconst(): R.und(what+": the rank of the space",sp.loc)
            else:
                R.check(r.cval()==rk,what+": the space has the rank of the array",sp.loc)
                if r.cval()==rk: tri(R,buf(x,sp,x.a0(sp,1),rk,lambda k,v: extent(v,data,lay,k)),what+": the space has the extents of the array, in order",sp.loc)
                m=x.a(sp,2)
                if m!=ZERO: tri(R,True if m==x.a(sp,1) else None,what+": the space cannot outgrow the array",sp.loc)
        t=typ(x.a(e,1)); tri(R,None if t is None else t==(ELT[src_],"le"),what+": the data are handed over in the type of the elements",e.loc)
        for k,w in((2,"memory"),(3,"file")):
            q=x.a(e,k); ok=True if q==ZERO or sp is not None and q==x.a(c,3) else None
            tri(R,ok,what+": the whole array is written (%s selection)"%w,e.loc)
        d=x.a(e,5); k=d.single()
        if k and k[0]=="load" and k[1]==data+const(lay.d): ok=True
        elif (d-var(("load",data+const(lay.d),0,"ptr"))).isconst(): ok=False
        else:
            bases=[a for a in deep_atoms(d) if a[0]=="load" and a[1]==data+const(lay.d)]
            ok=None
            if bases and d!=var(bases[0]) and (d-var(bases[0])).single() is not None: ok=None
        tri(R,ok,what+": the data are handed over from the first element on",e.loc)
        R.check(x.always(e) and x.always(c),what+": the dataset is created and written whenever the writer returns",e.loc)
        chunks(R,x,c,what,rk,lay)
    return 1
def extent(v,data,lay,k):
    q=v.single()
    if q and q[0]=="ext" : q=q[1].single()
    if q and q[0]=="load" and q[1]==data+const(lay.e+8*k): return True
    if q and q[0]=="load" and any(q[1]==data+const(lay.e+8*j) for j in range(lay.rk)): return False
    if v.isconst(): return False
    return None
GRID={1:[0,1,2,5,8191,8192,8193,16384,70000],2:[0,1,2,8191,8192,8193,70000],3:[0,1,3,130,8192,9000]}
def chunks(R,x,c,what,rk,lay):
    """property lists: layout and filters"""
    fl=x.fl
    pos=5 if c.name=="H5Dcreate2" else 4
    for k in range(4,len(c.args)):
        if k==pos: continue
        v=x.a(c,k)
        leaves=x.h.fp_leaves(v)
        R.check(True if leaves<={("const",0)} else False if any(q and q[0]=="call" and q[1]=="H5Pcreate" and "H5P_CLS_DATASET_CREATE_ID_g" in repr(q) for q in leaves if q) else None,what+": the creation properties are passed as such",c.loc)
    for e in fl.effects:
        if e.kind!="call" or not (e.name or "").startswith("H5Pset_"): continue
        if e.name in("H5Pset_scaleoffset","H5Pset_nbit","H5Pset_szip"): R.und(what+": filter %s keeps the values"%e.name,e.loc); continue
        if e.name!="H5Pset_chunk" : continue
        if e.loops: R.und(what+": chunk extents",e.loc); continue
        nm=what+": chunks are at least one and at most the extent in every dimension"
        if not x.a(e,1).isconst(): R.und(nm,e.loc); continue
        if x.a(e,1).cval()!=rk: R.bad(nm,e.loc); continue
        bad=None; und=None; n=0
        vals=[(fl.at_call(e,e.args[2]+const(8*k),8,"i64")) for k in range(rk)]
        for lv in(1,9):
            for ex in itertools.product(GRID[rk],repeat=rk):
                z=1
                for q in ex: z*=q
                try:
                    at=At(fl,lay,["l","n",Arr("a",ex,z==0),lv]); ev=at.ev(); ok0=h5ok(x,ev)
                    if not ok0.cond(e.guard): continue
                    n+=1
                    for k in range(rk):
                        v=ok0(vals[k])
                        if v!=int(v): raise Unknown("fraction")
                        if not 1<=v<=max(ex[k],0): bad=(ex,k,v); break
                except Unknown as er: und=str(er); break
                if bad: break
            if bad or und: break
        if bad: R.check(False,nm,e.loc,detail="extents %s: chunk extent %d is %d"%(bad[0],bad[1],bad[2]))
        elif und: R.und(nm+" (%s)"%und,e.loc)
        else: R.check(True if n else None,nm,e.loc)
def h5ok(x,ev,rank=0):
    """evaluation in which library calls succeed"""
    old=ev.callf
    def callf(k,e):
        if ish5(k[1]): return 1<<24 if k[1] in OPEN else rank if k[1] in COUNT else 0
        return old(k,e) if old else None
    def condf(k,e):
        return False if k[0]=="fail" else None
    ev.callf=callf; ev.condf=condf; return ev
def reader(R,u,fl,ty,rk):
    x=F1(fl); what="readArrayH5 (%s, rank %d)"%(NAMES[ELT[ty]],rk)
    loc,name,data=x.arg[:3]; lay=Layout(u,rk,"vp::x"+ty)
    if not lay.ok: R.und(what+": layout of the array",x.L); return 0
    D=x.of("H5Dread"); O=x.of("H5Dopen1","H5Dopen2")
    if not D or any(e.loops for e in D+O): R.und(what+": the dataset is not read by H5Dread",x.L); return 0
    Z=[e for e in x.calls if e.dem and re.search(r"marray<.*>::resize",e.dem)]
    for e in D:
        c=x.by(x.a(e,0))
        if c is None or c not in O: R.und(what+": which dataset is read cannot be told",e.loc); continue
        tri(R,x.a(c,0)==loc if x.a(c,0).single() else None,what+": the dataset is looked up in the group given",c.loc)
        tri(R,x.string(x.a(c,1),name),what+": the dataset of the name given is read",c.loc)
        t=typ(x.a(e,1)); tri(R,None if t is None else t==(ELT[ty],"le"),what+": the data arrive in the type of the elements",e.loc)
        S=[s for s in x.of("H5Dget_space") if x.a(s,0)==x.a(e,0)]
        for k,w in((2,"memory"),(3,"file")):
            q=x.a(e,k); tri(R,True if q==ZERO or any(q==s.ret for s in S) else None,what+": the whole dataset is read (%s selection)"%w,e.loc)
        G=x.of("H5Sget_simple_extent_dims")
        if not G: R.und(what+": the extents are not taken by H5Sget_simple_extent_dims",e.loc)
        dims=None
        for g in G:
            tri(R,True if any(x.a(g,0)==s.ret or x.a(g,0)==x.h.p(s.ret) for s in S) else None,what+": the extents are those of the dataset read",g.loc)
            dims=x.a0(g,1)
            if dims==ZERO: R.bad(what+": the current extents are asked for, not the largest possible",g.loc); dims=None
        if not Z: R.und(what+": the destination is not resized by resize",e.loc); continue
        before=[z for z in Z if x.h.order[id(z)]<x.h.order[id(e)]]
        R.check(bool(before),what+": the destination is resized before it is read into",e.loc)
        for z in before[-1:]:
            R.check(True if z.args[0]==data else None,what+": the destination is what is resized",z.loc)
            tri(R,True if x.always(z) else unsized(x,before,dims,rk,lay),what+": the destination is resized whenever the reader returns",z.loc)
            if dims is not None: tri(R,shape(x,z,dims,rk),what+": the destination gets the extents of the dataset, in order",z.loc)
        want=under(fl.at_call(e,data+const(lay.d),8,"ptr"),x.S); d=x.a(e,5)
        k=d.single()
        if d==want: ok=True
        elif k and k[0]=="load" and k[1]==data+const(lay.d): ok=False       # the storage it had before it was resized
        elif (d-want).isconst(): ok=False
        else: ok=None
        tri(R,ok,what+": the data arrive in the storage of the resized destination, from its first element on",e.loc)
        R.check(x.always(e),what+": the dataset is read whenever the reader returns",e.loc)
    return 1
def unsized(x,Z,dims,rk,lay):
    """resizing is skipped in some cases: only when the extents are already right?"""
    if dims is None: return None
    droot=x.fl.root(dims)
    R3=range(0,4) if rk<3 else range(0,3)
    for have in itertools.product(R3,repeat=rk):
        for want in itertools.product(R3,repeat=rk):
            if have==want: continue
            z=1
            for q in have: z*=q
            at=At(x.fl,lay,["l","n",Arr("a",have,z==0)])
            def loadf(b,o,k,ev):
                if b==droot: return want[int(o)//8] if o%8==0 and 0<=o<8*rk else None
                return at.loadf(b,o,k,ev)
            ev=h5ok(x,Ev(loadf=loadf,leaf=at.leaf),rk)
            try:
                if ev.cond(x.S) and not any(ev.cond(e.guard) for e in Z): return False
            except Unknown: return None
    return True
def shape(x,z,dims,rk):
    """extents handed to resize: those in the buffer dims, in order"""
    if re.search(r"resize\(unsigned int, ",z.dem) or len(z.args)<2: return None
    p=z.args[1]; G=x.of("H5Sget_simple_extent_dims")
    lo=max(x.h.order[id(g)] for g in G); hi=x.h.order[id(z)]
    W=[e for e in x.calls if lo<x.h.order[id(e)]<hi and any(touches(x,a,dims) for a in e.args)]
    if any(e.loops for e in W): return None
    V=[x.fl.at_call(z,p+const(8*j),8,"i64") for j in range(rk)]
    def index(v):
        q=v.single()
        if q and q[0]=="load": 
            for j in range(rk):
                if q[1]==dims+const(8*j): return j
        return None
    if W:
        if p!=dims or any(base_name(e.dem or e.name or "")!="std::reverse" or list(e.args)!=[dims,dims+const(8*rk)] for e in W): return None
        return rk==1 or len(W)%2==0
    I=[index(v) for v in V]
    if I==list(range(rk)): return True
    if None in I: return False if any(v.isconst() for v in V) else None
    return False
def touches(x,a,dims):
    try: r=x.fl.root(a)
    except Exception: return True
    return r is not None and r==x.fl.root(dims)
def attr(R,fl,ty,write,rec):
    x=F1(fl); what="%sH5Attribute (%s)"%("add" if write else "read",NAMES.get(ELT.get(ty),ty))
    obj,name,val=x.arg[:3]
    X=x.of("H5Awrite" if write else "H5Aread"); O=x.of("H5Acreate1","H5Acreate2") if write else x.of("H5Aopen","H5Aopen_name")
    if not X or any(e.loops for e in X+O): R.und(what+": the attribute is not transferred by %s"%("H5Awrite" if write else "H5Aread"),x.L); return 0
    for e in X:
        c=x.by(x.a(e,0))
        if c is None or c not in O: R.und(what+": which attribute is transferred cannot be told",e.loc); continue
        tri(R,x.a(c,0)==obj if x.a(c,0).single() else None,what+": the attribute belongs to the object given",c.loc)
        tri(R,x.string(x.a(c,1),name),what+": the attribute has the name given",c.loc)
        R.check(x.always(e) and x.always(c),what+": the attribute is transferred whenever the helper returns",e.loc)
        if ty=="string": stringattr(R,x,c,e,what,val,write); continue
        t=typ(x.a(e,1)); tri(R,None if t is None else t==(ELT[ty],"le"),what+": the value is handed over in its own type",e.loc)
        d=x.a(e,2)
        if d==val: ok=True
        else:
            k=d.single(); ok=None
            if write and k and k[0]=="alloca":
                sz={"f8":(8,"double"),"f4":(4,"float"),"i4":(4,"i32"),"u4":(4,"i32")}[ELT[ty]]
                v=under(x.fl.at_call(e,d,*sz),x.S).single(); ok=True if v and v[0]=="load" and v[1]==val else None
            if not write and k and k[0]=="alloca":
                ST=[s for s in x.fl.effects if s.kind=="store" and s.addr==val and band(x.h.g(s.guard),x.S)!=F]
                v=ST[-1].val.single() if ST else None
                ok=False if not ST else True if v and v[0]=="load" and v[1]==d else None
        tri(R,ok,what+": the value is the caller's",e.loc)
        if write:
            t=typ(x.a(c,2)); tri(R,None if t is None else t[0]==ELT[ty],what+": the attribute has the type of the value",c.loc)
            rec.setdefault(ty,{})["w"]=(t,c.loc)
            space1(R,x,c,what)
        else:
            E=[q for q in x.of("H5Tequal")]
            for q in E:
                ts=[typ(x.a(q,k)) for k in(0,1)]; ts=[z for z in ts if z]
                if len(ts)==1: rec.setdefault(ty,{})["r"]=(ts[0],q.loc)
    return 1
def space1(R,x,c,what):
    sp=x.by(x.a(c,3)); nm=what+": the attribute holds a single value"
    if sp is None: R.und(nm,c.loc); return
    if sp.name=="H5Screate": R.check(True if x.a(sp,0)==ZERO else False if x.a(sp,0).isconst() else None,nm,sp.loc); return
    if sp.name!="H5Screate_simple" or not x.a(sp,0).isconst(): R.und(nm,sp.loc); return
    r=int(x.a(sp,0).cval())
    V=[under(x.fl.at_call(sp,x.a0(sp,1)+const(8*k),8,"i64"),x.S) for k in range(r)]
    R.check(None if any(not v.isconst() for v in V) else all(v==const(1) for v in V),nm,sp.loc)
def length(x,p,s):
    """is p the length of string s"""
    e=x.by(p)
    if e is not None and e.dem and re.search(r"basic_string<.*>::(size|length)\(",e.dem): return x.isstr(e.args[0],s)
    k=p.single()
    if k and k[0]=="load" and k[1]==s+const(8): return True
    if p.isconst(): return False
    q=[a for a in deep_atoms(p) if a[0]=="call" and re.search(r"basic_string.*(4sizeEv|6lengthEv)$",a[1])]
    if q and p!=var(q[0]) and (p-var(q[0])).isconst(): return False
    return None
def stringattr(R,x,c,e,what,val,write):
    t=x.a(e,1)
    if write:
        tc=x.a(c,2); T_=x.by(tc)
        if T_ is None or T_.name!="H5Tcopy" or "H5T_C_S1_g" not in repr(T_.args[0].single()): R.und(what+": the string type",c.loc); return
        Z=[z for z in x.of("H5Tset_size") if x.a(z,0)==tc]
        if not Z: R.bad(what+": the stored type is as long as the string",c.loc); return
        for z in Z[-1:]:
            R.check(x.h.order[id(z)]<x.h.order[id(c)],what+": the length is set before the attribute is created",z.loc)
            tri(R,True if x.always(z) and length(x,x.a(z,1),val) else length(x,x.a(z,1),val) if x.always(z) else None,what+": the stored type is as long as the string",z.loc)
        P=x.of("H5Tset_strpad")
        tri(R,True if t==tc else None,what+": the characters are handed over in the stored type",e.loc)
        tri(R,x.string(x.a(e,2),val),what+": the characters are those of the string, from the first on",e.loc)
        space1(R,x,c,what); return
    ty=[q for q in x.of("H5Aget_type") if x.a(q,0)==c.ret or x.a(q,0)==x.h.p(c.ret)]
    tri(R,True if any(t==q.ret for q in ty) else None,what+": the characters arrive in the stored type",e.loc)
    d=x.a(e,2); b=x.by(d); host=None
    if b is not None and re.search(r"basic_string<.*>::(operator\[\]|data|c_str|front)\(",b.dem or ""): host=b.args[0]; tri(R,True if len(b.args)<2 or b.args[1]==ZERO else False if b.args[1].isconst() else None,what+": the characters arrive from the first on",e.loc)
    if host is None: R.und(what+": the characters arrive in a string",e.loc); return
    Z=[z for z in x.calls if z.dem and re.search(r"basic_string<.*>::(resize|assign|basic_string)\(",z.dem) and z.args[0]==host and x.h.order[id(z)]<x.h.order[id(b)]]
    if not Z: R.check(False if host==val else None,what+": the string is as long as what is stored",e.loc); return
    z=Z[-1]; n=next((a for a in z.args[1:] if (x.by(a) is not None and x.by(a).name in("H5Tget_size","H5Aget_storage_size"))),None)
    off=[a for a in z.args[1:] for q in deep_atoms(a) if q[0]=="call" and q[1] in("H5Tget_size","H5Aget_storage_size") and a!=var(q) and (a-var(q)).isconst()]
    R.check(True if n is not None and x.always(z) else False if off else None,what+": the string is as long as what is stored",z.loc)
    if host!=val:
        K=[q for q in x.calls if q.dem and q.args and q.args[0]==val and re.search(r"basic_string<.*>::(operator=|assign|swap)\(",q.dem)]
        R.check(None if K else False,what+": the caller's string receives the characters",e.loc)
def body(R):
    u=extract(lower(harness("h5.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^.*vp::\w+\(",),noinline=HELP)
    n=0; rec={}
    for d,f in sorted(u.fns.items()):
        m=re.match(r"(?:void )?vp::(w|r|wa|ra)_([a-z]+)(\d?)\(",d)
        if not m: continue
        k,ty,rk=m.groups()
        fl=u.flow_of(f,exc=True,keep_abort=True,const_callees=((r"^H5(Screate_simple|Pset_chunk|Awrite|Dwrite|Acreate|Dcreate|Tset_size|Tcopy|Pset_deflate|open$)","*"),(r"resize",(1,)))); R.fn(fl.f)
        if k=="w": n+=writer(R,u,fl,ty[1],ty[0],int(rk))
        elif k=="r": n+=reader(R,u,fl,ty,int(rk))
        else: n+=attr(R,fl,ty,k=="wa",rec)
    u=extract(lower(src("src/tools.cpp"),defs=["-DNDEBUG"]),roots=(r"(.* )?nusquids::(add|read)H5Attribute<std::.*string",))
    for d,f in u.fns.items():
        m=re.search(r"nusquids::(add|read)H5Attribute<std",d)
        if not m: continue
        fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f); n+=attr(R,fl,"string",m.group(1)=="add",rec)
    if n==0: raise AnalysisError("anchor: no helper transfers anything")
    for ty,v in sorted(rec.items()):
        if "w" in v and "r" in v: R.check(None if v["w"][0] is None else v["w"][0]==v["r"][0],"attributes (%s): the type the reader insists on is the one the writer stores"%NAMES[ELT[ty]],v["r"][1])
    R.scope("%d helper instantiations"%n)
if __name__=="__main__": main("C23",RULE,body)
