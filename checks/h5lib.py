"""Ownership of HDF5 identifiers along every way out of a function.  Every library call is described by contract: what a
failing call returns, what it opens, what it closes.  Conditions on results are rewritten to "this call failed", after
which the rules are implications between guards."""
from common import *
# what a call opens -> the calls that close it
OPEN={"H5Fopen":"F","H5Fcreate":"F","H5Gopen1":"G","H5Gopen2":"G","H5Gcreate1":"G","H5Gcreate2":"G","H5Dopen1":"D","H5Dopen2":"D","H5Dcreate1":"D","H5Dcreate2":"D","H5Dget_space":"S","H5Dget_type":"T","H5Dget_create_plist":"P","H5Dget_access_plist":"P",
 "H5Aopen":"A","H5Aopen_name":"A","H5Aopen_idx":"A","H5Aopen_by_name":"A","H5Acreate1":"A","H5Acreate2":"A","H5Acreate_by_name":"A","H5Aget_space":"S","H5Aget_type":"T","H5Screate":"S","H5Screate_simple":"S","H5Scopy":"S",
 "H5Tcopy":"T","H5Tcreate":"T","H5Tget_super":"T","H5Tget_native_type":"T","H5Tget_member_type":"T","H5Tarray_create2":"T","H5Tvlen_create":"T","H5Pcreate":"P","H5Pcopy":"P","H5Oopen":"O","H5Gopen":"G"}
CLOSE={"H5Fclose":"F","H5Gclose":"GO","H5Dclose":"DO","H5Sclose":"S","H5Tclose":"TO","H5Aclose":"A","H5Pclose":"P","H5Oclose":"GDTO"}
ZEROFAIL={"H5Tget_size","H5Aget_storage_size"}     # a failing call returns 0 (storage size: 0 means nothing stored or failure)
TRI={"H5Tequal","H5Lexists","H5Oexists_by_name","H5Aexists","H5Tis_variable_str","H5Iis_valid","H5Fis_hdf5","H5Sis_simple","H5Pexist","H5LTfind_dataset","H5LTpath_valid","H5LTfind_attribute","H5Aexists_by_name","H5Sselect_valid"}
COUNT={"H5Sget_simple_extent_ndims","H5Sget_simple_extent_npoints","H5Tget_class","H5Sget_simple_extent_dims","H5Aget_name","H5Aget_num_attrs","H5Lget_name_by_idx","H5Gget_objname_by_idx","H5Sget_select_npoints","H5Fget_obj_count","H5Sget_simple_extent_type","H5Tget_sign","H5Tget_order"}
QUIET={"H5open","H5check_version","H5garbage_collect","H5Eset_auto1","H5Eset_auto2","H5Eget_auto1","H5Eget_auto2","H5Eclear1","H5Eclear2","H5Eprint1","H5Eprint2","H5dont_atexit"}
QUERY={"H5Lexists","H5Oexists_by_name","H5Aexists","H5Iis_valid","H5Fis_hdf5","H5Iget_type","H5LTfind_dataset","H5LTfind_attribute","H5LTpath_valid","H5Aexists_by_name"}
H5=re.compile(r"^H5[A-Z]?[A-Za-z_0-9]*$")
def ish5(n): return n is not None and H5.match(n) is not None
class H5Flow:
    def __init__(s,fl):
        s.fl=fl; s.calls=[e for e in fl.effects if e.kind=="call"]
        s.quietsites=set()
        s.rets={}
        for e in s.calls:
            if ish5(e.name):
                s.quietsites.add(e.inst)
                if e.ret is not None and e.ret.single(): s.rets[e.ret.single()]=e
        s.rw=Rewriter(cmap=s.cmap)
        for e in s.calls:
            if e.name is None and s.fp_h5(e): s.quietsites.add(e.inst)
        s.rw=Rewriter(cmap=s.cmap)
        s.order={id(e):n for n,e in enumerate(fl.effects)}
    def fp_leaves(s,p):
        k=p.single()
        if k and k[0]=="ite": return s.fp_leaves(k[2])|s.fp_leaves(k[3])
        return {k}if k else {("const",p.cval())} if p.isconst() else {None}
    def fp_h5(s,e):
        """the target, wherever it is not null, is a library function"""
        L=s.fp_leaves(e.fp)
        return all(k is not None and (k[0]=="g" and ish5(k[1]) or k==("const",0)) for k in L)
    def failv(s,e): return cvar(("fail",e.inst))
    def samples(s,e):
        n=e.name
        if n in ZEROFAIL: return 0,(1,8,64)
        if n in TRI: return -1,None
        if n in COUNT: return -1,None
        if n in OPEN: return -1,(1<<56,(5<<56)+7,1<<24)
        return -1,(0,1)
    def cmap(s,k):
        if k[0]=="throws": return False if k[1] in s.quietsites else None
        if k[0] not in("spos","eq","ult"): return None
        ats=set()
        for x in k[1:]:
            if isinstance(x,Poly): ats|={akey(a) for a in x.atoms()}
        sel=next((a for a in ats if a[0]=="ite"),None)
        if sel is not None:   # split on the selection
            def alt(v):
                r=Rewriter(lambda kk: v if kk==sel else None)
                return mkcond(tuple(r.poly(x) if isinstance(x,Poly) else x for x in k))
            return bite(s.rw.cond(sel[1]),s.rw.cond(alt(sel[2])),s.rw.cond(alt(sel[3])))
        hit=[a for a in ats if a in s.rets]
        if len(ats)!=1 or len(hit)!=1: return None
        a=hit[0]; e=s.rets[a]; bad,good=s.samples(e)
        def at(v):
            def am(kk): return const(v) if kk==a else None
            r=Rewriter(am); nk=tuple(r.poly(x) if isinstance(x,Poly) else x for x in k)
            return mkcond(nk)
        b=at(bad)
        if b not in(T,F): return None
        f=s.failv(e)
        if good is None:
            if e.name in TRI:
                y,n=at(1),at(0)
                if y in(T,F) and n in(T,F): return bite(f,b,bite(cvar(("yes",e.inst)),y,n))
            return bite(f,b,cvar(k))
        g={at(v) for v in good}
        if len(g)==1 and g<={T,F}: return bite(f,b,g.pop())
        return bite(f,b,cvar(k))
    def g(s,c): return s.rw.cond(c)
    def p(s,x): return s.rw.poly(x)
    def same(s,p,r):
        """condition under which value p is the identifier r; None where that cannot be told"""
        p=s.p(p)
        k=p.single()
        if p==r: return T
        if p.isconst(): return F
        if k and k[0]=="ite":
            x,y=s.same(k[2],r),s.same(k[3],r)
            if x is None or y is None: return None
            return bite(k[1],x,y)
        if k in s.rets or k and k[0]in("arg","load","g"): 
            if k[0]=="load": return None if any(a==r.single() for a in deep_atoms(p)) else F
            return F
        return None
    def closer(s,e,kind):
        """condition under which call e closes objects of that kind"""
        if e.name is not None: return T if kind in CLOSE.get(e.name,"") else F
        def rec(p):
            k=p.single()
            if k and k[0]=="g": return T if kind in CLOSE.get(k[1],"") else F
            if k and k[0]=="ite":
                x,y=rec(k[2]),rec(k[3])
                return None if x is None or y is None else bite(k[1],x,y)
            if p.isconst(): return F
            return None
        return rec(s.p(e.fp))
    def acquisitions(s): return [e for e in s.calls if e.name in OPEN]
    def closes(s,a):
        """[(effect,condition)] of calls that close what call a opened; None in place of a condition: cannot tell"""
        kind=OPEN[a.name]; out=[]
        for e in s.calls:
            if e.name in CLOSE or (e.name is None and len(e.args)==1):
                m=s.same(e.args[0],a.ret)
                if m==F: continue
                c=s.closer(e,kind)
                if m is None or c is None: out.append((e,None)); continue
                c=band(s.g(e.guard),m,c)
                if c!=F: out.append((e,c))
        return out
    def misuse(s,a):
        """closing calls of the wrong kind given this identifier"""
        kind=OPEN[a.name]; out=[]
        for e in s.calls:
            if e.name in CLOSE and kind not in CLOSE[e.name]:
                m=s.same(e.args[0],a.ret)
                if m not in(None,F) and band(s.g(e.guard),m,bnot(s.failv(a)))!=F: out.append(e)
        return out
    def escapes(s,a):
        """is the identifier handed to something whose behaviour is not known here?"""
        r=a.ret.single()
        def has(p):
            """the value itself, not a result computed from it by a library call"""
            if not isinstance(p,Poly): return False
            for a in p.atoms():
                k=akey(a)
                if k==r: return True
                if k[0] in("call","load","throws"): continue
                if any(has(x) for x in k if isinstance(x,Poly)): return True
            return False
        for e in s.fl.effects:
            if e.kind=="call":
                if ish5(e.name): continue
                if e.name is None and s.fp_h5(e): continue
                if any(has(x) for x in e.args): return e
                for rt,o in e.snap.items():
                    if rt[0]!="alloca": continue
                    direct=any(s.fl.root(x)==rt for x in e.args)
                    if direct and any(has(v) for k,(sz,v) in o.cells.items()): return e
            elif e.kind in("store","wstore"):
                if e.root is not None and e.root[0]!="alloca" and has(e.val): return e
            elif e.kind=="ret":
                if has(getattr(e,"val",None)): return e
        return None
    def exits(s):
        """(what, guard, position or None): ways out of the function; a position bounds what happened before"""
        out=[]
        for e in s.fl.effects:
            if e.kind=="ret": out.append(("return",s.g(e.guard),None,e))
            elif e.kind=="resume": out.append(("an exception",s.g(e.guard),None,e))
            elif e.kind=="call" and e.i["op"]=="call" and not ish5(e.name):
                if e.name is None and s.fp_h5(e): continue
                if e.noreturn if e.name else False:
                    if e.name!="__cxa_throw" and not re.search(r"__throw_|__cxa_rethrow",e.dem or ""): continue   # the program ends
                elif getattr(e,"nounwind",False) or e.name in("__cxa_end_catch","__cxa_begin_catch") or SAFE.match(e.dem or ""): continue
                out.append(("an exception from %s"%short(e),s.g(e.guard),s.order[id(e)],e))
        return out
def short(e):
    d=e.dem or e.name or "a call"
    return {"__cxa_throw":"a throw"}.get(d,base_name(d))
def ownership(R,fl,what):
    """every identifier opened in the function is closed once on every way out"""
    h=H5Flow(fl); n=0
    ex=h.exits()
    for a in h.acquisitions():
        n+=1; nm="%s: what %s opens"%(what,a.name)
        got=band(h.g(a.guard),bnot(h.failv(a)))
        if got==F: continue
        if a.ret is None or a.ret.single() is None:
            R.und(nm+" is not followed",a.loc); continue
        cl=h.closes(a); esc=h.escapes(a)
        if a.loops or any(e.loops for e,c in cl):
            inloop(R,h,a,cl,esc,nm); continue
        if esc is not None: R.und("%s is handed on to %s"%(nm,short(esc) if esc.kind=="call" else "memory that outlives the call"),a.loc); continue
        if any(c is None for e,c in cl): R.und(nm+": which object is closed cannot be told",a.loc); continue
        for e in h.misuse(a): R.bad("%s is closed by %s"%(nm,e.name),e.loc)
        twice=next(((x,y) for i,(x,c) in enumerate(cl) for y,d in cl[i+1:] if band(got,c,d)!=F),None)
        R.check(twice is None,nm+" is not closed twice",(twice[1].loc if twice else a.loc))
        lost=None
        for w,g,pos,e in ex:
            if pos is not None and pos<=h.order[id(a)]: continue
            done=[c for x,c in cl if pos is None or h.order[id(x)]<pos]
            rest=band(got,g,bnot(bor(F,*done)))
            if rest!=F: lost=(w,e); break
        R.check(lost is None,nm+" is closed on every way out",(lost[1].loc or a.loc) if lost else a.loc,detail="left open by %s"%lost[0] if lost else "")
    return n
def inloop(R,h,a,cl,esc,nm):
    R.und(nm+": opened or closed in a loop",a.loc)
# ---------------------------------------------------------------- typestate over one function's control flow graph
WRAP=re.compile(r"^nusquids::H5(Handle|File)::H5(Handle|File)\((long|long, int \(\*\)\(long\), char const\*)\)$")
SAFE=re.compile(r"^(std::(__cxx11::basic_string|vector|unique_ptr|__shared_ptr|shared_ptr|array|_Vector_base|allocator|map|tuple|get|move|forward|__get_helper)\b.*(::(operator\[\]|size|data|c_str|length|empty|get|begin|end|front|back|operator\*|operator->|operator bool)[( ].*|~\w+\(\))|.*::~\w+\(\)|nusquids::H5(Handle|File)::operator.*|nusquids::H5Handle::get\(\) const|nusquids::marray<.*>::(size|data|begin|end|front|back|get_data|extent|empty|rank)\(.*)$")
class Graph:
    def __init__(s,fn):
        s.fn=fn; s.B={b["id"]:b["insts"] for b in fn["blocks"]}; s.defs={i["id"]:i for b in fn["blocks"] for i in b["insts"]}
        s.at={i["id"]:(b["id"],n) for b in fn["blocks"] for n,i in enumerate(b["insts"])}
    def succ(s,i):
        op=i["op"]
        if op=="br": return list(dict.fromkeys(i["succ"]))
        if op=="switch": return list(dict.fromkeys([c[1] for c in i["cases"]]+[i["default"]]))
        return []
def loci(i):
    l=i.get("loc")
    if not l: return None
    for f,ln,fn in l:
        if "/repo/" in f or "/include/nuSQuIDS" in f or "/src/" in f or "/verif/" in f: return (f,ln,fn)
    return tuple(l[0])
def typestate(R,u,fn,what):
    """identifiers opened in a function that keeps its helpers as calls: wrapped by a handle, or closed on every way out"""
    G=Graph(fn); n=0
    for b in fn["blocks"]:
        for a in b["insts"]:
            if a["op"] in("call","invoke") and a.get("callee") in OPEN: n+=1; one(R,u,G,a,"%s: what %s opens"%(what,a["callee"]))
    return n
def uses(i,names):
    return any(o[0]=="i" and o[1] in names for o in i.get("args",[]))
def closing(u,i,names,kind):
    """'close','wrap','wrong','maybe' or None: what this instruction does to the identifier"""
    c=i.get("callee")
    if i["op"] not in("call","invoke") or not uses(i,names): return None
    if c in CLOSE: return "close" if kind in CLOSE[c] else "wrong"
    if ish5(c): return None
    d=i.get("dem") or ""
    if c and WRAP.match(d):
        if "H5File::" in d: return "wrap" if kind=="F" else "wrong"
        o=i["args"][2]
        if o[0]=="g": return "wrap" if o[1] in CLOSE and kind in CLOSE[o[1]] else "wrong" if o[1] in CLOSE else "maybe"
        return "maybe"
    if c is None: return None          # virtual or indirect: the value is lent
    f=u.byname.get(c)
    if f is None: return None
    return "maybe" if releases(u,f,[n for n,o in enumerate(i["args"]) if o[0]=="i" and o[1] in names]) else None
def releases(u,f,ks,seen=None):
    """may the function close, wrap or keep the identifier it is given?"""
    seen=seen or set()
    if f["name"] in seen: return False
    seen.add(f["name"])
    names={f["args"][k]["id"] for k in ks if k<len(f["args"])}
    ch=True; S=[i for b in f["blocks"] for i in b["insts"]]
    while ch:
        ch=False
        for i in S:
            if i["id"] in names: continue
            if i["op"]=="phi" and any(o[0]=="i" and o[1] in names for _,o in i["inc"]) or i["op"]=="select" and any(o[0]=="i" and o[1] in names for o in i["ops"]): names.add(i["id"]); ch=True
    for i in S:
        if i["op"]=="store" and i["ops"][0][0]=="i" and i["ops"][0][1] in names: return True
        if i["op"] in("call","invoke") and uses(i,names):
            c=i.get("callee")
            if c in CLOSE or WRAP.match(i.get("dem") or ""): return True
            if ish5(c) or c is None: continue
            g=u.byname.get(c)
            if g and releases(u,g,[n for n,o in enumerate(i["args"]) if o[0]=="i" and o[1] in names],seen): return True
    return False
def quiet(i,u=None,seen=()):
    """can this call not raise an exception?"""
    c=i.get("callee")
    if u is not None and c in u.byname and c not in seen:
        if c not in u.calm:
            u.calm[c]=True   # recursion
            u.calm[c]=all(quiet(j,u,seen+(c,)) for b in u.byname[c]["blocks"] for j in b["insts"] if j["op"] in("call","invoke"))
        if u.calm[c]: return True
    return i.get("nounwind") or ish5(c) or c in("__cxa_begin_catch","__cxa_end_catch","__cxa_allocate_exception","__cxa_free_exception") or bool(SAFE.match(i.get("dem") or ""))
def one(R,u,G,a,nm):
    kind=OPEN[a["callee"]]; b0,n0=G.at[a["id"]]
    for i in G.defs.values():
        if i["op"]=="store" and i["ops"][0]==["i",a["id"]]: R.und(nm+" is kept in memory",loci(i)); return
        if i["op"]=="select" and ["i",a["id"]] in i["ops"]: R.und(nm+" is selected among others",loci(i)); return
        if i["op"]=="ret" and i.get("ops") and i["ops"][0]==["i",a["id"]]: R.und(nm+" is returned",loci(i)); return
    # which blocks can still reach a point where it is closed
    al={a["id"]}; ch=True
    while ch:
        ch=False
        for i in G.defs.values():
            if i["op"]=="phi" and i["id"] not in al and any(o[0]=="i" and o[1] in al for _,o in i["inc"]): al.add(i["id"]); ch=True
    ev={b for b,ins in G.B.items() if any(closing(u,i,al,kind) for i in ins)}
    pred={}
    for b,ins in G.B.items():
        t=ins[-1]
        for x in (G.succ(t) or [t[k] for k in("normal","unwind") if k in t]): pred.setdefault(x,[]).append(b)
    can=set(ev); st=list(ev)
    while st:
        x=st.pop()
        for p in pred.get(x,[]):
            if p not in can: can.add(p); st.append(p)
    maybe=None; wrong=None; lost=[]; why={}; dom=Func(G.fn,exc=True)
    seen=set(); t0=G.B[b0][n0]
    start=[(b0,n0+1,frozenset([a["id"]]),False)] if a["op"]=="call" else []
    def cross(frm,to,names,unsure):
        nn=set(names)
        for i in G.B[to]:
            if i["op"]!="phi": break
            inc=dict((p,o) for p,o in i["inc"])
            o=inc.get(frm)
            if o and o[0]=="i" and o[1] in names: nn.add(i["id"])
            else: nn.discard(i["id"])
        return (to,0,frozenset(nn),unsure)
    if a["op"]=="invoke": start=[cross(b0,a["normal"],{a["id"]},False)]
    st=start
    while st:
        s=st.pop()
        if s in seen: continue
        seen.add(s); b,k,names,unsure=s
        ins=G.B[b]
        while k<len(ins):
            i=ins[k]; op=i["op"]
            if i is a: lost.append(("opening the next one",i,unsure)); break
            c=closing(u,i,names,kind)
            if c in("close","wrap"): break
            if c=="maybe": maybe=i; break
            if c=="wrong": wrong=i; break
            if op=="invoke":
                if not i.get("noreturn"):
                    x=cross(b,i["normal"],names,unsure); st.append(x); why.setdefault(x,why.get(s))
                if not quiet(i,u):
                    x=cross(b,i["unwind"],names,unsure); st.append(x); why.setdefault(x,i)
                break
            if op=="call":
                if i.get("noreturn"):
                    if re.search(r"__cxa_throw|__cxa_rethrow|__throw_",i.get("callee") or ""): lost.append(("a throw",i,unsure))
                    break
                if not quiet(i,u): lost.append(("an exception from %s"%(short2(i)),i,unsure))
            if op in("ret","resume"):
                o=why.get(s) if op=="resume" else None
                lost.append(("return" if op=="ret" else "an exception"+(" from %s"%short2(o) if o is not None else ""),(o if o is not None else i),unsure)); break
            if op in("br","switch"):
                S=G.succ(i)
                if op=="br" and len(S)==2:
                    d=failedge(G,i,names)
                    if d is not None: S=[S[d]]
                un=unsure
                for x in S:
                    w=un or (len(S)>1 and x not in can and any(y in can for y in S) and not fresh(G,dom,i,b0,n0))
                    x=cross(b,x,names,w); st.append(x); why.setdefault(x,why.get(s))
                break
            k+=1
    if wrong is not None: R.bad("%s is closed by %s"%(nm,closer_name(wrong)),loci(wrong)); return
    sure=[x for x in lost if not x[2]]
    if sure: R.bad(nm+" is closed on every way out: left open by "+sure[0][0],loci(sure[0][1]) or loci(a),key=nm)
    elif maybe is not None: R.und(nm+" is handed to a function that may close it",loci(maybe))
    elif lost: R.und(nm+" is closed under a condition",loci(lost[0][1]))
    else: R.ok(nm+" is closed on every way out",loci(a))
    # closed again after it was closed or handed to a handle
    E=[i for i in G.defs.values() if closing(u,i,{a["id"]},kind) in("close","wrap")]
    f=dom
    for x in E:
        for y in E:
            if x is y: continue
            (bx,kx),(by,ky)=G.at[x["id"]],G.at[y["id"]]
            if bx in f.B and by in f.B and (bx==by and kx<ky or bx!=by and f.dom(bx,by)):
                if x["op"]=="invoke" and by!=bx and not f.dom(x["normal"],by): continue
                R.bad(nm+" is not closed twice",loci(y)); return
def fresh(G,dom,br,b0,n0):
    """does the branch depend only on results of calls made after the object was opened (so not on what decided whether to open it)?"""
    st=[br.get("cond")]; n=0
    while st:
        o=st.pop()
        if not o or o[0]=="c": continue
        if o[0]!="i" or o[1] not in G.defs: return False
        d=G.defs[o[1]]
        if d["op"] in("call","invoke"):
            b,k=G.at[d["id"]]
            if not(b in dom.B and b0 in dom.B and (b==b0 and k>n0 or b!=b0 and dom.dom(b0,b))): return False
            n+=1
        elif d["op"] in("icmp","and","or","xor","trunc","zext","sext","freeze","add","sub"): st+=d["ops"]
        else: return False
    return n>0
def closer_name(i): return i["callee"] if i["callee"] in CLOSE else "a handle that uses "+(i["args"][2][1] if len(i["args"])>2 else "H5Fclose")
def short2(i):
    if not i.get("dem"): return "a virtual call"
    return base_name(i["dem"])
def failedge(G,i,names):
    """which successor of a branch is taken when the call that opened it succeeded; None: not a test of that"""
    c=i.get("cond")
    if not c or c[0]!="i": return None
    d=G.defs.get(c[1])
    if not d or d["op"]!="icmp": return None
    l,r=d["ops"]
    def side(o,v): return v if o[0]=="i" and o[1] in names else int(o[1]) if o[0]=="c" else None
    out=set()
    for v in(1<<24,(5<<56)+7):
        x,y=side(l,v),side(r,v)
        if x is None or y is None or not(l[0]=="i" and l[1] in names or r[0]=="i" and r[1] in names): return None
        p=d["pred"]
        q={"slt":x<y,"sle":x<=y,"sgt":x>y,"sge":x>=y,"eq":x==y,"ne":x!=y}.get(p)
        if q is None: return None
        out.add(0 if q else 1)
    return out.pop() if len(out)==1 else None
