#!/usr/bin/env python3
"""C29: bodies and tracks survive being stored and rebuilt."""
from bodylib import *
from flow import PURE_MATH
RULE=("for every class with Serialize and Deserialize: the reconstruction, with every stored entry replaced by the member it was written from, gives back the value of every member, for every way the class can be "
      "constructed and after every public change of a member; nothing is read that was not stored, and in the type it was stored; the stored name is the one the class is registered under, together with its own Deserialize.")
SHORT=lambda K: K.replace("nusquids::","")
def argv(fl,k): a=fl.f.args[k]; return var(("arg",k,a["name"],a["ty"]))
def run(R):
    u=unit(); KS=classes(u)
    W={}; OBJ={}; MEM={}
    for K in KS:
        nm=SHORT(K); M=members(u,K)
        if M is None: R.und(nm+": members"); continue
        MEM[K]=M
        try: W[K]=stored(R,u,K,nm,M)
        except (Odd,AnalysisError) as e: R.und("%s: what Serialize stores (%s)"%(nm,e)); continue
        try: OBJ[K]=rebuilt(R,u,K,nm,M,W[K])
        except (Odd,AnalysisError) as e: R.und("%s: what Deserialize rebuilds (%s)"%(nm,e))
    for K in KS:
        if K not in OBJ: continue
        nm=SHORT(K); pre=nm.replace("::","")
        C=u.find(r"^vp::mk_%s_\d+\("%pre)
        if not C: R.und(nm+": ways to construct it"); continue
        for f in C:
            try: made(R,u,K,nm,MEM[K],W[K],OBJ[K],f)
            except (Odd,AnalysisError) as e: R.und("%s: %s (%s)"%(nm,call_name(f),e))
        ch=u.find(r"^vp::ch_(%s)_\d+\("%("Track|"+pre if nm.endswith("::Track") else "Body|"+pre))
        for f in ch:
            try: changed(R,u,K,nm,MEM[K],W[K],OBJ[K],f)
            except (Odd,AnalysisError) as e: R.und("%s: %s (%s)"%(nm,call_name(f),e))
    registry(R,u,KS,W)
    R.scope("kinds: "+", ".join(SHORT(k) for k in KS))
def call_name(f):
    return re.sub(r"^vp::","",f["dem"]).split("(")[0]
def stored(R,u,K,nm,M):
    fl=flow(u,"^"+re.escape(K+"::Serialize(long) const")+"$"); R.fn(fl.f); v=View(u,fl); g=argv(fl,1); this=argv(fl,0)
    L=(fl.f.file,fl.f.line); out={}
    for w in writes(v,g):
        if w.name in out: R.bad("%s: entry '%s' is stored only once"%(nm,w.name),w.e.loc); continue
        if w.name=="name" and w.kind=="string":
            t=v.text(w.val); own=name_of(u,K+"::GetName")
            R.check(None if t is None or own is None else t==own,"%s: the name stored is the one the class reports"%nm,w.e.loc,detail="'%s' instead of '%s'"%(t,own))
            out["name"]=w; continue
        if w.e.loops: raise Odd("entry '%s' is stored in a loop"%w.name)
        R.check(True if bimp(v.S,w.e.guard) else None,"%s: '%s' is stored whatever the state"%(nm,w.name),w.e.loc)
        if w.kind=="string": out[w.name]=w; w.m=None; continue
        w.m=None
        k=w.val.single()
        if k and k[0]=="load" and k[2]==0 and (k[1]-this).isconst():
            o=int((k[1]-this).cval())
            w.m=next((m for m in M if m.off==o),None)
        arr=isinstance(w.kind,tuple)
        if w.m is None:
            w.of=None if arr else of_members(w.val,this,M)
            R.check(None if w.of is None else True,"%s: '%s' is determined by the members"%(nm,w.name),w.e.loc); out[w.name]=w; continue
        mk=w.m.kind()
        if arr:
            R.check(None if mk!="vec" else w.kind[1]=="double","%s: '%s' is stored in the precision of the array"%(nm,w.name),w.e.loc)
            if mk=="vec" and w.kind[2]==1:
                q=under(w.dim[0],v.S); want=(var(("load",this+const(w.m.off+8),0,"ptr"))-var(("load",this+const(w.m.off),0,"ptr")))
                n=mkatom(("idiv",want,const(8),"u")) if False else None
                R.check(size_is(q,this,w.m.off,M),"%s: the whole of '%s' is stored"%(nm,w.name),w.e.loc)
            else: R.und("%s: the whole of '%s' is stored"%(nm,w.name),w.e.loc)
        else:
            want={"double":"double","i32":"i32","bool":"i8","i64":"i64"}.get(mk)
            R.check(None if want is None else (fits(w.kind,want) and fits(w.ftype,want)),"%s: '%s' is stored in the precision of the member"%(nm,w.name),w.e.loc,detail="stored as %s"%(w.ftype if w.kind==want else w.kind))
        out[w.name]=w
    R.check("name" in out,"%s: the name of the class is stored"%nm,L)
    return out
def of_members(p,this,M):
    """p as a function of the values of the members, or None"""
    mm={}
    for k in deep_atoms(p):
        if k[0]=="load" and k[2]==0 and (k[1]-this).isconst():
            m=next((m for m in M if m.off==int((k[1]-this).cval()) and m.kind() in("double","i32","i64","bool")),None)
            if m is None: return None
            mm[k]=m.name
        elif k[0] in("load","mu","lv","lvx","call","ev"): return None
    def f(vals):
        am={}
        for k,n in mm.items():
            x=vals.get(n)
            if x is None or isinstance(x,(tuple,str)): return None
            am[k]=x
        return subst(p,am)
    return f
def fits(ft,want):
    if ft is None: return True
    if want=="double": return ft in("double","long double")
    return ft.startswith("i") and WIDTH.get(ft,0)>=WIDTH[want]
def size_is(q,this,off,M):
    """is q the number of elements of the vector member at off?"""
    k=q.single()
    e=var(("load",this+const(off+8),0,"ptr")); b=var(("load",this+const(off),0,"ptr"))
    D=e-b
    if q.scale(8)==D: return True
    if k and k[0]=="idiv" and k[1]==D and k[2]==const(8): return True
    if k and k[0]=="load" and k[2]==0 and (k[1]-this).isconst():
        m=next((m for m in M if m.off==int((k[1]-this).cval())),None)
        return None if m is None or m.name!="arraysize" else True
    if k and k[0]=="ext": return size_is(k[1],this,off,M)
    if q.isconst(): return False
    c=q.t.get((),0)
    if c and size_is(q-const(c),this,off,M) is True: return False
    for m in M:
        if m.kind()=="vec" and m.off!=off:
            d=var(("load",this+const(m.off+8),0,"ptr"))-var(("load",this+const(m.off),0,"ptr"))
            if k and k[0]=="idiv" and k[1]==d: return None
    return None
class Made: pass
def members_of(v,base,M,norm):
    """value of every member of the object at base when the function returns"""
    out={}; sp=splines(v,base)
    for m in M:
        k=m.kind(); a=base+const(m.off)
        if k in("double","i32","i64","bool"):
            out[m.name]=norm(v.load(a,m.size,{"double":"double","i32":"i32","i64":"i64","bool":"i8"}[k]))
        elif k=="vec": out[m.name]=norm(v.load(a,8,"ptr"))
        elif k=="spline":
            x=sp.get(m.off,"?"); out[m.name]=x if x in(None,"?") else tuple(norm(p) for p in x)
    return out
def rebuilt(R,u,K,nm,M,W):
    fl=flow(u,"^"+re.escape(K+"::Deserialize(long)")+"$"); R.fn(fl.f); L=(fl.f.file,fl.f.line)
    g=argv(fl,1)
    v=Reader(u,fl,g,set(W)); v.L=L
    if v.S==F: R.bad("%s: what was stored can be rebuilt"%nm,L); raise Odd("never returns")
    for n,t,e in v.reads:
        if n not in W: R.check(False if bimp(v.S,v.there.cond(e.guard)) else None,"%s: '%s' is stored before it is read"%(nm,n),e.loc); continue
        w=W[n]
        if isinstance(t,tuple): R.check(None if t[1] is None else isinstance(w.kind,tuple) and t[1]==w.kind[1],"%s: '%s' is read in the type it was stored in"%(nm,n),e.loc)
        else: R.check(t==w.kind,"%s: '%s' is read in the type it was stored in"%(nm,n),e.loc,detail="%s instead of %s"%(t,w.kind))
    obj=v.at(v.load(argv(fl,0),8,"ptr"))
    o=Made(); o.v=v; o.base=obj; o.m=members_of(v,obj,M,v.at); o.L=L
    return o
def back(u,W,M,f,p,elt,ln):
    """p with every stored entry replaced by what it was written from: f(member name); elements by elt(vector pointer, index)"""
    class Gap(Exception): pass
    by={m.off:m for m in M}
    def am(k):
        if k[0]=="tok":
            w=W.get(k[1])
            if w is None or w.kind=="string": raise Gap()
            r=f.get(w.m.name) if w.m is not None else w.of(f) if getattr(w,"of",None) else None
            if r is None or isinstance(r,(tuple,str)): raise Gap()
            return r
        if k[0]=="vec":
            if k[1][0]!="ds": 
                if k[1][0]=="raw": return var(("raw",k[1]))
                if k[1][0] in("late","part"): return var(("notall",k[1]))
                raise Gap()
            w=W.get(k[1][1])
            if w is None or getattr(w,"m",None) is None: raise Gap()
            return f[w.m.name]
        if k[0]=="elt":
            w=W.get(k[1][1])
            if w is None or getattr(w,"m",None) is None: raise Gap()
            return elt(f[w.m.name],rw.poly(k[2]))
        return None
    rw=Rewriter(am)
    try: return rw.poly(p)
    except Gap: return None
def wide(p):
    """counts are taken as exact: masks of their width do nothing"""
    def am(k):
        if k[0]=="and" and k[1] in(4294967295,const(4294967295)):
            q=rw.poly(k[2]); c=q.t.get((),0)
            return q-const(2**32) if 2**31<=c<2**32 else q
        return None
    rw=Rewriter(am); return rw.poly(p)
def same(p,q):
    if p is None or q is None: return None
    p,q=wide(p),wide(q)
    if p==q: return True
    try:
        if eqrat(p,q): return True
    except Exception: pass
    import random
    rnd=random.Random(7)
    for t in range(60):
        mp={}
        def pick(kk,whole=False):
            if kk not in mp: mp[kk]=rnd.randint(2,9) if whole else rnd.choice([0,1]) if kk[-1]=="i8" else Fraction(rnd.randint(1,4000),rnd.choice([1,3,7,1000]))
            return mp[kk]
        def leaf(k,ev):
            if k[0]=="call" and k[1] in PURE_MATH: return None
            if k[0]=="load":
                if not(k[2]==0 or isinstance(k[2],tuple) and k[2][0]=="c"): raise Unknown("version")
                if k[3]=="ptr": return V(0,{k:1})
                a=ev.poly(k[1])
                return pick(("at",a.key(),k[2],k[3]),k[3] in("i64","i32"))
            if k[0] in("mu","lv","lvx"): raise Unknown("loop")
            if k[0] in("arg","g"): return V(0,{k:1}) if k[-1]=="ptr" or k[0]=="g" else pick(k)
            if k[0] in("call","raw","notall","len"): return pick(k)
            if k[0]=="vsize": return pick(k,True)
            return None
        try: a=Ev(leaf=leaf)(p); b=Ev(leaf=leaf)(q)
        except (Unknown,ValueError,OverflowError,ZeroDivisionError): continue
        if abs(float(a)-float(b))>1e-9*(1+abs(float(a))): return False
    return None
def ends(v,args_,base,M):
    """rewriting of vector ends into begin + 8*length"""
    A=[(a,) for a in args_]+[(base+const(m.off),) for m in M if m.kind()=="vec"]
    S={a[0]+const(8):a[0] for a in A}
    def am(k):
        if k[0]=="load" and k[3]=="ptr" and k[1] in S:
            b=var(("load",S[k[1]],k[2],"ptr")); return b+var(("vsize",b)).scale(8)
        return None
    return Rewriter(am)
def compare(R,u,K,nm,M,W,o,f,post,what,L,elt,only=None):
    """post: member values to be met; f: values of members at the time of storing (same thing)"""
    for m in M:
        if m.name=="is_constant_density" and K+"::IsConstantDensity() const" in u.fns: continue     # the class answers by itself
        if m.name=="BodyParams" or m.kind() is None or (only is not None and m.name not in only): continue
        t="%s: %s survives (%s)"%(nm,m.name,what); g=o.m.get(m.name); p=post.get(m.name)
        loc=o.L
        if m.kind()=="spline":
            if g in("?",None) or p in("?",None): R.check(None,t,loc) if g!=p else R.ok(t,loc); continue
            q=tuple(back(u,W,M,f,x,elt,None) for x in g)
            R.check(None if None in q else True if q==p else False if all(x.single() for x in q+p) else None,t,loc,detail="built from other arrays"); continue
        if g is None or p is None: R.und(t,loc); continue
        q=back(u,W,M,f,g,elt,None)
        if m.kind()=="vec":
            R.check(None if q is None else True if q==p else False if q.single() and p.single() and q.single()[0] in("load","raw","notall") else None,t,loc,detail="other contents"); continue
        q2=undef(q); p2=undef(p)
        if p2: continue       # the original itself is not determined
        if q2: R.bad(t+": not set",loc); continue
        r=same(q,p)
        R.check(r,t,loc,detail="" if r else "rebuilt as %s, was %s"%(show(q)[:100] if q is not None else "?",show(p)[:100]))
def undef(p):
    if p is None: return False
    k=p.single()
    return bool(k and (k[0] in("undef",) or k[0]=="load" and k[2]==0 and k[1].atoms() and akey(next(iter(k[1].atoms())))[0]=="call" and akey(next(iter(k[1].atoms())))[1] in("_Znwm",)))
def made(R,u,K,nm,M,W,o,fn):
    fl=u.flow_of(fn,models=MODELS); R.fn(fl.f); v=View(u,fl); p=argv(fl,0)
    vecs=[argv(fl,k) for k in range(1,len(fl.f.args))]
    v.byid={e.i["id"]:e for e in v.calls if e.i is not None}
    rw=ends(v,vecs,p,M)
    def norm(x):
        """follow moves and copies of whole vectors"""
        def am(k):
            if k[0]=="load" and k[3]=="ptr" and isinstance(k[2],tuple) and k[2] and k[2][0]=="c" and k[2][1] in v.byid:
                e=v.byid[k[2][1]]
                if e.dem and re.search(r"vector<.*>::(vector|operator=)\(std::vector<",e.dem) and re.match(r"(void )?"+VEC,e.dem):
                    for j in(0,8,16):
                        if k[1]==e.args[0]+const(j): return r2.poly(under(fl.at_call(e,e.args[1]+const(j),8,"ptr"),v.S))
            if k[0]=="load" and k[3]!="ptr": 
                a=r2.poly(k[1])
                if a!=k[1]:
                    s_=a.single()
                    return fl.load(v.st,a,8 if k[3] in("double","i64") else 4,k[3])
            return None
        r2=Rewriter(am); y=r2.poly(under(x,v.S)); y=rw.poly(y)
        return y
    f=members_of(v,p,M,norm)
    def elt(b,i): return norm(fl.load(v.st,b+wide(i).scale(8),8,"double"))
    compare(R,u,K,nm,M,W,o,f,f,"made by "+re.sub(r"^vp::mk_","",call_sig(fn)),(fl.f.file,fl.f.line),elt)
def call_sig(fn):
    d=fn["dem"]; n=d.split("(")[0]; pts,_=split_params(d)
    pts=[re.sub(r"std::vector<double.*?>>?&?","vector",x) for x in pts[1:]]
    pts=["string" if "basic_string" in x else x for x in pts]
    return "%s(%s)"%(n,", ".join(pts))
def changed(R,u,K,nm,M,W,o,fn):
    fl=u.flow_of(fn,models=MODELS); R.fn(fl.f); v=View(u,fl); p=argv(fl,0)
    if fl.f.args and any(e.kind=="call" for e in fl.effects if band(e.guard,fl.retguard)!=F): raise Odd("calls")
    pre={}
    for m in M:
        k=m.kind(); a=p+const(m.off)
        if k in("double","i32","i64","bool"): pre[m.name]=var(("load",a,0,{"double":"double","i32":"i32","i64":"i64","bool":"i8"}[k]))
        elif k=="vec": pre[m.name]=var(("load",a,0,"ptr"))
    post=dict(pre); hit=set()
    for m in M:
        k=m.kind(); a=p+const(m.off)
        if k in("double","i32","i64","bool"):
            post[m.name]=v.load(a,m.size,{"double":"double","i32":"i32","i64":"i64","bool":"i8"}[k])
            if post[m.name]!=pre[m.name]: hit.add(m.name)
    def elt(b,i): return var(("load",b+i.scale(8),0,"double"))
    # before the change every member that is not stored is what the stored ones determine
    der={}
    wr={w.m.name for w in W.values() if getattr(w,"m",None) is not None}
    for m in M:
        if m.name in pre and m.name not in wr and m.kind()!="vec" and o.m.get(m.name) is not None:
            q=back(u,W,M,pre,o.m[m.name],elt,None)
            if q is not None: der[("load",p+const(m.off),0,{"double":"double","i32":"i32","i64":"i64","bool":"i8"}[m.kind()])]=q
    post={n:(subst(x,der) if n in hit or True else x) for n,x in post.items()}
    compare(R,u,K,nm,M,W,o,post,post,"after "+re.sub(r"^vp::","",CH.get(call_name(fn),call_name(fn))),(fl.f.file,fl.f.line),elt,only=affected(M,o,hit,W))
CH={"ch_Track_1":"SetX","ch_Track_2":"ReverseTrack","ch_Body_1":"SetIsConstantDensity","ch_EarthAtm_1":"SetAtmosphereHeight"}
def affected(M,o,hit,W):
    """members changed, or rebuilt from something changed"""
    out=set(hit); names={n for n,w in W.items() if getattr(w,"m",None) is not None and w.m.name in hit}
    for m in M:
        g=o.m.get(m.name)
        if isinstance(g,Poly) and any(k[0]=="tok" and k[1] in names for k in deep_atoms(g)): out.add(m.name)
    return out
def registry(R,u,KS,W):
    """which function is registered under which name"""
    reg={"Body":{}, "Track":{}}; n=0; odd=0
    for d in u.fns:
        if not re.match(r"__cxx_global_var_init",d): continue
        try: fl=u.flow("^"+re.escape(d)+"$",exc=False,models=MODELS)
        except AnalysisError: continue
        v=View(u,fl)
        for e in v.calls:
            m=re.match(r"nusquids::detail::register(Body|Track)::register(Body|Track)\(",e.dem or "")
            if not m: continue
            n+=1; R.fn(fl.f)
            t=v.text(e.args[1])
            fp=None
            F_=[c for c in v.calls if c.dem and "std::function<" in c.dem and c.args and c.args[0]==e.args[2] and len(c.args)>1 and "~" not in c.dem]
            if len(F_)==1:
                k=F_[0].args[1].single()
                if k and k[0]=="g": fp=u.G.get(k[1],{}).get("dem") or demname(u,k[1])
            else:
                G_={k[1] for x in fl.effects if x.kind=="store" and x.root is not None and var(x.root)==e.args[2] for k in [x.val.single()] if k and k[0]=="g"}
                G_={x for x in (demname(u,g) or u.G.get(g,{}).get("dem") for g in G_) if x and "::Deserialize(" in x}
                if len(G_)==1: fp=G_.pop()
            if t is None or fp is None: odd+=1; R.und("registration: name and function (%s)"%d,e.loc); continue
            mm=re.match(r"(nusquids::[A-Za-z0-9_:]+)::Deserialize\(long\)",fp)
            K=mm.group(1) if mm else None
            if K is None: odd+=1; R.und("registration of '%s'"%t,e.loc); continue
            own=name_of(u,K+"::GetName")
            R.check(None if own is None else own==t,"%s is registered under the name it reports"%SHORT(K),e.loc,detail="'%s' instead of '%s'"%(t,own))
            istrack=SHORT(K).endswith("::Track")
            R.check((m.group(1)=="Track")==istrack,"%s is registered with the factory of its sort"%SHORT(K),e.loc)
            if t in reg[m.group(1)]: R.bad("%s and %s are registered under different names"%(SHORT(K),SHORT(reg[m.group(1)][t])),e.loc)
            reg[m.group(1)][t]=K
    if not n: R.und("registration of the kinds"); return
    for K in KS:
        own=name_of(u,K+"::GetName"); sort="Track" if SHORT(K).endswith("::Track") else "Body"
        R.check(None if own is None or own not in reg[sort] and odd else reg[sort].get(own)==K,"%s: the factory rebuilds it from its name"%SHORT(K),None)
def demname(u,mangled):
    for d,f in u.fns.items():
        if f["name"]==mangled or f["name"]+".orig"==mangled or mangled+".orig"==f["name"]: return d
    return None
main("C29",RULE,run)
