"""Gated dataflow over the normalised IR exported by tool/nsqx.

run(fn) interprets every instruction once per structured pass, merging states at
joins with gated values (no path enumeration), solving loop recurrences to closed
forms over a loop counter, and recording an ordered list of guarded effects.
Nothing of the analysed program is executed.
"""
from fractions import Fraction
import json, re
from alg import *
import alg

class AnalysisError(Exception): pass
class NotBuilt(AnalysisError): pass


class Block:
    __slots__=("id","insts","succ","pred")
    def __init__(s,id,insts): s.id=id; s.insts=insts; s.succ=[]; s.pred=[]

ABORT=("__cxa_throw","__cxa_rethrow","__assert_fail","abort","_ZSt9terminatev","_Unwind_Resume","__clang_call_terminate","exit","_exit")

class Func:
    def __init__(s,j,exc=False):
        s.j=j; s.name=j["name"]; s.dem=j["dem"]; s.exc=exc
        s.args=j["args"]; s.file=j.get("file"); s.line=j.get("line")
        s.B={}; s.inst={}
        for b in j["blocks"]:
            s.B[b["id"]]=Block(b["id"],b["insts"])
            for i in b["insts"]: s.inst[i["id"]]=i
        s.entry=j["blocks"][0]["id"]
        for b in s.B.values():
            t=b.insts[-1]; op=t["op"]
            if op=="br": b.succ=list(t["succ"])
            elif op=="switch": b.succ=[c[1] for c in t["cases"]]+[t["default"]]
            elif op=="invoke":
                if exc: b.succ=[t["normal"],t["unwind"]]
                else: b.succ=[] if t.get("noreturn") else [t["normal"]]
            else: b.succ=[]
            b.succ=list(dict.fromkeys(b.succ))
        # reachable, rpo
        order=[]; seen=set()
        st=[(s.entry,iter(s.B[s.entry].succ))]; seen.add(s.entry)
        while st:
            u,it=st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v,iter(s.B[v].succ))); break
            else:
                order.append(u); st.pop()
        s.rpo=order[::-1]; s.num={b:i for i,b in enumerate(s.rpo)}
        s.B={k:v for k,v in s.B.items() if k in seen}
        for b in s.B.values():
            for v in b.succ: s.B[v].pred.append(b.id)
        s._doms(); s._loops(); s._aborting()
    def _doms(s):
        idom={s.entry:s.entry}; ch=True
        while ch:
            ch=False
            for b in s.rpo[1:]:
                new=None
                for p in s.B[b].pred:
                    if p in idom:
                        new=p if new is None else s._isect(idom,p,new)
                if new is not None and idom.get(b)!=new: idom[b]=new; ch=True
        s.idom=idom
    def _isect(s,idom,a,b):
        while a!=b:
            while s.num[a]>s.num[b]: a=idom[a]
            while s.num[b]>s.num[a]: b=idom[b]
        return a
    def dom(s,a,b):
        while True:
            if a==b: return True
            if b==s.entry: return False
            b=s.idom[b]
    def _loops(s):
        s.loops={}
        for u in s.rpo:
            for v in s.B[u].succ:
                if s.num[v]<=s.num[u]:
                    if not s.dom(v,u): raise AnalysisError("irreducible control flow in "+s.dem)
                    L=s.loops.setdefault(v,{"header":v,"latches":[],"body":{v}})
                    L["latches"].append(u)
                    st=[u]
                    while st:
                        x=st.pop()
                        if x in L["body"]: continue
                        L["body"].add(x); st+=s.B[x].pred
        # parent
        hs=sorted(s.loops,key=lambda h:len(s.loops[h]["body"]))
        for h in hs:
            s.loops[h]["parent"]=None
            for g in hs:
                if g!=h and h in s.loops[g]["body"] and len(s.loops[g]["body"])>len(s.loops[h]["body"]):
                    s.loops[h]["parent"]=g; break
        s.inner={}  # block -> innermost loop header
        for h in hs:
            for b in s.loops[h]["body"]: s.inner.setdefault(b,h)
    def _aborting(s):
        """blocks from which no ret/resume is reachable"""
        good=set(); st=[]
        for b in s.B.values():
            if b.insts[-1]["op"] in("ret","resume"): st.append(b.id)
        while st:
            x=st.pop()
            if x in good: continue
            good.add(x); st+=s.B[x].pred
        s.abort={b for b in s.B if b not in good}

class Obj:
    __slots__=("ver","cells","evs")
    def __init__(o,ver=0,cells=None,evs=()): o.ver=ver; o.cells=cells or {}; o.evs=evs
    def copy(o): return Obj(o.ver,dict(o.cells),o.evs)

class State:
    __slots__=("objs",)
    def __init__(s,objs=None): s.objs=objs if objs is not None else {}
    def copy(s): return State(dict(s.objs))
    def get(s,root):
        o=s.objs.get(root)
        if o is None:
            o=Obj("undef" if root[0] in("alloca",) or (root[0]=="call" and root[1] in NEWFN) else 0)
        return o
    def put(s,root,o): s.objs[root]=o

NEWFN=("_Znwm","_Znam","malloc")

class Effect:
    def __init__(e,**k): e.__dict__.update(k)
    def __repr__(e):
        return "<%s g=%s L=%s %s @%s>"%(e.kind,showc(e.guard),e.loops,getattr(e,"txt",""),e.loc)

PURE_MATH={"exp","log","sqrt","pow","fabs","sin","cos","tan","asin","acos","atan","atan2","sinh","cosh","tanh","log10","log2","exp2","cbrt","erf","erfc","hypot","floor","ceil","round","trunc","fmod","acosh","asinh","atanh","lgamma","tgamma","gsl_complex_rect","log1p","expm1"}

def split_params(dem):
    """parameter type list of a demangled signature, and whether the method is const"""
    # find the last top-level parameter list
    d=dem; const=False
    if d.endswith(" const"): d=d[:-6]; const=True
    if not d.endswith(")"):
        return None,const
    depth=0; i=len(d)-1
    ang=0
    while i>=0:
        c=d[i]
        if c==")": depth+=1
        elif c=="(":
            depth-=1
            if depth==0: break
        i-=1
    body=d[i+1:-1]; out=[]; cur=""; dp=0
    for c in body:
        if c in "(<[{": dp+=1
        elif c in ")>]}": dp-=1
        if c=="," and dp==0: out.append(cur.strip()); cur=""
        else: cur+=c
    if cur.strip(): out.append(cur.strip())
    return out,const

def base_name(dem):
    """qualified function name without parameters and template arguments"""
    p,_=split_params(dem)
    d=dem
    if d.endswith(" const"): d=d[:-6]
    if d.endswith(")"):
        depth=0; i=len(d)-1
        while i>=0:
            if d[i]==")": depth+=1
            elif d[i]=="(":
                depth-=1
                if depth==0: break
            i-=1
        d=d[:i]
    # strip template args
    out=""; dp=0; k=0
    while k<len(d):
        c=d[k]
        if d.startswith("operator<<",k) or d.startswith("operator<=",k): out+=d[k:k+10] if dp==0 else ""; k+=10; continue
        if d.startswith("operator<",k) and dp==0 and not re.match(r"operator<[A-Za-z:]",d[k:]): out+="operator<"; k+=9; continue
        if d.startswith("operator->",k): out+="operator->" if dp==0 else ""; k+=10; continue
        if d.startswith("operator>>",k): out+="operator>>" if dp==0 else ""; k+=10; continue
        if d.startswith("operator>",k): out+="operator>" if dp==0 else ""; k+=9; continue
        if c=="<": dp+=1
        elif c==">": dp-=1
        elif dp==0: out+=c
        k+=1
    # drop return type of template functions
    out=out.strip()
    m=re.match(r"^(?:.*\s)?((?:[\w~{}#()\d' ]+::)*(?:operator.*|[~\w]+))$",out)
    if " " in out and "operator" not in out:
        out=out.split(" ")[-1] if "lambda" not in out else out
    return out

def retype(v,ty):
    k=v.single()
    if k is None or ty in("w8",None): return v
    if k[0]=="load" and k[3]=="w8": return var(k[:3]+(ty,))
    if k[0]=="ite" and any(x.single() is not None and x.single()[-1]=="w8" for x in k[2:4]): return ite(k[1],retype(k[2],ty),retype(k[3],ty))
    return v
def under(p,g):
    """p with the choices decided by g made"""
    def am(k):
        if k[0]=="ite":
            if bimp(g,k[1]): return rw.poly(k[2])
            if band(g,k[1])==F: return rw.poly(k[3])
        return None
    rw=Rewriter(am); return rw.poly(p)
def brestr_under(c,g):
    return T if bimp(g,c) else F if band(g,c)==F else c
class Flow:
    summ={}; retguard=F; ret=None; endstate=None
    def __init__(s,fn,globals_=None,ret_pure=None,const_callees=(),clobber=None,nonalias=True,hints=None,argvals=None,skip=None,models=()):
        s.models=models
        s.f=fn; s.G=globals_ or {}
        s.env={}; s.effects=[]; s.loopinfo={}; s.events={}; s.calls={}
        s.const_callees=const_callees; s.hints=hints or {}
        s.loopstack=[]; s.ret=None; s.rets=[]
        s.final=True; s.expand_limit=8
        s.argvals=argvals or {}
        s.warn=[]; s.initobjs={}
        s.pure=ret_pure or (lambda d:False)
        s.exitlv={}
        for k,a in enumerate(fn.args):
            v=s.argvals.get(k)
            if v is None: v=var(("arg",k,a["name"] or "a%d"%k,a["ty"]))
            s.env[a["id"]]=v
    # ------------------------------------------------------------ utilities
    def isptr(s,k):
        if k[0] in("alloca","g","gep"): return True
        if k[0]=="arg": return k[3]=="ptr"
        if k[0] in("load","call","mu","ext"): return k[-1]=="ptr"
        if k[0]=="ite": return s.root(k[2]) is not None or s.root(k[3]) is not None
        return False
    def root(s,p):
        r=None
        for m,c in p.t.items():
            if len(m)==1 and m[0][1]==1 and c==1:
                k=akey(m[0][0])
                if s.isptr(k):
                    if r is not None: return None
                    r=k
        return r
    def split(s,p):
        r=s.root(p)
        if r is None: return None,p
        return r,p-var(r)
    def loc(s,i):
        l=i.get("loc")
        if not l: return None
        # innermost repo frame
        for f,ln,fn in l:
            if "/repo/" in f or f.startswith("src/") or f.startswith("include/") or "/verif/" in f: return (f,ln,fn)
        return tuple(l[0])
    def eff(s,kind,guard,inst,**k):
        e=Effect(kind=kind,guard=guard,loops=tuple(s.loopstack),loc=s.loc(inst) if inst else None,inst=inst["id"] if inst else None,**k)
        if s.final: s.effects.append(e)
        return e
    # ------------------------------------------------------------ operands
    def val(s,o):
        k=o[0]
        if k=="i":
            v=s.env.get(o[1])
            if v is None: v=var(("undefd",o[1]))
            return v if isinstance(v,Poly) else s.b2p(v)
        if k=="c": return const(int(o[1]))
        if k=="f":
            if o[1] in("inf","-inf","nan","-nan") or "nan" in o[1] or "inf" in o[1]: return var(("fconst",o[1]))
            return const(fr(float.fromhex(o[1])))
        if k=="n": return ZERO
        if k=="z": return ZERO
        if k=="u": return var(("undef",))
        if k=="g": return var(("g",o[1]))
        if k=="e":
            if o[1]=="gep": return s.val(o[2])+const(o[3])
            if o[1] in("ptrtoint","inttoptr"): return s.val(o[2])
            return var(("ce",json.dumps(o)))
        if k=="a": return var(("agg",json.dumps(o)))
        return var(("x",json.dumps(o)))
    def b2p(s,c):
        return ite(c[1],ONE,ZERO)
    def cond(s,o):
        if o[0]=="c": return T if int(o[1])&1 else F
        if o[0] in("u",): return cvar(("bool",var(("undef",))))
        if o[0]=="i":
            v=s.env.get(o[1])
            if isinstance(v,tuple): return v[1]
            if v is None: return cvar(("bool",var(("undefd",o[1]))))
            return s.p2b(v)
        return cvar(("bool",s.val(o)))
    def p2b(s,p):
        if p.isconst(): return T if int(p.cval())&1 else F
        k=p.single()
        if k and k[0]=="ite":
            return bite(k[1],s.p2b(k[2]),s.p2b(k[3]))
        return cvar(("bool",p))
    # ------------------------------------------------------------ memory
    def load(s,st,addr,sz,ty,inst=None):
        r,off=s.split(addr)
        if r is None:
            # ite of pointers: distribute
            return var(("load",addr,"?",ty))
        if r[0]=="ite":
            rest=addr-var(r)
            if r[2].isconst(): return s.load(st,r[3]+rest,sz,ty,inst)
            if r[3].isconst(): return s.load(st,r[2]+rest,sz,ty,inst)
            return ite(r[1],s.load(st,r[2]+rest,sz,ty,inst),s.load(st,r[3]+rest,sz,ty,inst))
        if r[0]=="g":
            v=s.gload(r[1],off,ty)
            if v is not None: return v
        o=st.get(r)
        if off.isconst():
            c=o.cells.get(off.cval())
            if c is not None:
                if c[0]==sz: return retype(c[1],ty)
                return var(("load",addr,("part",)+(c[1],),ty))
            for k,(csz,cv) in o.cells.items():
                if k<off.cval()+sz and off.cval()<k+csz:
                    kk=cv.single()
                    if cv.isconst() and cv.cval()==0: return ZERO
                    return var(("load",addr,("part",cv,int(off.cval()-k)),ty))
        else:
            if o.cells and not o.evs:
                pass
        if o.evs:
            v=s.resolve(o,r,off,sz,ty)
            if v is not None: return v
            return var(("load",addr,("ev",)+o.evs[-1:]+(o.ver,),ty))
        if not off.isconst() and o.cells:
            # symbolic read of an object with known constant cells
            v=s.table_read(o,off,sz)
            if v is not None: return v
            return var(("load",addr,("cells",tuple(sorted((k,v[1]) for k,v in o.cells.items())),o.ver),ty))
        return var(("load",addr,o.ver,ty))
    def table_read(s,o,off,sz):
        return None
    def gload(s,g,off,ty):
        G=s.G.get(g)
        if not G or not G.get("const") or "init" not in G: return None
        if not off.isconst(): return None
        o=int(off.cval()); init=G["init"]
        ity=G.get("ity","")
        def scal(i):
            return s.val(i) if i[0] in("c","f","n","g") else None
        if init[0] in("c","f","g") and o==0: return scal(init)
        m=re.match(r"\[(\d+) x (double|i64|i32|ptr|i8)\]",ity)
        if m and init[0]=="a":
            w={"double":8,"i64":8,"i32":4,"ptr":8,"i8":1}[m.group(2)]
            if o%w==0 and 0<=o//w<len(init)-1: return scal(init[1+o//w])
        if init[0]=="z": return ZERO
        return None
    def store(s,st,addr,sz,v,guard,inst,vty):
        r,off=s.split(addr)
        if r is None:
            s.eff("wstore",guard,inst,addr=addr,val=v,sz=sz); return
        if r[0]=="ite" and (r[2].isconst() or r[3].isconst()):
            return s.store(st,(r[3] if r[2].isconst() else r[2])+addr-var(r),sz,v,guard,inst,vty)
        if r[0]=="ite":
            rest=addr-var(r)
            for c,p in((r[1],r[2]),(bnot(r[1]),r[3])):
                a=p+rest; old=s.load(st,a,sz,vty)
                s.store(st,a,sz,ite(c,v,old),guard,inst,vty)
            return
        o=st.get(r).copy()
        s.eff("store",guard,inst,addr=addr,val=v,root=r,off=off,sz=sz,ty=vty)
        if off.isconst():
            k=off.cval()
            for x in [x for x,(cs,_) in o.cells.items() if x<k+sz and k<x+cs]: del o.cells[x]
            o.cells[k]=(sz,v)
            st.put(r,o)
        else:
            eid=inst["id"]
            s.events[eid]=Effect(kind="astore",loops=tuple(s.loopstack),root=r,off=off,sz=sz,val=v,guard=guard,inst=eid,loc=s.loc(inst))
            # constant cells of the same object may be overwritten
            o.cells={}
            o.evs=tuple(x for x in o.evs if x!=eid)+(eid,)
            st.put(r,o)
    def clobber(s,st,r,token):
        o=Obj(token); st.put(r,o)
    def resolve(s,o,r,off,sz,ty):
        for eid in reversed(o.evs):
            e=s.events[eid]
            if e.kind=="astore":
                if e.sz!=sz: return None
                live=[L for L in e.loops if L not in s.loopstack]
                m=s.unify(e.off,off,live)
                if m is None: return None
                if m=="disjoint": continue
                if not s.covered(e,m,live): return None
                if any(s.unstable(e.val,L) for L in live): return None
                if live and not s.lastwriter(o,e,m,live,off): return None
                v=subst(e.val,m)
                return v
            elif e.kind=="acopy":
                # memmove: dst[off0..off0+len) = src
                d=off-e.off
                if d.isconst() or True:
                    if s.inrange(d,e.len,sz):
                        return s.load_at(e,d,sz,ty)
                return None
            else: return None
        return None
    def lastwriter(s,o,e,m,live,off):
        """no other event of a shared finished loop overwrites the location in a later iteration"""
        for L in live:
            if m.get(("lv",L))==var(("lv",L)):
                t=s.loopinfo.get(L,{}).get("trip")
                if t is None or not t.isconst() or t.cval()<1 or ("lv",L) in deep_atoms(e.val): return False
        for x in o.evs:
            e2=s.events[x]
            if e2 is e or e2.kind!="astore": 
                if e2 is not e and any(L in live for L in e2.loops): return False
                continue
            sh=[L for L in live if L in e2.loops]
            if not sh: continue
            live2=[L for L in e2.loops if L not in s.loopstack]
            m2=s.unify(e2.off,off,live2)
            if m2 is None: return False
            if m2=="disjoint": continue
            for L in sh:
                d=m2[("lv",L)]-m[("lv",L)]
                if not d.isconst(): return False
                if d.cval()>0: return False
                if d.cval()<0: break
        return True
    def load_at(s,e,d,sz,ty):
        src=e.src+d
        return s.load(e.state,src,sz,ty)
    def inrange(s,d,ln,sz):
        # d in [0,len): d = sz*idx, len = sz*n
        idx=d.scale(Fraction(1,sz)); n=ln.scale(Fraction(1,sz))
        return s.idx_in(idx,n)
    def idx_in(s,idx,n):
        if n is None: return False
        if idx.isconst() and n.isconst(): return 0<=idx.cval()<n.cval()
        k=idx.single()
        if k and k[0]=="lv":
            t=s.loopinfo.get(k[1],{}).get("trip")
            if t is not None and (t==n): return True
        if (n-idx).isconst() and (n-idx).cval()>=1: 
            return True
        return False
    def covered(s,e,m,live):
        for L in live:
            idx=m.get(("lv",L))
            if idx is None: return False
            if not s.idx_in(idx,s.loopinfo.get(L,{}).get("trip")): return False
        return True
    def unify(s,pat,q,loops):
        """match q against pat whose bound variables are lv of `loops`"""
        lvs=[("lv",L) for L in loops]
        if not lvs: 
            if pat==q: return {}
            d=pat-q
            if d.isconst(): return "disjoint"
            return None
        # cofactor of each lv
        cof={}; rest=pat
        for k in lvs:
            a=atom(k); c=ZERO
            for mth,cf in pat.t.items():
                e=dict(mth).get(a,0)
                if e==1:
                    c=c+Poly({tuple(x for x in mth if x[0]!=a):cf})
                elif e!=0: return None
            if not c.t: cof[k]=None
            else: cof[k]=c
            rest=rest-c*var(k)
        if any(("lv",L) in deep_atoms(rest) for L in loops): return None
        d=q-rest; out={}
        for k in sorted([k for k in lvs if cof[k] is not None],key=lambda k:-max(len(m) for m in cof[k].t)):
            c=cof[k]
            if len(c.t)!=1: 
                # divide exactly when possible
                qd=polydiv(d,c)
                if qd is None: return None
                out[k]=qd; d=d-qd*c; continue
            (mc,cc),=c.t.items()
            got=ZERO
            for mth,cf in d.t.items():
                dm=dict(mth); ok=True
                for a,e in mc:
                    if dm.get(a,0)<e: ok=False; break
                if not ok: continue
                val=Fraction(cf)/cc
                if val.denominator!=1: continue
                nm=mmul(mth,tuple((a,-e) for a,e in mc))
                got=got+Poly({nm:int(val)})
            out[k]=got; d=d-got*c
        if d.t: return None
        for k in lvs:
            if cof[k] is None: out[k]=var(k)
        return out
    # ------------------------------------------------------------ merging
    def merge(s,ins):
        """ins: list of (guard,State). returns guard,State"""
        if len(ins)==1: return ins[0][0],ins[0][1].copy()
        G=bor(*[g for g,_ in ins])
        roots=[]
        for g,st in ins:
            for r in st.objs:
                if r not in roots: roots.append(r)
        out=State()
        for r in roots:
            os=[st.get(r) for _,st in ins]
            if all(o is os[0] for o in os): out.objs[r]=os[0]; continue
            same=all(o.ver==os[0].ver and o.evs==os[0].evs for o in os)
            offs={}
            for o in os:
                for k,(sz,v) in o.cells.items(): offs.setdefault(k,sz)
            if same:
                n=Obj(os[0].ver,{},os[0].evs)
            else:
                # longest common prefix of events is kept; the rest is an unknown version
                n=Obj(("m",)+tuple((o.ver,o.evs) for o in os),{},())
            for k,sz in offs.items():
                vs=[]
                for (g,st),o in zip(ins,os):
                    c=o.cells.get(k)
                    if c is not None and c[0]==sz: vs.append(c[1])
                    elif c is None: vs.append(s.load(st,var(r)+const(k),sz,s.cellty(os,k)))
                    else: vs=None; break
                if vs is None: continue
                n.cells[k]=(sz,s.gate(ins,vs,G))
            out.objs[r]=n
        return G,out
    def cellty(s,os,k):
        for o in os:
            c=o.cells.get(k)
            if c:
                if s.root(c[1]) is not None: return "ptr"
                a=c[1].single()
                if a and a[0] in("load","call","mu"): return a[-1]
                return "?" if c[0]!=8 else "w8"
        return "?"
    def gate(s,ins,vs,G):
        v=vs[-1]
        rem=G
        # later edges are the default
        for (g,_),x in list(zip(ins,vs))[-2::-1]:
            c=brestr(g,G)
            v=ite(c,x,v)
        return v
    def gateb(s,ins,vs,G):
        v=vs[-1]
        for (g,_),x in list(zip(ins,vs))[-2::-1]:
            v=bite(brestr(g,G),x,v)
        return v
    # ------------------------------------------------------------ driver
    def run(s):
        st=State()
        for r,o in s.initobjs.items(): st.objs[r]=o
        s.edge={}   # (u,v)->(guard,state)
        s.region(s.f.entry,None,[(T,st,None)])
        # return value
        if s.rets:
            G=bor(*[g for g,_,_ in s.rets])
            if all(v is not None for _,_,v in s.rets):
                ins=[(g,x) for g,x,_ in s.rets]; vs=[v for _,_,v in s.rets]
                if all(isinstance(v,Poly) for v in vs): s.ret=s.gate(ins,vs,G)
            s.retguard=G
            _,s.endstate=s.merge([(g,x) for g,x,_ in s.rets])
        return s
    def region(s,entry,loop,ins):
        """process the acyclic region headed by entry. loop: header id or None"""
        f=s.f
        body=f.loops[loop]["body"] if loop is not None else set(f.B)
        order=[b for b in f.rpo if b in body]
        inedges={b:[] for b in body}
        inedges[entry]=list(ins)
        exits=[]; latch=[]
        skip=set()
        for b in order:
            if b in skip: continue
            ie=inedges[b]
            if not ie: continue
            il=f.inner.get(b)
            if il!=loop and f.loops.get(b) is not None and b!=loop:
                # inner loop header
                outs=s.loop(b,ie)
                skip|=f.loops[b]["body"]
                for (u,v,g,stt) in outs: s.send(v,u,g,stt,body,loop,inedges,exits,latch)
                continue
            g,stt=s.enter(b,ie)
            for (v,g2,st2) in s.block(b,g,stt):
                s.send(v,b,g2,st2,body,loop,inedges,exits,latch)
        return exits,latch
    def send(s,v,u,g,st,body,loop,inedges,exits,latch):
        if g==F: return
        if v==loop: latch.append((g,st,u))
        elif v not in body: exits.append((u,v,g,st))
        else: inedges[v].append((g,st,u))
    def enter(s,b,ie):
        # combine duplicate edges from the same predecessor
        d={}
        for g,st,u in ie:
            if u in d: d[u]=(bor(d[u][0],g),st)
            else: d[u]=(g,st)
        ins=[(g,st) for u,(g,st) in d.items()]; us=list(d)
        G,st=s.merge(ins) if len(ins)>1 else (ins[0][0],ins[0][1].copy())
        for i in s.f.B[b].insts:
            if i["op"]!="phi": break
            if (b,i["id"]) in s.phival: s.env[i["id"]]=s.phival[(b,i["id"])]; continue
            inc={x[0]:x[1] for x in i["inc"]}
            if i["ty"]=="i1":
                vs=[s.cond(inc[u]) for u in us]
                s.env[i["id"]]=("b",s.gateb(ins,vs,G) if len(vs)>1 else vs[0])
            else:
                vs=[s.val(inc[u]) for u in us]
                s.env[i["id"]]=s.gate(ins,vs,G) if len(vs)>1 else vs[0]
        return G,st
    phival={}
    # ------------------------------------------------------------ loops
    def loop(s,h,ie):
        f=s.f; L=f.loops[h]; body=L["body"]; lid=h
        # entry state
        saved_phi=dict(s.phival)
        d={}
        for g,st,u in ie:
            if u in d: d[u]=(bor(d[u][0],g),st)
            else: d[u]=(g,st)
        ins=[(g,st) for g,st in d.values()]; us=list(d)
        G,est=s.merge(ins) if len(ins)>1 else (ins[0][0],ins[0][1].copy())
        phis=[i for i in f.B[h].insts if i["op"]=="phi"]
        init={}
        for i in phis:
            inc={x[0]:x[1] for x in i["inc"]}
            if i["ty"]=="i1":
                vs=[s.cond(inc[u]) for u in us]; init[i["id"]]=("b",s.gateb(ins,vs,G))
            else:
                vs=[s.val(inc[u]) for u in us]; init[i["id"]]=s.gate(ins,vs,G)
        lv=var(("lv",lid))
        s.loopinfo[lid]={"header":h,"trip":None,"entry":G,"parent":s.loopstack[-1] if s.loopstack else None,"exits":[]}
        closed={}     # phi id -> value per iteration
        mclosed={}    # (root,off)->(sz,value)
        written={}    # root -> set of const offs | 'all'
        fin=s.final; s.final=False
        s.loopstack.append(lid)
        prev=None; trip=None; exitlv=None; contedge=None
        for it in range(7):
            s.phival=dict(saved_phi)
            for i in phis:
                v=closed.get(i["id"])
                if v is None:
                    v=("b",cvar(("bool",var(("mu",lid,i["id"],"i1"))))) if i["ty"]=="i1" else var(("mu",lid,i["id"],i["ty"]))
                s.phival[(h,i["id"])]=v
            st=est.copy()
            for r,w in written.items():
                o=st.get(r)
                if w=="all":
                    n=Obj(("loop",lid,o.ver) ,{},())
                    st.put(r,n)
                else:
                    n=o.copy()
                    if "ev" in w: n=Obj(("loop",lid,o.ver),dict(o.cells),())
                    for k in w:
                        if k=="ev": continue
                        sz=w[k]
                        for x in [x for x,(cs,_) in n.cells.items() if x<k+sz and k<x+cs]: del n.cells[x]
                        c=mclosed.get((r,k))
                        n.cells[k]=(sz,c if c is not None else var(("mu",lid,(r,k),w[k] and s.mutype.get((r,k),"w%d"%sz))))
                    st.put(r,n)
            s.contedge_drop=getattr(s,"contedge_drop",{})
            exits,latch=s.region(h,lid,[(G,st,None)]) if True else None
            # gather writes
            nw={}
            for g2,st2,u in latch:
                for r,o in st2.objs.items():
                    if s.localroot(r,lid): continue
                    o0=st.get(r)
                    if o is o0: continue
                    w={}
                    if o.ver!=o0.ver: nw[r]="all"; continue
                    if o.evs!=o0.evs: w["ev"]=1
                    for k,(sz,v) in o.cells.items():
                        c0=o0.cells.get(k)
                        if c0 is None or c0!=(sz,v): w[k]=sz; s.mutype[(r,k)]=s.cellty([o],k)
                    for k in o0.cells:
                        if k not in o.cells: 
                            nw[r]="all"; w=None; break
                    if w is None: continue
                    if w: 
                        if nw.get(r)!="all": nw.setdefault(r,{}).update(w)
            changed=False
            for r,w in nw.items():
                if written.get(r)=="all": continue
                if w=="all": written[r]="all"; changed=True; continue
                x=written.setdefault(r,{})
                for k,v in w.items():
                    if k not in x: x[k]=v; changed=True
            if changed and it<5:
                continue
            # solve recurrences
            progress=False
            if latch:
                lins=[(g2,st2) for g2,st2,u in latch]; LG=bor(*[g for g,_ in lins])
                nxt={}
                for i in phis:
                    if i["id"] in closed: continue
                    inc={x[0]:x[1] for x in i["inc"]}
                    if i["ty"]=="i1":
                        vs=[s.cond(inc[u]) for _,_,u in latch]; nxt[i["id"]]=("b",s.gateb(lins,vs,LG))
                    else:
                        vs=[s.val(inc[u]) for _,_,u in latch]; nxt[i["id"]]=s.gate(lins,vs,LG)
                mn={}
                for r,w in written.items():
                    if w=="all": continue
                    for k,sz in w.items():
                        if k=="ev" or (r,k) in mclosed: continue
                        vs=[]
                        for _,st2,u in latch:
                            c=st2.get(r).cells.get(k); vs.append(c[1] if c else None)
                        if None not in vs: mn[(r,k)]=s.gate(lins,vs,LG)
                if f.exc:
                    # on the way back to the header every inner loop was left by its ordinary exit
                    nxt={k:(("b",brestr_under(v[1],LG)) if isinstance(v,tuple) else under(v,LG)) for k,v in nxt.items()}
                    mn={k:v if isinstance(v,tuple) or v is None else under(v,LG) for k,v in mn.items()}
                s.loopinfo[lid]["next"]=dict(nxt); s.loopinfo[lid]["mnext"]=dict(mn); s.loopinfo[lid]["init"]=dict(init)
                for pid,nv in nxt.items():
                    c=s.solve(lid,("mu",lid,pid,f.inst[pid]["ty"]),init[pid],nv,nxt)
                    if c is not None: closed[pid]=c; progress=True
                for (r,k),nv in mn.items():
                    mk=("mu",lid,(r,k),s.mutype.get((r,k),"?"))
                    iv=s.load(est,var(r)+const(k),written[r][k],s.mutype.get((r,k),"?"))
                    s.loopinfo[lid].setdefault("minit",{})[(r,k)]=iv
                    c=s.solve(lid,mk,iv,nv,nxt)
                    if c is not None: mclosed[(r,k)]=c; progress=True
            # trip count
            t2=s.trip(lid,exits,latch,G)
            if t2 and t2[0] is not None and t2!=(trip,exitlv,contedge):
                trip,exitlv,contedge=t2; progress=True
                s.loopinfo[lid]["trip"]=trip; s.loopinfo[lid]["exitlv"]=exitlv
                if contedge is not None: s.drop[contedge]=True
            if not progress: break
        s.loopstack.pop()
        # final recording pass
        if fin:
            s.final=True; s.loopstack.append(lid)
            exits,latch=s.region(h,lid,[(G,st.copy(),None)])
            s.loopstack.pop()
        s.final=fin
        s.loopinfo[lid]["closed"]=closed; s.loopinfo[lid]["nexits"]=len(exits); s.loopinfo[lid]["latchguard"]=bor(*[g for g,_,_ in latch]) if latch else F
        s.loopinfo[lid]["hstate"]=st; s.loopinfo[lid]["lstates"]=latch
        s.loopinfo[lid]["phis"]=phis
        # exits
        outs=[]
        multi=len(exits)>1
        if exitlv is not None and not multi: xl=exitlv
        elif exitlv is not None and len({u for u,_,_,_ in exits})==1: xl=exitlv
        else: xl=var(("lvx",lid))
        mp={("lv",lid):xl}
        rw=Rewriter(lambda k:mp.get(k))
        nx=s.ntrip(lid,exits) if f.exc and multi and xl==var(("lvx",lid)) else None
        s.loopinfo[lid]["ntrip"]=nx and nx[0]
        rwn=None; kn=None
        if nx:
            mpn={("lv",lid):nx[0]}; rwn=Rewriter(lambda k:mpn.get(k)); kn=[k for k,x in enumerate(exits) if x[0]==nx[1]][0]
            s.loopinfo[lid]["nexit"]=kn
        for k,(u,v,g,st2) in enumerate(exits):
            s.loopinfo[lid]["exits"].append((u,v,g))
            ns=State()
            for r,o in st2.objs.items():
                evs=o.evs
                if u==h and latch and written.get(r)!="all" and "ev" in (written.get(r) or {}) and exitlv is not None:
                    # leaving from the header: what the completed iterations stored is still there
                    le={st3.get(r).evs for _,st3,_ in latch}
                    if len(le)==1:
                        E,=le; evs=tuple(x for x in E if x not in evs)+evs
                w_=rwn if k==kn else rw
                n=Obj(o.ver,{kk:(sz,w_.poly(vv)) for kk,(sz,vv) in o.cells.items()},evs)
                # events inside the loop now stand for all iterations
                nr=r
                ns.objs[nr]=n
            gg=band(G,cvar(("exit",lid,k))) if multi else G
            outs.append((u,v,gg,ns))
        if multi and len(exits)==2:
            # two exits are complementary
            c=cvar(("exit",lid,0))
            outs[0]=(outs[0][0],outs[0][1],band(G,c),outs[0][3]); outs[1]=(outs[1][0],outs[1][1],band(G,bnot(c)),outs[1][3])
        if rwn: cn=bnot(cvar(("exit",lid,0))) if len(exits)==2 and kn==1 else cvar(("exit",lid,kn))
        for b in body:
            for i in f.B[b].insts:
                v=s.env.get(i["id"])
                if isinstance(v,Poly):
                    s.env[i["id"]]=rw.poly(v)
                    if rwn:
                        x=rwn.poly(v)
                        if x!=s.env[i["id"]]: s.env[i["id"]]=ite(cn,x,s.env[i["id"]])
                elif isinstance(v,tuple):
                    x=rw.cond(v[1])
                    if rwn: x=bor(band(cn,rwn.cond(v[1])),band(bnot(cn),x))
                    s.env[i["id"]]=("b",x)
        s.phival=saved_phi
        return outs
    mutype={}; drop={}
    def localroot(s,r,lid):
        """object allocated inside the loop body (address depends on the iteration)"""
        return False
    def solve(s,lid,mk,init,nxt,allnext):
        lv=var(("lv",lid))
        if isinstance(nxt,tuple):
            if isinstance(init,tuple) and nxt[1]==init[1]: return init
            return None
        if isinstance(init,tuple): return None
        if nxt==init: return init
        if nxt==var(mk): return init
        a=atom(mk)
        n=expand(nxt)
        # linear: nxt = mu + c
        if n.t.get(((a,1),))==1:
            c=n-var(mk)
            da=deep_atoms(c)
            if not any(k[0]=="mu" and k[1]==lid for k in da) and not any(k==("lv",lid) for k in da) and not s.variant(c,lid):
                return init+lv*c
            return None
        da=deep_atoms(n)
        mus=[k for k in da if k[0]=="mu" and k[1]==lid]
        if not mus and not s.unstable(n,lid):
            # wrap-around: value at iteration k>=1 is nxt(k-1)
            if ("lv",lid) in da:
                prevv=subst(n,{("lv",lid):lv-1})
                if subst(n,{("lv",lid):const(-1)})==init: return prevv
            else: prevv=n
            return ite(ceq(lv,ZERO),init,prevv)
        return None
    def unstable(s,p,lid):
        """depends on per-iteration unknowns (calls in the loop, memory versions of the loop)"""
        for k in deep_atoms(p):
            if k[0]=="mu" and k[1]==lid: return True
            if k[0]=="call" and len(k)>3 and isinstance(k[3],tuple):
                if s.vervar(k[3],lid): return True
                continue
            if k[0]=="call" and len(k)>3 and k[3] is not None: 
                i=s.f.inst.get(k[3])
                if i is not None and s.inbody(k[3],lid): return True
            if k[0]=="load" and s.vervar(k[2],lid): return True
            if k[0] in("lvx",) : return True
        return False
    def vervar(s,ver,lid):
        if isinstance(ver,tuple):
            if len(ver)>=2 and ver[0]=="loop" and ver[1]==lid: return True
            if ver and ver[0] in("ev","c","cells") and any(isinstance(x,int) and s.inbody(x,lid) for x in ver[1:]): return True
            return any(s.vervar(x,lid) for x in ver if isinstance(x,tuple))
        return False
    def inbody(s,iid,lid):
        if not hasattr(s,"_iblk"):
            s._iblk={i["id"]:b.id for b in s.f.B.values() for i in b.insts}
        return s._iblk.get(iid) in s.f.loops[lid]["body"]
    def variant(s,p,lid):
        return s.unstable(p,lid)
    def ntrip(s,lid,exits):
        """(lv value at the exit, exiting block) where one exit is an ordinary branch and the others leave by exceptions"""
        f=s.f; body=f.loops[lid]["body"]; norm=[]
        for u,v,_,_ in exits:
            if f.B[u].insts[-1]["op"]=="br" and not s.unwinds(u,v): norm.append(u)
        if len(norm)!=1: return None
        u,=norm; t=f.B[u].insts[-1]
        if len(t["succ"])!=2 or "cond" not in t or not all(f.dom(u,x) for x in f.loops[lid]["latches"]): return None
        c=s.cond(t["cond"])
        r=s.tripcond(lid,c if t["succ"][0] in body else bnot(c))
        return None if r is None else (r[1],u)
    def unwinds(s,u,v):
        """control passes u -> v only while an exception is in flight"""
        f=s.f; seen=set(); w=[u]
        while w:
            x=w.pop()
            if x in seen: continue
            seen.add(x)
            if any(i["op"]=="landingpad" for i in f.B[x].insts): continue
            if f.B[x].id==f.entry or not f.B[x].pred: return False
            if len(seen)>50: return False
            w+=f.B[x].pred
        return True
    def trip(s,lid,exits,latch,G):
        """(trip, lv value at exit, continue edge) from a single exiting branch"""
        f=s.f; body=f.loops[lid]["body"]
        us={u for u,_,_,_ in exits}
        best=None
        for u in us:
            t=f.B[u].insts[-1]
            if t["op"]!="br" or len(t["succ"])!=2 or "cond" not in t: continue
            # executed on every iteration?
            if not all(f.dom(u,x) for x in f.loops[lid]["latches"]): continue
            inside=[x for x in t["succ"] if x in body]
            if len(inside)!=1: continue
            c=s.cond(t["cond"]) if (u not in s.condat) else s.condat[u]
            cont=c if t["succ"][0] in body else bnot(c)
            r=s.tripcond(lid,cont)
            if r is None: continue
            n,lx=r
            # number of times the body after the test runs
            if best is None: best=(n,lx,(u,inside[0]),u)
        if best is None: return None
        n,lx,edge,u=best
        if len(us)>1: return None
        # executions of header part = lx+1 ; full iterations = lx
        if f.num[u]==f.num[lid] or not s.effects_before(lid,u):
            return (lx,lx,edge)
        return (lx+1,lx,edge)
    condat={}
    def effects_before(s,lid,u):
        """do blocks of the loop other than those after u do work? (rotated loops test at the latch)"""
        f=s.f
        return any(u==x for x in f.loops[lid]["latches"])
    def tripcond(s,lid,cont):
        if cont<2: return None
        v,l,h=bnode(cont)
        if not ((l,h)==(F,T) or (l,h)==(T,F)): return None
        pos=(h==T); k=ckey(v); lva=atom(("lv",lid))
        def lin(p):
            a=ZERO
            for m,c in p.t.items():
                e=dict(m).get(lva,0)
                if e==1: a=a+Poly({tuple(x for x in m if x[0]!=lva):c})
                elif e: return None
            b=p-a*var(("lv",lid))
            if ("lv",lid) in deep_atoms(b): return None
            if any(x[0]=="mu" and x[1]==lid for x in deep_atoms(p)): return None
            if s.unstable(b,lid): return None
            return a,b
        if k[0]=="eq":
            r=lin(k[1])
            if r is None or not r[0].t: return None
            a,b=r
            n=exact_div(-b,a)
            if pos: return None
            if n is None: return None
            return n,n
        if k[0]=="spos":
            r=lin(k[1])
            if r is None or not r[0].t: return None
            a,b=r     # a*lv+b>0
            if pos:   # continue while a*lv+b>0, a<0
                if a.isconst() and a.cval()==-1: return b,b
                if a.isconst() and b.isconst() and a.cval()<0:
                    n=const(-((-b.cval())//(-a.cval()))); return n,n
            else:     # continue while a*lv+b<=0, a>0 -> stops at lv = 1-b
                if a.isconst() and a.cval()==1: return ONE-b,ONE-b
            return None
        if k[0]=="ult":
            r1=lin(k[1]); r2=lin(k[2])
            if r1 is None or r2 is None: return None
            a1,b1=r1; a2,b2=r2
            if pos and not a2.t and a1.isconst() and a1.cval()==1: return b2-b1,b2-b1
            if pos and not a2.t and a1.isconst() and a1.cval()>1:
                if b2.isconst() and b1.isconst():
                    n=const(-((b1.cval()-b2.cval())//a1.cval())); return n,n
                n=exact_div(b2-b1,a1)
                if n is not None: return n,n
            if not pos and not a1.t and a2.isconst() and a2.cval()==1:
                # continue while !(b1 < lv+b2) i.e. lv+b2<=b1
                n=b1-b2+1; return n,n
            if pos and not a2.t and not a1.isconst():
                n=exact_div(b2-b1,a1)
                if n is not None: return n,n
        return None
    # ------------------------------------------------------------ blocks
    def block(s,b,g,st):
        f=s.f
        if g==F: return []
        for i in f.B[b].insts:
            op=i["op"]
            if op=="phi": continue
            if op in("br","switch","ret","unreachable","resume","invoke"): break
            s.step(i,g,st)
        t=f.B[b].insts[-1]; op=t["op"]
        if op=="br":
            if "cond" not in t or len(set(t["succ"]))==1:
                return [(t["succ"][0],g,st)]
            c=s.cond(t["cond"])
            a,bq=t["succ"]
            out=[]
            for v,cc in((a,c),(bq,bnot(c))):
                if (b,v) in s.drop and s.f.inner.get(b)==s.loopstack[-1:][0] if s.loopstack else False:
                    gg=g
                else:
                    gg=band(g,cc)
                    if gg!=F: gg=s.prune(gg)
                if gg==F: continue
                if v in f.abort and b not in f.abort:
                    s.eff("abort",gg,t,target=v)
                    s.abort_run(v,b,gg,st.copy()); continue
                out.append((v,gg,st.copy()))
            # an aborting sibling removes its condition from the continuing guard when
            # it is outside any decision: keep the guard (needed for feasibility)
            return out
        if op=="switch":
            v=s.val(t["cond"]); out=[]; rest=g
            o=t["cond"]; d=s.f.inst.get(o[1]) if o[0]=="i" else None
            bit=d is not None and d.get("ty")=="i1"
            for c,dest in t["cases"]:
                if bit: c&=1
                cc=ceq(v,const(c)); out.append((dest,band(g,cc),st.copy())); rest=band(rest,bnot(cc))
            out.append((t["default"],rest,st.copy()))
            res=[]
            for d,gg,x in out:
                if gg==F: continue
                if d in f.abort and b not in f.abort:
                    s.eff("abort",gg,t,target=d); s.abort_run(d,b,gg,x); continue
                res.append((d,gg,x))
            return res
        if op=="ret":
            v=None
            if t.get("ops"):
                o=t["ops"][0]
                vv=s.env.get(o[1]) if o[0]=="i" else None
                v=s.val(o)
            if s.final: s.rets.append((g,st,v))
            s.eff("ret",g,t,val=v)
            return []
        if op=="invoke":
            s.step(t,g,st)
            out=[]
            th=cvar(("throws",t["id"]))
            if not f.exc:
                if t.get("noreturn"): return []
                if t["normal"] in f.abort and b not in f.abort:
                    return []
                return [(t["normal"],g,st)]
            if t.get("noreturn"): return [(t["unwind"],g,st.copy())]
            return [(t["normal"],band(g,bnot(th)),st.copy()),(t["unwind"],band(g,th),st.copy())]
        if op=="resume":
            s.eff("resume",g,t,state=st.copy()); return []
        return []
    def prune(s,g):
        return g
    def abort_run(s,v,u,g,st):
        """record what an aborting continuation throws"""
        f=s.f; seen=set(); cur=v; n=0
        thrown=None; src=None
        st_=[v]
        while st_ and n<60:
            x=st_.pop(); n+=1
            if x in seen: continue
            seen.add(x)
            for i in f.B[x].insts:
                if i["op"] in("call","invoke"):
                    d=i.get("callee","")
                    if d=="__cxa_throw":
                        ti=i["args"][1]; thrown=ti[1] if ti[0]=="g" else "?"; src=i
                    elif d in ABORT or d.startswith("_ZSt") and "__throw_" in i.get("dem",""):
                        if thrown is None: thrown=d if d!="_Unwind_Resume" else None; src=i
            st_+=f.B[x].succ
        s.eff("throw",g,src if src is not None else f.B[v].insts[-1],what=thrown)
    # ------------------------------------------------------------ instructions
    def step(s,i,g,st):
        op=i["op"]; E=s.env; id=i["id"]
        if op=="getelementptr":
            if "base" not in i: E[id]=var(("gep",id)); return
            p=s.val(i["base"])+const(i["off"])
            for v,sc,ty in i["idx"]: p=p+s.val(v).scale(sc)
            E[id]=p; return
        if op=="load":
            addr=s.val(i["ops"][0])
            if i.get("atomic") or i.get("vol"):
                s.eff("aload",g,i,addr=addr); E[id]=var(("load",addr,("at",id),i["ty"])); return
            v=s.load(st,addr,i["sz"],i["ty"],i)
            s.eff("load",g,i,addr=addr,val=v,ty=i["ty"])
            if i["ty"]=="i1": E[id]=("b",s.p2b(v))
            else: E[id]=v
            return
        if op=="store":
            v=s.val(i["ops"][0]); addr=s.val(i["ops"][1])
            s.store(st,addr,i["sz"],v,g,i,i["vty"]); return
        if op=="alloca":
            E[id]=var(("alloca",id,i.get("name",""),i.get("aty",""))); return
        if op in("add","sub","mul","shl","or","and","xor","lshr","ashr","udiv","sdiv","urem","srem"):
            if i["ty"]=="i1":
                a=s.cond(i["ops"][0]); b=s.cond(i["ops"][1])
                if op=="and": r=band(a,b)
                elif op=="or": r=bor(a,b)
                elif op in("xor","add","sub"): r=bite(a,bnot(b),b)
                elif op=="mul": r=band(a,b)
                else: r=cvar(("bool",var((op,s.val(i["ops"][0]),s.val(i["ops"][1])))))
                E[id]=("b",r); return
            a=s.val(i["ops"][0]); b=s.val(i["ops"][1])
            if op in("lshr","ashr") and b.isconst() and 16<=b.cval()<64 and a.t and not a.isconst():
                # shifting up and down again keeps the low bits only
                k=2**int(b.cval())
                if all(Fraction(c).denominator==1 and c%k==0 for c in a.t.values()):
                    s.eff("trunc",g,i,val=a.scale(Fraction(1,k)),frm=i["ty"],to="i%d"%(int(i["ty"][1:])-int(b.cval())))
            E[id]=intop(op,a,b,i["ty"]); return
        if op in("fadd","fsub","fmul","fdiv","frem"):
            a=s.val(i["ops"][0]); b=s.val(i["ops"][1]); E[id]=s.fop(op,a,b); return
        if op=="fneg": E[id]=-s.val(i["ops"][0]); return
        if op in("icmp",):
            a=s.val(i["ops"][0]); b=s.val(i["ops"][1]); E[id]=("b",icmp(i["pred"],a,b)); return
        if op=="fcmp":
            a=s.val(i["ops"][0]); b=s.val(i["ops"][1]); E[id]=("b",fcmp(i["pred"],a,b)); return
        if op=="select":
            c=s.cond(i["ops"][0])
            if i["ty"]=="i1": E[id]=("b",bite(c,s.cond(i["ops"][1]),s.cond(i["ops"][2])))
            else: E[id]=ite(c,s.val(i["ops"][1]),s.val(i["ops"][2]))
            return
        if op in("zext","sext","trunc","bitcast","ptrtoint","inttoptr","uitofp","sitofp","fptoui","fptosi","fpext","fptrunc","freeze","addrspacecast"):
            src=i.get("sty",""); o=i["ops"][0]
            if src=="i1":
                c=s.cond(o)
                E[id]=ite(c,const(-1) if op=="sext" else ONE,ZERO)
                if i["ty"]=="i1": E[id]=("b",c)
                return
            if op=="freeze" and i["ty"]=="i1": E[id]=("b",s.cond(o)); return
            v=s.val(o)
            if op=="trunc" and i["ty"]=="i1":
                E[id]=("b",s.p2b(v)); return
            if op in("fptoui","fptosi"):
                E[id]=v if v.isconst() and Fraction(v.cval()).denominator==1 else var(("toint",v)); return
            if op=="bitcast" and ("double" in (src,i["ty"])) and src!=i["ty"]:
                E[id]=var(("bits",v,i["ty"])); return
            if op=="trunc":
                s.eff("trunc",g,i,val=v,frm=src,to=i["ty"])
                if v.isconst():
                    w=int(i["ty"][1:]); x=int(v.cval())&((1<<w)-1)
                    if x>>(w-1): x-=1<<w
                    E[id]=const(x); return
            E[id]=v; return
        if op=="extractvalue":
            o=i["ops"][0]; base=s.val(o)
            k=base.single()
            if k and k[0]=="ins":
                d=dict(k[2])
                if tuple(i["ix"]) in d: E[id]=d[tuple(i["ix"])]; return
                E[id]=var(("ext",k[1],tuple(i["ix"]),i["ty"])); return
            if k and k[0]=="ovf":
                if i["ix"]==[0]: E[id]=k[1]; return
                E[id]=("b",cvar(("overflow",k[1]))); return
            v=var(("ext",base,tuple(i["ix"]),i["ty"]))
            E[id]=("b",cvar(("bool",v))) if i["ty"]=="i1" else v; return
        if op=="insertvalue":
            base=s.val(i["ops"][0]); v=s.val(i["ops"][1]); k=base.single()
            if k and k[0]=="ins": d=dict(k[2]); b0=k[1]
            else: d={}; b0=base
            d[tuple(i["ix"])]=v
            E[id]=var(("ins",b0,tuple(sorted(d.items(),key=lambda x:x[0])))); return
        if op in("call","invoke"): s.call(i,g,st); return
        if op=="landingpad": 
            s.eff("landingpad",g,i,cleanup=i.get("cleanup"),clauses=i.get("clauses"))
            E[id]=var(("lpad",id)); return
        if op in("fence",): s.eff("fence",g,i); return
        if op in("atomicrmw","cmpxchg"):
            s.eff(op,g,i,addr=s.val(i["ops"][0])); E[id]=var((op,id)); return
        E[id]=var((op,id))
    def fop(s,op,a,b):
        if op=="fadd": return a+b
        if op=="fsub": return a-b
        if op=="fmul":
            if len(a.t)*len(b.t)<=s.expand_limit: return a*b
            x,y=(a,b) if repr_key(a)<=repr_key(b) else (b,a)
            return var(("fmul",x,y))
        if op=="fdiv":
            if b.isconst() and b.cval()!=0: return a.scale(Fraction(1)/Fraction(b.cval()))
            i=b.inv()
            if len(a.t)<=s.expand_limit: return a*i
            return var(("fmul",a,i))
        return var((op,a,b))
    # ------------------------------------------------------------ calls
    def call(s,i,g,st):
        E=s.env; id=i["id"]; ty=i["ty"]
        name=i.get("callee"); dem=i.get("dem","")
        args=[s.val(a) for a in i["args"]]
        def setr(v):
            if ty=="i1": E[id]=("b",s.p2b(v) if isinstance(v,Poly) else v)
            else: E[id]=v
        if name is None:
            fpv=s.val(i["fp"])
            k=fpv.single()
            if k and k[0]=="g": name=k[1]; dem=k[1]
            else:
                e=s.eff("call",g,i,name=None,dem="indirect",fp=fpv,args=args,ret=None,snap=s.snap(st,args),readonly=False,state=st.copy(),nounwind=bool(i.get("nounwind")),noreturn=False,i=i)
                s.calls[id]=e
                for a in args: s.clob_arg(st,a,("c",id))
                if ty!="void":
                    v=var(("call","indirect",(fpv,)+tuple(args),id,ty)); setr(v); e.ret=v
                return
        if name.startswith("llvm."):
            r=s.intrin(name,args,i,g,st)
            if r is not None: setr(r) if isinstance(r,Poly) else E.__setitem__(id,r)
            return
        bn=name
        if bn in PURE_MATH:
            r=purecall(bn,args,ty); setr(r); return
        if bn=="__cxa_guard_acquire":
            # first initialisation of a function-local static: analyse the initialising path
            setr(ONE); return
        if bn in("__cxa_guard_release","__cxa_guard_abort"): return
        sm=re.search(r"\bstd::(upper_bound|lower_bound|distance|find|max_element|min_element|binary_search)<",dem)
        if sm and re.match(r"(.* )?std::%s<"%sm.group(1),dem):
            # pure search: keyed by the range, the contents' version and the value sought
            a2=list(args)
            for k in range(2,len(args)):
                if i["atys"][k]=="ptr":
                    r=s.root(args[k]); o=st.objs.get(r) if r is not None else None
                    pts,_=split_params(dem)
                    vt="double" if pts and k<len(pts) and "double" in pts[k] else "i64"
                    if pts and k<len(pts) and re.search(r"const[ ]?&$",pts[k]): a2[k]=s.load(st,args[k],8,vt)
            nm="std::"+sm.group(1)
            r0=s.root(args[0]); ver=s.vertok(st.get(r0)) if r0 is not None else 0
            v=var(("call",nm,tuple(a2),("v",ver) if ver else None,ty)); setr(v)
            e=s.eff("call",g,i,name=nm,dem=dem,args=a2,ret=v,snap={},readonly=True,state=st.copy(),nounwind=True,noreturn=False,i=i)
            s.calls[id]=e
            return
        for rx,fn in s.models:
            if re.search(rx,dem):
                snap=s.snap(st,args)
                e=s.eff("call",g,i,name=name,dem=dem,args=args,ret=None,snap=snap,readonly=False,state=st.copy(),nounwind=False,noreturn=False,i=i)
                e.loopstack=list(s.loopstack); s.calls[id]=e
                v=fn(s,i,args,g,st,e)
                if v=="generic": break
                if v is not None: setr(v); e.ret=v
                return
        if name in s.summ:
            v=s.summ[name](s,args,st)
            if v is not None:
                e=s.eff("call",g,i,name=name,dem=dem,args=args,ret=v,snap={},readonly=True,state=st.copy(),nounwind=True,noreturn=False,i=i)
                s.calls[id]=e; setr(v); return
        # generic
        purefn=s.pure(dem) or i.get("readnone")
        snap=s.snap(st,args)
        e=s.eff("call",g,i,name=name,dem=dem,args=args,ret=None,snap=snap,readonly=bool(i.get("readonly")),state=st.copy(),nounwind=bool(i.get("nounwind")),noreturn=bool(i.get("noreturn")),i=i)
        s.calls[id]=e
        if ty!="void":
            if purefn: v=var(("call",name,tuple(args),None,ty))
            else: v=var(("call",name,tuple(args),id,ty))
            setr(v); e.ret=v
        if purefn or i.get("readonly"): return
        if name in NEWFN or name in("_ZdlPv","_ZdaPv","_ZdlPvm","free","_ZdaPvm"): return
        pts,cm=split_params(dem)
        ismeth=False
        if pts is not None: ismeth=len(pts)+1==len(args) or (len(pts)+2==len(args))
        for k,a in enumerate(args):
            if i["atys"][k]!="ptr": continue
            if k in i.get("sret",[]): s.clob_arg(st,a,("c",id)); continue
            if pts is not None:
                sretn=1 if i.get("sret") else 0
                idx=k-sretn
                if len(pts)+sretn==len(args): pt=pts[idx] if idx<len(pts) else ""
                elif len(pts)+sretn+1==len(args):
                    if idx==0:
                        if cm: continue
                        pt="this"
                    else: pt=pts[idx-1]
                else: pt=""
                if re.search(r"const[&*]$",pt.replace(" const &"," const&")) : continue
                # by-value class arguments passed indirectly are callee-owned copies
            if s.const_arg(name,dem,k): continue
            s.clob_arg(st,a,("c",id))
    def at_call(s,e,addr,sz,ty):
        """content of memory as seen by recorded call e"""
        sv=s.loopstack; s.loopstack=list(e.loops)
        try: return s.load(e.state,addr,sz,ty)
        finally: s.loopstack=sv
    def vertok(s,o):
        if not o.cells and not o.evs: return o.ver
        return (o.ver,o.evs,tuple(sorted((k,v) for k,v in o.cells.items())) if o.cells else ())
    def const_arg(s,name,dem,k):
        for rx,ks in s.const_callees:
            if re.search(rx,dem): return ks=="*" or k in ks
        return False
    def snap(s,st,args):
        out={}
        todo=[s.root(a) for a in args]
        n=0
        while todo and n<64:
            r=todo.pop(); n+=1
            if r is None or r in out: continue
            if r[0] in("g",): continue
            o=st.objs.get(r)
            if o is None: continue
            out[r]=o
            for k,(sz,v) in o.cells.items():
                rr=s.root(v)
                if rr is not None and rr[0] in("alloca","call"): todo.append(rr)
        return out
    def clob_arg(s,st,a,tok,depth=0):
        r=s.root(a)
        if r is None or r[0]=="g": return
        if r[0]=="ite":
            s.clob_arg(st,r[2],tok,depth); s.clob_arg(st,r[3],tok,depth); return
        o=st.objs.get(r)
        s.clobber(st,r,tok)
        if o is not None and depth<3:
            for k,(sz,v) in o.cells.items():
                rr=s.root(v)
                if rr is not None and rr[0] in("alloca",): s.clob_arg(st,v,tok,depth+1)
    def intrin(s,name,args,i,g,st):
        n=name
        if n.startswith("llvm.fmuladd") or n.startswith("llvm.fma."): return s.fop("fadd",s.fop("fmul",args[0],args[1]),args[2])
        if n.startswith("llvm.fabs"): return purecall("fabs",args,"double")
        if n.startswith("llvm.sqrt"): return purecall("sqrt",args,"double")
        if n.startswith("llvm.pow"): return purecall("pow",args,"double")
        if n.startswith("llvm.exp."): return purecall("exp",args,"double")
        if n.startswith("llvm.log."): return purecall("log",args,"double")
        if n.startswith("llvm.umax") : return ite(cult(args[0],args[1]),args[1],args[0])
        if n.startswith("llvm.umin"): return ite(cult(args[0],args[1]),args[0],args[1])
        if n.startswith("llvm.smax"): return ite(cslt(args[0],args[1]),args[1],args[0])
        if n.startswith("llvm.smin"): return ite(cslt(args[0],args[1]),args[0],args[1])
        if n.startswith("llvm.usub.sat"): return ite(cult(args[1],args[0]),args[0]-args[1],ZERO)
        if n.startswith("llvm.maxnum"): return ite(cflt(args[0],args[1]),args[1],args[0])
        if n.startswith("llvm.minnum"): return ite(cflt(args[0],args[1]),args[0],args[1])
        if n.startswith("llvm.abs"): return ite(cslt(args[0],ZERO),-args[0],args[0])
        if n.startswith("llvm.umul.with.overflow"): return var(("ovf",args[0]*args[1]))
        if n.startswith("llvm.uadd.with.overflow"): return var(("ovf",args[0]+args[1]))
        if n.startswith("llvm.expect"): return args[0]
        if n.startswith("llvm.is.fpclass"):
            return ("b",cvar(("fpclass",args[0],args[1])))
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            s.memcpy(st,args[0],args[1],args[2],g,i); return None
        if n.startswith("llvm.memset"):
            s.memset(st,args[0],args[1],args[2],g,i); return None
        if n.startswith("llvm.eh.typeid"): return var(("typeid",args[0]))
        if n.startswith("llvm.assume") or n.startswith("llvm.lifetime") or n.startswith("llvm.trap") or n.startswith("llvm.dbg") or n.startswith("llvm.invariant") or n.startswith("llvm.donothing"): return None
        if n.startswith("llvm.objectsize"): return var(("objsize",))
        if i["ty"]=="void": return None
        return var(("call",n,tuple(args),None,i["ty"]))
    def memcpy(s,st,d,src,ln,g,i):
        rs,so=s.split(src); rd,do=s.split(d)
        s.eff("memcpy",g,i,dst=d,src=src,len=ln)
        if rd is None: return
        o=st.get(rd).copy()
        if ln.isconst() and do.isconst() and rs is not None and so.isconst():
            n=ln.cval(); so_=st.get(rs); a=do.cval(); b=so.cval()
            for x in [x for x,(cs,_) in o.cells.items() if x<a+n and a<x+cs]: del o.cells[x]
            if rs[0]=="g":
                # constant aggregate: materialise 8-byte cells when possible
                G=s.G.get(rs[1]); 
                if G and "init" in G and G["init"][0]=="a" and n%8==0:
                    for q in range(0,int(n),8):
                        v=s.gload(rs[1],const(b+q),"?")
                        if v is not None: o.cells[a+q]=(8,v)
                st.put(rd,o); return
            for x,(cs,v) in so_.cells.items():
                if b<=x and x+cs<=b+n: o.cells[a+x-b]=(cs,v)
            # uncovered words become loads of the source
            if so_.ver!="undef" or so_.evs:
                covered=[(x,cs) for x,(cs,_) in so_.cells.items()]
                q=b
                while q<b+n:
                    if not any(x<q+8 and q<x+cs for x,cs in covered) and b+n-q>=8:
                        o.cells[a+q-b]=(8,s.load(st,var(rs)+const(q),8,"w8"))
                        q+=8
                    else: q+=8 if b+n-q>=8 else 1
            st.put(rd,o); return
        eid=i["id"]
        s.events[eid]=Effect(kind="acopy",loops=tuple(s.loopstack),root=rd,off=do,len=ln,src=src,state=st.copy(),guard=g,inst=eid,sz=1,loc=s.loc(i))
        o.cells={}
        o.evs=tuple(x for x in o.evs if x!=eid)+(eid,)
        st.put(rd,o)
    def memset(s,st,d,v,ln,g,i):
        rd,do=s.split(d)
        s.eff("memset",g,i,dst=d,val=v,len=ln)
        if rd is None: return
        o=st.get(rd).copy()
        if ln.isconst() and do.isconst() and v.isconst() and v.cval() in(0,-1) and ln.cval()<=4096:
            a=do.cval(); n=ln.cval()
            for x in [x for x,(cs,_) in o.cells.items() if x<a+n and a<x+cs]: del o.cells[x]
            q=0
            while n-q>=8: o.cells[a+q]=(8,const(v.cval())); q+=8
            while n-q>0: o.cells[a+q]=(1,const(v.cval())); q+=1
            st.put(rd,o); return
        eid=i["id"]
        s.events[eid]=Effect(kind="aset",loops=tuple(s.loopstack),root=rd,off=do,len=ln,val=v,guard=g,inst=eid,sz=1,loc=s.loc(i))
        o.cells={}; o.evs=tuple(x for x in o.evs if x!=eid)+(eid,)
        st.put(rd,o)

def repr_key(p): return tuple(sorted(p.t.items(),key=lambda x:x[0])) and min(p.t)
def exact_div(p,a):
    if a.isconst():
        if a.cval()==0: return None
        return p.scale(Fraction(1)/Fraction(a.cval()))
    if len(a.t)==1: 
        q=p*a.inv()
        return q if all(e>0 for m in q.t for _,e in m) else None
    return polydiv(p,a)
def polydiv(p,d):
    """exact multivariate division by leading-term elimination, or None"""
    if not p.t: return ZERO
    def lead(x): return max(x.t.items(),key=lambda y:(sum(e for _,e in y[0]),y[0]))
    lm,lc=lead(d); q=ZERO; r=p
    for _ in range(200):
        if not r.t: return q
        m,c=lead(r)
        nm=mmul(m,tuple((a,-e) for a,e in lm))
        if any(e<0 for _,e in nm): return None
        t=Poly({nm:Fraction(c)/lc}); q=q+t; r=r-t*d
    return None

def purecall(n,args,ty):
    a=args
    if n=="pow" and a[1].isconst():
        e=Fraction(a[1].cval())
        if e.denominator==1 and -8<=e<=8: 
            if len(a[0].t)<=4: return a[0].pow(int(e))
        if e==Fraction(1,2): return purecall("sqrt",[a[0]],ty)
    if n=="sqrt" and a[0].isconst() and a[0].cval()>=0:
        import math
        return var(("sqrtc",a[0]))
    if n=="fabs":
        if a[0].isconst(): return const(abs(a[0].cval()))
        p=a[0]
        if p.t and alg._lead(p)<0: p=-p
        return var(("call","fabs",(p,),None,"double"))
    return var(("call",n,tuple(a),None,ty))

def intop(op,a,b,ty):
    if op=="add": return a+b
    if op=="sub": return a-b
    if op=="mul": return a*b
    if op=="shl" and b.isconst(): return a.scale(2**int(b.cval()))
    if a.isconst() and b.isconst():
        x,y=int(a.cval()),int(b.cval()); w=int(ty[1:]) if ty[1:].isdigit() else 64; M=(1<<w)-1
        try:
            ux,uy=x&M,y&M
            r={"and":lambda:x&y,"or":lambda:x|y,"xor":lambda:x^y,"lshr":lambda:ux>>uy,"ashr":lambda:x>>y,"udiv":lambda:ux//uy,"urem":lambda:ux%uy,
               "sdiv":lambda:int(x/y),"srem":lambda:x-int(x/y)*y,"shl":lambda:(x<<y)&M}[op]()
            return const(r)
        except Exception: pass
    if op in("lshr","ashr") and b.isconst():
        k=2**int(b.cval())
        if a.t and all(Fraction(c).denominator==1 and c%k==0 for c in a.t.values()): return a.scale(Fraction(1,k))
        return var(("idiv",a,const(k),"u" if op=="lshr" else "s"))
    if op in("udiv","sdiv"):
        if b.isconst():
            k=b.cval()
            if k==1: return a
            if k and a.t and all(Fraction(c).denominator==1 and c%k==0 for c in a.t.values()): return a.scale(Fraction(1)/k)
        q=exact_div(a,b)
        if q is not None and all(Fraction(c).denominator==1 for c in q.t.values()) and not any(akey(x)[0]=="inv" for x in q.atoms()): return q
        return var(("idiv",a,b,op[0]))
    if op in("urem","srem"): return var(("irem",a,b,op[0]))
    if op=="xor":
        for x,y in((a,b),(b,a)):
            if y.isconst() and y.cval()==-1: return const(-1)-x
    if op=="and":
        for x,y in((a,b),(b,a)):
            if y.isconst() and y.cval()==0: return ZERO
            if y.isconst() and y.cval()==-1: return x
    if op=="or":
        for x,y in((a,b),(b,a)):
            if y.isconst() and y.cval()==0: return x
    x,y=(a,b)
    if op in("and","or","xor") and hash_key(y)<hash_key(x): x,y=y,x
    return var((op,x,y))
def hash_key(p): return tuple(sorted((tuple(m),float(c)) for m,c in p.t.items()))

def icmp(pred,a,b):
    if pred=="eq": return ceq(a,b)
    if pred=="ne": return bnot(ceq(a,b))
    if pred=="ult": return cult(a,b)
    if pred=="ugt": return cult(b,a)
    if pred=="uge": return bnot(cult(a,b))
    if pred=="ule": return bnot(cult(b,a))
    if pred=="slt": return cslt(a,b)
    if pred=="sgt": return cslt(b,a)
    if pred=="sge": return bnot(cslt(a,b))
    if pred=="sle": return bnot(cslt(b,a))
def fcmp(pred,a,b):
    if pred in("oeq","ueq"): return cfeq(a,b)
    if pred in("one","une"): return bnot(cfeq(a,b))
    if pred in("olt","ult"): return cflt(a,b)
    if pred in("ogt","ugt"): return cflt(b,a)
    if pred in("oge","uge"): return bnot(cflt(a,b))
    if pred in("ole","ule"): return bnot(cflt(b,a))
    if pred=="uno": return cvar(("nan",a)) if a==b or b.isconst() else bor(cvar(("nan",a)),cvar(("nan",b)))
    if pred=="ord": return bnot(fcmp("uno",a,b))
    return T if pred=="true" else F

_rm={}
def brestr(f,g):
    """Coudert-Madre restrict: simplify f using don't-care set !g"""
    if g==F: return F
    if g==T or f<2: return f
    k=(f,g); r=_rm.get(k)
    if r is not None: return r
    fv,fl,fh=bnode(f); gv,gl,gh=bnode(g)
    if gv<fv: r=brestr(f,bor(gl,gh))
    elif fv<gv: r=alg._mk(fv,brestr(fl,g),brestr(fh,g))
    elif gl==F: r=brestr(fh,gh)
    elif gh==F: r=brestr(fl,gl)
    else: r=alg._mk(fv,brestr(fl,gl),brestr(fh,gh))
    _rm[k]=r; return r

_exp=None
def expand(p):
    """multiply out delayed floating point products"""
    global _exp
    if _exp is None: 
        _exp=Rewriter(None,None)
        def am(k):
            if k[0]=="fmul": return _exp.poly(k[1])*_exp.poly(k[2])
            return None
        _exp.amap=am
    return _exp.poly(p)
def xsubst(p,m):
    """substitute atoms then multiply out (deep)"""
    rw=Rewriter()
    def am(k):
        r=m(k) if callable(m) else m.get(k)
        if r is not None: return r
        if k[0]=="fmul": return rw.poly(k[1])*rw.poly(k[2])
        return None
    rw.amap=am
    return rw.poly(p)
def _fold(k):
    if k[0]=="fmul": return None
    if k[0]=="idiv":
        return intop("lshr" if k[3]=="u" and False else ("udiv" if k[3]=="u" else "sdiv"),k[1],k[2],"i64") if (k[1].isconst() and k[2].isconst()) or k[2].isconst() else None
    if k[0]=="call" and k[1] in PURE_MATH and k[3] is None: return purecall(k[1],list(k[2]),k[4])
    return None
alg._folders.append(_fold)

def eqrat(p,q,tol=1e-11):
    """p == q as rational functions, up to rounding of constants"""
    M=("marker",); ma=atom(M)
    d=p-q*var(M)
    for _ in range(12):
        mine={}
        for m in d.t:
            for a,e in m:
                if e<0: mine[a]=min(mine.get(a,0),e)
        if mine:
            d=d*Poly({tuple(sorted((a,-e) for a,e in mine.items())):1}); continue
        invs=[a for a in d.atoms() if akey(a)[0]=="inv"]
        if not invs: break
        a=invs[0]; qq=akey(a)[1]
        mx=max(dict(m).get(a,0) for m in d.t)
        acc=ZERO
        for m,c in d.t.items():
            e=dict(m).get(a,0)
            rest=tuple((b,x) for b,x in m if b!=a)
            acc=acc+Poly({rest:c})*qq.pow(mx-e)
        d=acc
    A={};Bq={}
    for m,c in d.t.items():
        if dict(m).get(ma,0): Bq[tuple(x for x in m if x[0]!=ma)]=-c
        else: A[m]=c
    return close(Poly(A),Poly(Bq),tol)

_cache={}
class Unit:
    """exported translation unit"""
    def __init__(s,path):
        s.j=json.load(open(path)); s.G=s.j.get("globals",{})
        s.fns={}
        for f in s.j["functions"]:
            s.fns[f["dem"]]=f
            for b in f["blocks"]:
                for i in b["insts"]:
                    if i.get("callee","").endswith(".orig"): i["callee"]=i["callee"][:-5]; i["dem"]=f["dem"] if i["callee"]==f["name"] else i["dem"]
        s.layouts={l["name"]:l for l in s.j.get("layouts",[])}
    def find(s,rx):
        r=[f for d,f in s.fns.items() if re.search(rx,d)]
        return r
    def flow(s,rx,exc=False,**k):
        r=s.find(rx)
        if len(r)>1: # members of classes local to the function are not the function
            r=[f for f in r if not any(g is not f and f["dem"].startswith(g["dem"]+"::") for g in r)]
        if not r and any(re.search(rx,"vp::"+n+"(") for n in getattr(s,"dropped",())): raise NotBuilt("does not compile")
        if len(r)!=1: raise AnalysisError("anchor %s matches %d functions: %s"%(rx,len(r),[x["dem"] for x in r][:5]))
        return s.flow_of(r[0],exc,**k)
    def flow_of(s,f,exc=False,keep_abort=False,**k):
        """keep_abort: blocks leading only to an abandoned call are followed like any other"""
        fn=Func(f,exc)
        if keep_abort: fn.abort=set()
        fl=Flow(fn,s.G,**k)
        fl.phival={}; fl.mutype={}; fl.drop={}; fl.condat={}; fl.summ=s.summaries()
        return fl.run()

    def summaries(s):
        """value summaries of exported directly recursive functions that only read memory"""
        if hasattr(s,"_summ"): return s._summ
        s._summ={}; out={}
        for d,f in s.fns.items():
            if any(i["op"] in("call","invoke") and i.get("callee")==f["name"] for b in f["blocks"] for i in b["insts"]):
                sm=Summary(s,f)
                if sm.ok: out[f["name"]]=sm
        s._summ=out
        return out
class Summary:
    def __init__(s,unit,f):
        def self_(fl,i,args,g,st,e): return var(("call",f["name"],tuple(args),None,i["ty"]))
        s.name=f["name"]; s.ok=False
        try:
            fl=Flow(Func(f,False),unit.G,models=((r"^"+re.escape(f["dem"])+"$",self_),))
            fl.phival={}; fl.mutype={}; fl.drop={}; fl.condat={}; fl.summ={}
            fl.run()
        except AnalysisError: return
        if fl.ret is None or fl.loopinfo: return
        for e in fl.effects:
            if e.kind in("load","ret"): continue
            if e.kind=="call" and e.name==f["name"]: continue
            return
        s.ret=fl.ret; s.args=[("arg",k,a["name"] or "a%d"%k,a["ty"]) for k,a in enumerate(fl.f.args)]
        s.ok=True
    SZ={"double":8,"i64":8,"ptr":8,"i32":4,"float":4,"i8":1,"i1":1,"i16":2}
    def __call__(s,fl,args,st,depth=0):
        if depth==0: s.budget=60
        s.budget-=1
        if depth>8 or s.budget<0: return None
        bind=dict(zip(s.args,args)); fail=[]
        def am(k):
            if fail or s.budget<0: fail.append(1); return ZERO
            if k[0]=="arg": return bind.get(k)
            if k[0]=="ite":
                c=rw.cond(k[1])
                if c==T: return rw.poly(k[2])
                if c==F: return rw.poly(k[3])
                return None
            if k[0]=="load" and k[2]==0:
                return fl.load(st,rw.poly(k[1]),s.SZ.get(k[3],8),k[3])
            if k[0]=="call" and k[1]==s.name:
                r=s(fl,[rw.poly(x) for x in k[2]],st,depth+1)
                if r is None: fail.append(1); return ZERO
                return r
            return None
        rw=Rewriter(am)
        r=rw.poly(s.ret)
        return None if fail else r
