from common import *
from shape import *
from mem import *
from bcast import *
import itertools
OPS=("add","sub","mul","div")
FUN="cos sin tan acos asin atan cosh sinh tanh acosh asinh atanh exp exp2 log log2 log10 sqrt cbrt erf erfc tgamma lgamma ceil floor trunc round abs".split()
SIGN={"add":"+","sub":"-","mul":"*","div":"/"}
class Refs:
    """the operation on single numbers, as the compiler sees it"""
    def __init__(s,u): s.u=u; s.m={}
    def __call__(s,n,*x):
        if n not in s.m:
            fl=s.u.flow(r"^vp::ref_%s\("%n); s.m[n]=(fl.ret,[atom(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args)])
        p,A=s.m[n]; d={akey(a):v for a,v in zip(A,x)}
        return xsubst(p,d)
def E(n,k): return var(("entry",n,k))
def shapes(rk): return [s for s in itertools.product((1,2,3),repeat=rk)]+[(0,2),(2,0)][:2*(rk-1)]+([(0,)] if rk==1 else [])
class Seen:
    def __init__(s,R,what,loc): s.R=R; s.d={}; s.loc=loc; s.what=what
    def note(s,w,ok,det="",loc=None):
        o=s.d.get(w)
        if o is None or (ok is False and o[0] is not False) or (ok is None and o[0] is True): s.d[w]=(ok,det,loc)
    def done(s):
        for w,(ok,det,loc) in s.d.items(): s.R.check(ok,s.what+": "+w,loc or s.loc,detail=det)
def same(a,b):
    a=strip(a)
    if a==b: return True
    try: return bool(eqrat(a,b))
    except Exception: return None
def result(S,m,arg,lay,ext,want,cx):
    """the array `arg` at return has extents ext and entries want(k)"""
    n=prod(ext); ex,sz,dp=m.header(arg,lay)
    S.note("result has the operands' shape",all(not x.b for x in ex) and [x.n for x in ex]==list(ext) and not sz.b and sz.n==n,cx)
    if n==0: return
    p=dp.ptr()
    if p is None or p[1]: S.note("every entry is computed",False if p is None else None,cx); return
    for k in range(n):
        try: g=m.read(p[0],k*m.esz,None,m.esz)
        except Unknown as x:
            S.note("every entry is computed",False if str(x)=="read of unset storage" else None,"%s: entry %d: %s"%(cx,k,x)); return
        w=want(k)
        r=same(g,w)
        if r is not True and any(a[0] in("mu","load","mem") for a in deep_atoms(g)): r=None
        if r is not True: S.note("every entry is computed from its operands in order",r,"%s: entry %d is %s instead of %s"%(cx,k,pretty(g),pretty(w))); return
    S.note("every entry is computed from its operands in order",True)
def pretty(p): return re.sub(r"entry\((\w+),(\d+)\)",r"\1[\2]",show(p))[:80]
def unchanged(S,m,arr,cx,lay):
    a,v=arr
    w=m.all_writes().get(("D",v.name),[])
    bad=None
    for tm,o,n,e,env in w:
        if e.kind in("store","wstore") and o%m.esz==0 and n==m.esz:
            if m.value(e.val,e,env)==E(v.name,int(o)//m.esz): continue
        bad=e; break
    S.note("the other operand is left unchanged",bad is None,cx,bad and bad.loc)
    w=m.all_writes().get(a,[])
    S.note("the other operand is left unchanged",not w,cx,w[0][3].loc if w else None)
def body(R):
    u=extract(lower(harness("marr_arith.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^(void |double |double\* |unsigned long )?vp::\w+_\w+\(",))
    lay={r:Layout(u,r) for r in(1,2)}; ref=Refs(u)
    def case(n,what,rk,vals,out,want,keep,esz=8):
        """vals(s): argument values at shape s; out: argument holding the result; want(k); keep: arguments left alone"""
        if not lay[rk].ok: R.und(what+": extents, size and storage are not plain members"); return
        if not built(R,u,n,what,"class elements" in what): return
        fl=u.flow(r"^vp::%s\("%n,const_callees=((r"^(tgamma|lgamma|erfc?|cbrt|a?(sin|cos|tan)h?|exp2?|log(2|10)?|pow|hypot|atan2)$","*"),)); R.fn(fl.f)
        loc=next((e.loc for e in reversed(fl.effects) if e.kind=="store" and e.loops and e.loc and e.loc[0].endswith("marray.h")),(fl.f.file,fl.f.line))
        S=Seen(R,what,loc)
        for s in shapes(rk):
            cx="shape %s"%(s,)
            try:
                m=Mem(fl,lay[rk],vals(s))
                if not (fl.endstate is not None and m.ev().cond(fl.retguard)): S.note("returns for every shape",False,cx); continue
                result(S,m,out,lay[rk],s,want,cx)
                for a in keep:
                    if isinstance(m.vals[m.A[a]],Arr): unchanged(S,m,(m.A[a],m.vals[m.A[a]]),cx,lay[rk])
            except Unknown as x: S.note("every entry is computed from its operands in order",None,"%s: %s"%(cx,x))
        S.done()
    A=lambda s:Arr("a",s); B=lambda s:Arr("b",s)
    for T,t,rk in(("d","",2),("q"," (class elements)",2),("d"," (rank 1)",1)):
        for op in OPS:
            o=SIGN[op]
            for c,cn in(("cc","constant operands"),("cm","second operand mutable"),("mc","first operand mutable"),("mm","mutable operands")):
                case("aa_%s_%s%d_%s"%(op,T,rk,c),"a%sb, %s%s"%(o,cn,t),rk,lambda s:["o",A(s),B(s)],0,lambda k,op=op:ref(op,E("a",k),E("b",k)),(1,2))
            for c,cn in(("c","constant operand"),("m","mutable operand")):
                case("as_%s_%s%d_%s"%(op,T,rk,c),"a%s=b, %s%s"%(o,cn,t),rk,lambda s:[A(s),B(s)],0,lambda k,op=op:ref(op,E("a",k),E("b",k)),(1,))
            case("ar_%s_%s%d_c"%(op,T,rk),"temporary a%s=b%s"%(o,t),rk,lambda s:["o",A(s),B(s)],0,lambda k,op=op:ref(op,E("a",k),E("b",k)),(2,))
            case("xs_%s_%s%d"%(op,T,rk),"a%sx%s"%(o,t),rk,lambda s:["o",A(s),"x"],0,lambda k,op=op:ref(op,E("a",k),E("x",0)),(1,))
            case("sx_%s_%s%d"%(op,T,rk),"x%sa%s"%(o,t),rk,lambda s:["o","x",A(s)],0,lambda k,op=op:ref(op,E("x",0),E("a",k)),(2,))
            case("ss_%s_%s%d"%(op,T,rk),"a%s=x%s"%(o,t),rk,lambda s:[A(s),"x"],0,lambda k,op=op:ref(op,E("a",k),E("x",0)),())
            case("sr_%s_%s%d"%(op,T,rk),"temporary a%s=x%s"%(o,t),rk,lambda s:["o",A(s),"x"],0,lambda k,op=op:ref(op,E("a",k),E("x",0)),())
        for c,cn in(("c","constant operand"),("m","mutable operand"),("r","temporary")):
            case("neg_%s%d_%s"%(T,rk,c),"-a, %s%s"%(cn,t),rk,lambda s:["o",A(s)],0,lambda k:-E("a",k),(1,) if c!="r" else ())
    for f in FUN:
        for c,cn in(("c","constant operand"),("r","temporary")):
            case("fun_%s_%s"%(f,c),"%s(a), %s"%(f,cn),2,lambda s:["o",A(s)],0,lambda k:ref(f,E("a",k)),(1,) if c!="r" else ())
    for f in("atan2","pow","hypot"):
        case("fn2_%s"%f,"%s(a,b)"%f,2,lambda s:["o",A(s),B(s)],0,lambda k:ref(f,E("a",k),E("b",k)),(1,2))
    wide(R,ref)
SUMS=[(3,),(1,),(2,3),(3,2),(1,3),(3,1),(2,2,3),(2,3,2),(3,1,2),(1,2,2),(2,2,1),(2,2,2,2)]
WIDE=[((2,3),(1,3)),((2,3),(2,1)),((3,),(2,3)),((2,1),(3,)),((2,1),(1,3)),((1,2,2),(2,2,1))]
def wide(R,ref):
    """broadcasting operands, operands of different types, and sums: at fixed shapes"""
    lines=[]; cs=[]
    fns=[(op,"a%s b"%o,op) for op,o in SIGN.items()]+[(f,"nusquids::%s(a,b)"%f,f) for f in("atan2","pow","hypot")]
    for i,(a,b) in enumerate(WIDE+[((2,3),(2,3))]):
        r=max(len(a),len(b)); mixed=i==len(WIDE)
        for n,ex,op in fns:
            T2="float" if mixed else "double"
            lines.append("void w_%s%d(A<double,%d>* o,const double* pa,const %s* pb){ A<double,%d> a(%s,pa,pa+%d); A<%s,%d> b(%s,pb,pb+%d); ::new(o) A<double,%d>(%s); }"%(n,i,r,T2,len(a),br(a),prod(a),T2,len(b),br(b),prod(b),r,ex))
            cs.append(("w_%s%d"%(n,i),"%s of %s and %s%s"%(op,a,b," (mixed types)" if mixed else ""),a,b,joined(a,b),lambda x,y,op=op: ref(op,x,y)))
    for i,a in enumerate(SUMS):
        lines.append("double t_%d(const double* pa){ const A<double,%d> a(%s,pa,pa+%d); return a.sum(); }"%(i,len(a),br(a),prod(a)))
        for d in range(len(a)):
            if len(a)>1: lines.append("void s_%d_%d(A<double,%d>* o,const double* pa){ const A<double,%d> a(%s,pa,pa+%d); ::new(o) A<double,%d>(a.sum(%d)); }"%(i,d,len(a)-1,len(a),br(a),prod(a),len(a)-1,d))
            lines.append("void r_%d_%d(A<double,%d>* o,const double* pa){ const A<double,%d> a(%s,pa,pa+%d); ::new(o) A<double,%d>(a.sum_same_rank(%d)); }"%(i,d,len(a),len(a),br(a),prod(a),len(a),d))
    u=unit(lines,"wide"); lay={r:Layout(u,r) for r in(1,2,3,4)}
    def floc(fl): return next((e.loc for e in reversed(fl.effects) if e.loc and e.loc[0].endswith("marray.h") and e.kind in("store","call","throw")),(fl.f.file,fl.f.line))
    for n,what,a,b,ext,want in cs:
        if not built(R,u,n,what): continue
        fl=u.flow(r"^vp::%s\("%n); R.fn(fl.f); S=Seen(R,what,floc(fl))
        try:
            m=Two(fl,lay[len(ext)],["o","a","b"]); m.eb=4 if "mixed" in what else 8
            if fl.endstate is None: S.note("returns",False)
            else: result(S,m,0,lay[len(ext)],ext,lambda k:want(E("a",proj(unrow(k,ext),a)),E("b",proj(unrow(k,ext),b))),"")
        except Unknown as x: S.note("every entry is computed from its operands in order",None,str(x))
        S.done()
    for i,a in enumerate(SUMS):
        idx=list(itertools.product(*[range(x) for x in a]))
        if not built(R,u,"t_%d"%i,"sum of all entries, shape %s"%(a,)): continue
        fl=u.flow(r"^vp::t_%d\("%i); R.fn(fl.f)
        try:
            m=Two(fl,lay[len(a)],["a"]); e=[e for e in fl.effects if e.kind=="ret"]
            g=m.value(fl.ret,e[0],{}); w=ZERO
            for ix in idx: w=w+E("a",row(ix,a))
            R.check(verdict(g,w),"sum of all entries, shape %s"%(a,),floc(fl),detail=pretty(g))
        except Unknown as x: R.und("sum of all entries, shape %s: %s"%(a,x),floc(fl))
        for d in range(len(a)):
            for pre,ext,nm in(("s",a[:d]+a[d+1:],"sum over dimension %d"%d),("r",a[:d]+(1,)+a[d+1:],"sum over dimension %d, keeping the rank"%d)):
                if not ext: continue
                if not built(R,u,"%s_%d_%d"%(pre,i,d),"%s, shape %s"%(nm,a)): continue
                fl=u.flow(r"^vp::%s_%d_%d\("%(pre,i,d)); R.fn(fl.f); S=Seen(R,"%s, shape %s"%(nm,a),floc(fl))
                def want(k):
                    w=ZERO; ix0=unrow(k,ext)
                    for ix in idx:
                        q=ix[:d]+ix[d+1:] if pre=="s" else ix[:d]+(0,)+ix[d+1:]
                        if q==ix0: w=w+E("a",row(ix,a))
                    return w
                try:
                    m=Two(fl,lay[len(ext)],["o","a"])
                    if fl.endstate is None: S.note("returns",False)
                    else: result(S,m,0,lay[len(ext)],ext,want,"")
                except Unknown as x: S.note("every entry is computed from its operands in order",None,str(x))
                S.done()
def unrow(k,ext):
    r=[]
    for e in reversed(ext): r.append(k%e); k//=e
    return tuple(reversed(r))
def verdict(g,w):
    r=same(g,w)
    if r is not True and any(a[0] in("mu","load","mem") for a in deep_atoms(g)): return None
    return r
class Two(Mem):
    eb=8
    def initial(s,base,off):
        if len(s.A)>2 and base==s.A[2]:
            if off%s.eb: raise Unknown("part of an entry")
            return var(("entry","b",int(off)//s.eb))
        return Mem.initial(s,base,off)
main("C16","for every operator and function: each entry of the result, as an expression in the operands' entries, is the operation on single numbers at that entry, in order; the result has the operands' shape; operands not assigned to are not written",body)
