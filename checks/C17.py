from common import *
from bcast import *
import importlib
PAIRS=[((3,),(1,)),((1,),(3,)),((3,),(3,)),((1,),(1,)),
 ((3,),(2,3)),((1,),(2,3)),((3,),(2,1)),((2,3),(3,)),((2,3),(1,)),((2,1),(3,)),((2,1),(1,)),((1,1),(2,)),((1,3),(3,)),((1,),(1,3)),
 ((2,3),(1,3)),((2,3),(2,1)),((2,3),(1,1)),((2,1),(1,3)),((1,3),(2,1)),((1,1),(2,3)),((1,3),(2,3)),((2,1),(2,3)),((2,3),(2,3)),((3,2),(3,1)),((3,3),(3,1)),
 ((2,2,3),(3,)),((2,2,3),(2,3)),((2,3),(2,2,3)),((2,1,3),(2,3)),((2,1,3),(2,1)),((2,3),(3,1,1)),((3,),(2,2,1)),((1,3),(2,2,1)),((2,1),(3,1,2)),
 ((2,1,3),(1,2,1)),((1,2,1),(2,1,3)),((2,1,2),(1,3,2)),((2,2,1),(2,1,2)),((1,2,2),(2,2,2)),((2,1,1),(1,1,3)),((2,2,2),(2,2,2)),((2,3,1),(2,3,2)),
 ((2,),(1,1,2,2)),((2,1,2,1),(2,1,2)),((1,2,1,2),(2,1,2,1)),
 ((0,3),(1,3)),((0,3),(0,3)),((2,0),(2,1)),((0,),(1,)),((1,),(0,)),((1,1),(0,2)),((0,),(2,1))]
BAD=[((2,),(3,)),((3,),(2,)),((2,3),(2,)),((2,3),(2,2)),((3,3),(2,3)),((2,),(2,3)),((2,2,3),(2,2)),((2,2,3),(3,2,3)),((2,2,3),(2,3,3)),((3,2),(2,2,3)),((2,1,3),(1,2,2)),((0,),(2,)),((2,3),(2,0)),((4,),(2,)),((2,),(4,)),((2,2),(4,2)),((4,2),(2,2))]
def body(R):
    lines=[]; cs=[]
    def add(n,a,b,T2,op):
        ok=joined(a,b); orr=max(len(a),len(b))
        lines.append("void b_%s(A<double,%d>* o,const double* pa,const %s* pb){ A<double,%d> a(%s,pa,pa+%d); A<%s,%d> b(%s,pb,pb+%d); ::new(o) A<double,%d>(a %s b); }"%(n,orr,T2,len(a),br(a),prod(a),T2,len(b),br(b),prod(b),orr,op))
        cs.append((n,a,b,ok,T2,op))
    for i,(a,b) in enumerate(PAIRS):
        add("p%d"%i,a,b,"double","-")
        if len(a)==len(b) or i%3==0: add("q%d"%i,a,b,"float","/")
    for i,(a,b) in enumerate(BAD):
        add("n%d"%i,a,b,"double","-")
        if i%2: add("m%d"%i,a,b,"float","/")
    lines.append("struct X{ double v; X() noexcept:v(0){} X(const X& o) noexcept:v(o.v){} X& operator=(const X& o) noexcept{ v=o.v; return *this; } X& operator-=(const X& o); };\nX operator-(const X& a,const X& b);\n")
    for i,(a,b) in enumerate(BAD):
        lines.append("void x_n%d(A<X,%d>* o,const X* pa,const X* pb){ A<X,%d> a(%s,pa,pa+%d); A<X,%d> b(%s,pb,pb+%d); ::new(o) A<X,%d>(a-b); }"%(i,max(len(a),len(b)),len(a),br(a),prod(a),len(b),br(b),prod(b),max(len(a),len(b))))
    u=unit(lines,"bcast")
    lay={r:Layout(u,r) for r in(1,2,3,4)}
    for i,(a,b) in enumerate(BAD):
        if not built(R,u,"x_n%d"%i,"%s-%s of class elements"%(a,b),True): continue
        fl=u.flow(r"^vp::x_n%d\("%i); R.fn(fl.f)
        m=Mem(fl,lay[max(len(a),len(b))],["o","a","b"]); hit=[]
        try:
            for e in fl.effects:
                if e.kind=="call" and re.match(r"vp::(X::)?operator-=?\(",e.dem or ""): m.each(e,lambda ev,e=e:hit.append(e))
            R.check(not hit,"%s-%s: nothing is computed before the shapes are refused"%(a,b),hit[0].loc if hit else (fl.f.file,fl.f.line))
        except Unknown as x: R.und("%s-%s: nothing is computed before the shapes are refused: %s"%(a,b,x),(fl.f.file,fl.f.line))
    for n,a,b,ok,T2,op in cs:
        if not built(R,u,"b_"+n,"%s%s%s%s"%(a,op,b," of mixed types" if T2!="double" else "")): continue
        fl=u.flow(r"^vp::b_%s\("%n); R.fn(fl.f)
        loc=next((e.loc for e in reversed(fl.effects) if e.loc and e.loc[0].endswith("marray.h") and e.kind in("store","call","throw")),(fl.f.file,fl.f.line))
        what="%s%s%s%s"%(a,op,b," of mixed types" if T2!="double" else "")
        W={"double":8,"float":4}
        try: verdict(R,fl,lay,what,a,b,ok,op,W[T2],loc)
        except Unknown as x: R.und("%s: %s"%(what,x),loc)
def verdict(R,fl,lay,what,a,b,ok,op,eb,loc):
    orr=max(len(a),len(b))
    class M(Mem):
        def initial(s,base,off):
            if base==s.A[2]:
                if off%eb: raise Unknown("part of an entry")
                return var(("entry","b",int(off)//eb))
            return Mem.initial(s,base,off)
    m=M(fl,lay[orr],["o","a","b"])
    thr=[e for e in fl.effects if e.kind in("throw","abort")]
    ret=fl.endstate is not None and m.ev().cond(fl.retguard)
    if ok is None:
        R.check(not ret,what+": shapes which do not fit are refused with an exception",loc,detail="the operation returns"); 
        if ret: return
        return
    R.check(ret,what+": combines",loc,detail="always throws")
    if not ret: return
    ex,sz,dp=m.header(0,lay[orr]); n=prod(ok)
    R.check(all(not x.b for x in ex) and tuple(x.n for x in ex)==ok and not sz.b and sz.n==n,what+": the result's extents are the larger of the matched ones",loc,detail="%s instead of %s"%(tuple(x.n for x in ex),ok))
    if n==0: return
    p=dp.ptr()
    if p is None or p[1]: R.und(what+": storage of the result",loc); return
    for ix in itertools.product(*[range(x) for x in ok]):
        k=row(ix,ok)
        x=var(("entry","a",proj(ix,a))); y=var(("entry","b",proj(ix,b)))
        w=x-y if op=="-" else x*y.inv()
        try: g=m.read(p[0],8*k,None,8)
        except Unknown as e:
            R.check(False if str(e)=="read of unset storage" else None,what+": entries combine the projected entries",loc,detail="%s: %s"%(ix,e)); return
        g=strip(g)
        if g!=w:
            known=all(a_[0] in("entry","inv") for a_ in deep_atoms(g))
            R.check(False if known else None,what+": entries combine the projected entries",loc,detail="%s is %s instead of %s"%(ix,pretty(g),pretty(w))); return
    R.ok(what+": entries combine the projected entries",loc)
def pretty(p): return re.sub(r"entry\((\w+),(\d+)\)",r"\1[\2]",show(p))[:80]
main("C17","for each pair of shapes (all ways of matching, repeating and missing dimensions up to rank 4, and shapes that do not fit): extents of the result, each entry as an expression in the operands' entries, or an exception",body)
