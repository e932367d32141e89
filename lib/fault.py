"""Effects of an operation along one exit: the effect summary of flow.py (unwind edges included), read at one shape
and for one faulting call site (or none).  Says which blocks are obtained and released, which elements come into being
and cease, and what the arrays look like where control leaves."""
from alg import *
from flow import *
from ev import *
from shape import *
class Fault(At):
    def __init__(s,fl,lay,vals,site=None,it=(),**k):
        At.__init__(s,fl,lay,vals,**k)
        s.site=site; s.it=dict(zip(site.loops,it)) if site is not None else {}
        s.nth={}
    def infault(s,ev=None):
        """are the loops being looked at, from outside in, at the faulting iteration (or not entered)?"""
        for L,v in s.env.items():
            if L in s.it and s.it[L]!=v: return False
        return True
    def condf(s,k,ev):
        if k[0]=="throws":
            if s.site is None or k[1]!=s.site.inst: return False
            return all(s.env.get(L)==v for L,v in s.it.items())
        if k[0]=="exit":
            L=k[1]; li=s.fl.loopinfo[L]
            return s.exitof(L)==k[2]
        return None
    def outer(s,L):
        """loops around L"""
        r=[]; x=s.fl.loopinfo[L].get("parent")
        while x is not None: r.append(x); x=s.fl.loopinfo[x].get("parent")
        return r
    def at_fault(s,L):
        if s.site is None or L not in s.it: return False
        return all(s.env.get(o,s.it.get(o))==s.it.get(o) for o in s.outer(L))
    def exitof(s,L):
        """which exit of the loop is taken (given the enclosing iterations)"""
        li=s.fl.loopinfo[L]; ex=li["exits"]
        if len(ex)==1: return 0
        sv={L:s.env.get(L)}
        try:
            for o in s.outer(L):   # left by the exception: its last iteration is the faulting one
                if o not in s.env and o in s.it: sv[o]=None; s.env[o]=s.it[o]
            if not s.ev().cond(li["entry"]): return None   # not entered
            s.env[L]=s.count(L)
            for k,(u,v,g) in enumerate(ex):
                if s.ev().cond(g): return k
        finally:
            for o,x in sv.items():
                if x is None: s.env.pop(o,None)
                else: s.env[o]=x
        raise Unknown("no exit of a loop applies")
    def count(s,L):
        """iterations completed when the loop is left"""
        if s.at_fault(L): return s.it[L]
        li=s.fl.loopinfo[L]
        t=li.get("trip") if li.get("trip") is not None else li.get("ntrip")
        if t is not None:
            c=s.ev()(t)
            if c!=int(c): raise Unknown("trip count")
            return max(0,int(c))
        key=(L,tuple(sorted((o,s.env.get(o)) for o in s.outer(L))))
        if key in s.nth:
            if s.nth[key] is None: raise Unknown("a loop without closed form")
            return s.nth[key]
        s.nth[key]=None
        sv=s.env.get(L); r=None
        try:
            for i in range(300):
                s.env[L]=i
                if any(s.ev().cond(g) for u,v,g in li["exits"]): r=i; break
        finally:
            if sv is None: s.env.pop(L,None)
            else: s.env[L]=sv
        s.nth[key]=r
        if r is None: raise Unknown("a loop without closed form")
        return r
    def leaf(s,k,ev):
        if k[0]=="lvx": return s.count(k[1])
        if k[0]=="mu" and k[1] in s.env:   # no closed form: follow the recurrence
            L=k[1]; li=s.fl.loopinfo[L]; n=s.env[L]
            try:
                if n==0:
                    del s.env[L]; return s.ev().poly(li["init"][k[2]])
                s.env[L]=n-1; return s.ev().poly(li["next"][k[2]])
            except KeyError: raise Unknown("mu")
            finally: s.env[L]=n
        return At.leaf(s,k,ev)
    def ev(s): return Ev(loadf=s.loadf,leaf=s.leaf,condf=s.condf)
    def reached(s,e):
        """iterations (tuples) in which e happens"""
        out=[]
        def rec(ls):
            if not ls:
                if s.ev().cond(e.guard): out.append(tuple(s.env[L] for L in e.loops))
                return
            L=ls[0]; li=s.fl.loopinfo[L]
            if not s.ev().cond(li["entry"]): return
            n=s.count(L)
            # a multi-exit loop may run part of one more iteration
            last=n+1 if len(li["exits"])>1 or li.get("trip") is None else n
            if last>300: raise Unknown("too many iterations")
            for x in range(last):
                s.env[L]=x; rec(ls[1:])
            s.env.pop(L,None)
        rec(list(e.loops)); return out
    def at(s,e,it):
        for L,v in zip(e.loops,it): s.env[L]=v
        try: return s.ev()
        finally: pass
    def leave(s,e):
        for L in e.loops: s.env.pop(L,None)
def sites(fl):
    """calls that can end by an exception"""
    return [e for e in fl.effects if e.kind=="call" and not e.nounwind and not e.noreturn and e.name!="__cxa_end_catch" and not e.name.startswith("_ZSt9terminate")]
class Run:
    """what one exit leaves behind"""
    def __init__(s): s.kind=None; s.allocs=[]; s.frees=[]; s.ctors=[]; s.dtors=[]; s.state=None; s.fault=None
def run(fl,lay,vals,site=None,it=(),ctor=None,dtor=None,prep=None):
    """the effects on the way out; None if control does not pass the faulting call in that iteration"""
    f=Fault(fl,lay,vals,site,it)
    if prep: prep(f)
    r=Run(); r.f=f
    if site is not None:
        for L,v in zip(site.loops,it): f.env[L]=v
        # reached in that iteration?
        ok=f.ev().cond(site.guard)
        f.env.clear()
        if not ok: return None
    implicit=site is not None and site.i["op"]=="call"
    order={id(e):n for n,e in enumerate(fl.effects)}
    def before(e,et):
        """does (e,et) come before the faulting call?"""
        for L,v in zip(e.loops,et):
            if L in f.it:
                if v!=f.it[L]: return v<f.it[L]
            else: break
        return order[id(e)]<order[id(site)]
    last=None
    for e in fl.effects:
        k=e.kind
        if k=="ret":
            if not implicit and f.ev().cond(e.guard): r.kind="ret"; r.state=fl.endstate
        elif k=="resume":
            if not implicit and f.ev().cond(e.guard): r.kind="resume"; r.state=e.state
        elif k=="abort": pass
        elif k=="throw":
            if not implicit and not e.loops and f.ev().cond(e.guard): r.kind=r.kind or "throw"; r.state=r.state or getattr(e,"state",None)
        elif k=="call":
            w="alloc" if e.name=="vp_alloc" else "free" if e.name=="vp_free" else "ctor" if ctor and ctor.match(e.dem or "") else "dtor" if dtor and dtor.match(e.dem or "") else "cxa" if e.noreturn else None
            if w is None: continue
            for et in f.reached(e):
                if implicit and not before(e,et): continue
                me=e is site and et==tuple(it)
                for L,v in zip(e.loops,et): f.env[L]=v
                ev=f.ev()
                if w=="cxa":
                    if e.i["op"]=="call" and not implicit and r.kind is None: r.kind="terminate" if "terminate" in e.dem else "throw"; r.state=e.state
                elif me and w in("alloc","ctor"): pass   # did not come about
                elif w=="alloc": r.allocs.append((ev.poly(e.ret).ptr(),ev.poly(e.args[0]).n,ev(e.args[1]),e))
                elif w=="free": r.frees.append((ev.poly(e.args[1]),ev.poly(e.args[0]).n,ev(e.args[2]),e))
                else: (r.ctors if w=="ctor" else r.dtors).append((ev.poly(e.args[0]),order[id(e)],e))
                f.leave(e)
    if implicit: r.kind="throw"; r.state=site.state; r.implicit=True
    return r
