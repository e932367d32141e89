"""what the pool's functions do to its fields, and which locks are held while they do it"""
from common import *
import shutil,subprocess
import cex
LOCKT=r"std::(unique_lock|lock_guard|scoped_lock)<"
INS=r"std::(queue|deque|vector|list|__cxx11::list)<.*>::(push|emplace|push_back|emplace_back|push_front|emplace_front)(<|\()"
REM=r"std::(queue|deque|vector|list|__cxx11::list)<.*>::(pop|pop_front|pop_back|erase)\("
def unit():
    bc=lower(harness("pool.cpp"),extra=["-fno-access-control","-femit-all-decls"])
    return extract(bc,roots=(r"^vp::",r"_State_impl<.*>::_M_run\(\)$",r"_Function_handler<void \(\), .*>::_M_invoke\(",r"^ThreadPool::(?!ThreadPool)[A-Za-z_]\w*\((?!.*lambda)"),
        noinline=(LOCKT,r"^[^(]*std::(queue|deque|list|__cxx11::list)<.*>::(emplace|push|pop|emplace_back|push_back|pop_front|pop_back|emplace_front|push_front|clear|swap|erase)\b"),
        inline=(r"condition_variable::wait<",r"^std::future<.*> ThreadPool::enqueue<",r"std::thread::_Invoker",r"^ThreadPool::ThreadPool.*lambda.*operator"))
def public():
    """names of the pool's public member functions"""
    cmd=["clang++-18" if shutil.which("clang++-18") else "clang++","-std=c++11","-fsyntax-only","-I",src("include"),"-Xclang","-ast-dump","-Xclang","-ast-dump-filter=ThreadPool",harness("pool.cpp")]
    r=subprocess.run(cmd,capture_output=True,text=True)
    acc="private"; out=set(); seen=False
    for l in r.stdout.split("\n"):
        if re.match(r"CXXRecordDecl .*class ThreadPool definition",l): seen=True; acc="private"; continue
        if seen and l and not re.match(r"[|`]",l): break
        m=re.match(r"[|`]-AccessSpecDecl .* (public|private|protected)$",l)
        if m: acc=m.group(1)
        m=re.match(r"[|`]-CXXMethodDecl .*?(?:used |referenced )?(\w+) '",l)
        if m and acc=="public": out.add(m.group(1))
    return out if seen else None
def blk(fl):
    return {i["id"]:b.id for b in fl.f.B.values() for i in b.insts}
def short(d): return re.sub(r"<.*>","<>",d.split("(")[0])[:80]
class Locks:
    """must/may lock sets at every instruction; a mutex is named by its address"""
    def __init__(s,fl):
        s.fl=fl; s.ev={e.inst:e for e in fl.effects if e.kind=="call"}
        s.owner={}; s.known=True
        for e in s.ev.values():
            m=re.match(LOCKT+r".*::(unique_lock|lock_guard|scoped_lock)\(",e.dem)
            if m and len(e.args)>1 and "&&" not in e.dem: s.owner.setdefault(repr(fl.root(e.args[0])),set()).add(str(e.args[1]))
            elif m and "&&" in e.dem: s.known=False
        U=None; f=fl.f; B=f.B
        ins={b:None for b in B}; ins[f.entry]=(frozenset(),frozenset())
        s.at={}
        ch=True
        while ch:
            ch=False
            for b in f.rpo:
                if b not in B or ins[b] is None: continue
                st=ins[b]
                for i in B[b].insts:
                    s.at[i["id"]]=st
                    pre=st; st=s.step(i,st)
                t=B[b].insts[-1]
                for v in B[b].succ:
                    o=st
                    if t["op"]=="invoke" and v==t.get("unwind"): o=s.unwind(t,pre)
                    n=o if ins[v] is None else (ins[v][0]&o[0],ins[v][1]|o[1])
                    if n!=ins[v]: ins[v]=n; ch=True
    def step(s,i,st):
        e=s.ev.get(i["id"])
        if e is None: return st
        must,may=st; d=e.dem
        m=re.match(LOCKT+r".*?::(~?)(unique_lock|lock_guard|scoped_lock)\(",d)
        r=repr(s.fl.root(e.args[0])) if e.args else None
        if m and m.group(2):
            o=frozenset(s.owner.get(r,())); return must-o,may-o
        if m:
            if len(e.args)<2 or "&&" in d: return st
            o=frozenset([str(e.args[1])])
            if "defer_lock" in d or "adopt_lock" in d: return st
            if "try_to_lock" in d or "duration" in d or "time_point" in d: return must,may|o
            return must|o,may|o
        m=re.match(r"(?:bool |void )?std::(unique_lock<.*>|mutex|recursive_mutex)::(lock|unlock|try_lock|release)\(",d)
        if m:
            o=frozenset(s.owner.get(r,())) if m.group(1).startswith("unique") else frozenset([str(e.args[0])])
            if m.group(2)=="lock": return must|o,may|o
            if m.group(2)=="unlock": return must-o,may-o
            return must,may|o
        if re.match(r"pthread_mutex_(lock|unlock)|__gthread_mutex_(lock|unlock)",d) or re.match(r"pthread_mutex_(lock|unlock)$|_ZL?\d*__gthread_mutex_",e.name):
            o=frozenset([str(e.args[0])])
            return (must-o,may-o) if "unlock" in e.name else (must|o,may|o)
        return st
    def unwind(s,t,pre):
        e=s.ev.get(t["id"])
        if e is None: return pre
        if re.match(LOCKT+r".*?::~",e.dem) or "unlock" in e.dem: return s.step(t,pre)
        return pre     # a constructor or lock() that throws has not acquired
    def held(s,e,mx):
        a=s.at.get(e.inst)
        return (None,None) if a is None else (str(mx) in a[0],str(mx) in a[1])
class PF:
    """one function of the pool"""
    def __init__(s,fl,role):
        for e in fl.effects:
            if e.kind=="call" and e.dem is None: e.dem=e.name or ""
            if e.kind=="call" and e.name is None: e.name=""
        s.fl=fl; s.role=role; s.L=Locks(fl); s.P=None; s.mx=None; s.cv=None; s.wk=None
        s.blk=blk(fl)
class Pool:
    def __init__(s,R):
        s.u=unit(); s.R=R; s.F=[]
        names=list(s.u.fns); pub=public(); priv=[]
        for d in names:
            role=("enqueue" if d.startswith("vp::enq") else "make" if d.startswith("vp::make") else "kill" if d.startswith("vp::kill") else
                  "worker" if "::_M_run()" in d else "invoke" if "::_M_invoke(" in d and d.startswith("std::_Function_handler") and "ThreadPool::" in d else "member" if re.match(r"ThreadPool::(?!~|enqueue|ThreadPool)",d) else None)
            if not role: continue
            if role=="member" and pub is not None and re.match(r"ThreadPool::(\w+)",d).group(1) not in pub:
                priv.append(d); continue
            fl=s.u.flow("^"+re.escape(d)+"$",exc=True); R.fn(fl.f)
            s.F.append(PF(fl,role))
        if not any(e.kind=="call" and "condition_variable" in e.dem and "wait" in e.dem for x in s.F for e in x.fl.effects):
            # the workers run a member function by pointer
            for d in priv:
                if "unique_lock" in d: continue
                fl=s.u.flow("^"+re.escape(d)+"$",exc=True)
                if any(e.kind=="call" and e.dem and "condition_variable" in e.dem and "wait" in e.dem for e in fl.effects):
                    R.fn(fl.f); x=PF(fl,"member"); s.F.append(x)
        # where the mutex, the condition variable and the threads are
        s.m=s.c=s.w=None
        for x in s.F:
            b=s.base(x)
            for e in x.fl.effects:
                if e.kind!="call" or not e.args: continue
                if re.match(LOCKT,e.dem) and len(e.args)>1 and "~" not in e.dem: s.note(x,"m",e.args[1])
                elif re.search(r"std::mutex::(lock|mutex)\(|^pthread_mutex_lock",e.dem): s.note(x,"m",e.args[0])
                elif re.search(r"condition_variable(_any)?::(wait|notify_one|notify_all)",e.dem): s.note(x,"c",e.args[0])
                elif re.search(r"std::thread::join\(",e.dem):
                    for a in e.args[0].atoms():
                        a=akey(a)
                        if a[0]=="load": s.note(x,"w",a[1])
        for x in s.F:
            if x.role in("member","enqueue") and x.P is None and x.fl.f.args: x.P=var(("arg",0,x.fl.f.args[0]["name"],"ptr"))
    def base(s,x):
        if x.role in("enqueue","kill"):
            a=x.fl.f.args; k=[i for i,y in enumerate(a) if y["ty"]=="ptr"]
            # the result of enqueue is returned through a hidden first argument
            i=k[1] if x.role=="enqueue" else k[0]; x.P=var(("arg",i,a[i]["name"],"ptr"))
        elif x.role in("make","member"): x.P=var(("arg",0,x.fl.f.args[0]["name"],"ptr"))
        elif x.role=="worker":
            t=("arg",0,x.fl.f.args[0]["name"],"ptr")
            ps=[]
            for e in x.fl.effects:
                if e.kind=="load" and e.ty=="ptr" and e.val.single() and (e.addr-var(t)).isconst() and e.val not in ps: ps.append(e.val)
            if len(ps)==1: x.P=ps[0]
            x.cands=ps
        return x.P
    def note(s,x,k,a):
        if x.P is None and getattr(x,"cands",None):
            for p in x.cands:
                if (a-p).isconst(): x.P=p
        if x.P is None: return
        o=a-x.P
        if o.isconst() and getattr(s,k) is None: setattr(s,k,int(o.cval()))
    def off(s,x,a):
        """('at',offset) for a field, ('in',offset) for memory reached through a pointer kept in one, or None"""
        if x.P is None or a is None: return None
        o=a-x.P
        if o.isconst(): return "at",int(o.cval())
        for k in a.atoms():
            k=akey(k)
            if k[0]=="load":
                o=k[1]-x.P
                if o.isconst(): return "in",int(o.cval())
                r=s.off(x,k[1])
                if r: return "in",r[1]
            if k[0]=="ite":
                for q in k[2:4]:
                    r=s.off(x,q)
                    if r: return r
        return None
    def own(s,o):
        """fields that are not shared state: the mutex, the condition variable, the threads"""
        return (s.m is not None and s.m<=o<s.m+40) or (s.c is not None and s.c<=o<s.c+48) or (s.w is not None and s.w<=o<s.w+24)
    def accesses(s,x):
        for e in x.fl.effects:
            if e.kind in("load","aload","store","wstore","astore"):
                r=s.off(x,e.addr)
                if r and not s.own(r[1]): yield e,r,e.kind in("store","wstore","astore")
            elif e.kind=="call":
                if re.match(LOCKT+r"|std::(mutex|condition_variable)",e.dem): continue
                for n,a in enumerate(e.args):
                    r=s.off(x,a) if a is not None else None
                    if r and not s.own(r[1]) and not(r==("at",0) and s.w==0 and "vector<std::thread" in e.dem):
                        yield e,r,not(n==0 and re.search(r"\) const$",e.dem)); break
