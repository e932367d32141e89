from poollib import *
RUN=r"std::(function<.*>|packaged_task<.*>)::operator\(\)\("
def calls(fl,rx): return [e for e in fl.effects if e.kind=="call" and re.search(rx,e.dem)]
def before(fl,a,b): return fl.effects.index(a)<fl.effects.index(b)
def nothrow(g):
    """g on the paths where nothing throws"""
    for v in bvars(g):
        if ckey(v)[0]=="throws": g=brestrict(g,v,False)
    return g
def name(f): return (f.file,f.line)
def stopoff(p):
    """the shutdown flag: the field the destructor sets"""
    o=set()
    for x in p.F:
        if x.role!="kill": continue
        for e,(h,k),w in p.accesses(x):
            if h=="at" and w and e.kind in("store","astore") and e.val is not None and e.val.isconst() and e.val.cval()!=0: o.add(k)
    return o.pop() if len(o)==1 else None
def stopped(p,x,v,so):
    """condition variable v as (is the stop flag's test, polarity of 'stopped')"""
    k=ckey(v)
    if k[0]=="eq":
        at=cond_atoms(cvar(k))
        ld=[a for a in at if a[0]=="load" and p.off(x,a[1])==("at",so)]
        if ld and k in(ckey(bnode(ceq(var(ld[0]),ZERO))[0]),): return True
    if k[0]=="bool":
        a=k[1].single()
        if a and a[0]=="load" and p.off(x,a[1])==("at",so): return True
    return False
def pol(g,p,x,so,val):
    """g knowing whether the stop flag is set"""
    for v in bvars(g):
        if stopped(p,x,v,so):
            k=ckey(v); g=brestrict(g,v,(not val) if k[0]=="eq" else val)
    return g
def qtest(p,x,v,so):
    """a comparison of the queue's own words (is it empty?)"""
    k=ckey(v)
    if k[0]=="throws" or k[0]=="exit": return False
    at=[a for a in cond_atoms(cvar(k)) if a[0]=="load" and a[3]=="ptr" or a[0]=="load" and p.off(x,a[1])]
    if k[0]!="eq": return False
    offs=[p.off(x,a[1]) for a in at if not(x.P is not None and x.P.single()==a)]
    offs=[o for o in offs if o]
    return bool(offs) and all(not p.own(o[1]) and o[1]!=so for o in offs)
def qpol(g,p,x,so,empty):
    for v in bvars(g):
        if qtest(p,x,v,so): g=brestrict(g,v,empty)
    return g
def locked(p,x,a,b):
    """a comes before b in one hold of the lock, so nobody can look in between"""
    if p.m is None or not before(x.fl,a,b): return False
    mx=x.P+const(p.m)
    if not(x.L.held(a,mx)[0] and x.L.held(b,mx)[0]): return False
    return not [e for e in x.fl.effects[x.fl.effects.index(a):x.fl.effects.index(b)] if e.kind=="call" and re.search(r"::(unlock|~unique_lock|~lock_guard|wait)\(|mutex_unlock",e.dem)]
def submit(R,p,so):
    for x in [y for y in p.F if y.role=="enqueue"]:
        fl=x.fl; ins=[e for e in calls(fl,INS) if (p.off(x,e.args[0]) or ("",-1))[0]=="at"]
        rets=[e for e in fl.effects if e.kind=="ret"]
        if not rets: R.bad("submission never returns",name(fl.f)); continue
        rg=bor(*[e.guard for e in rets])
        if not ins:
            other=[1 for e,r,w in p.accesses(x) if w]
            R.check(None if other else False,"submission stores the task",name(fl.f)); continue
        if any(e.loops for e in ins): R.und("submission stores the task in a loop",name(fl.f)); continue
        ig=bor(*[e.guard for e in ins])
        twice=any(band(a.guard,b.guard,rg)!=F and nothrow(band(a.guard,b.guard))!=F for i,a in enumerate(ins) for b in ins[:i])
        miss=band(rg,bnot(ig))
        def definite(g,ok=lambda k: False):
            """every condition on the path is one the caller or another thread can bring about"""
            for v in bvars(g):
                k=ckey(v)
                if k[0]=="throws" or stopped(p,x,v,so) or qtest(p,x,v,so): continue
                return False
            return True
        R.check(False if twice else True if miss==F else False if definite(miss) else None,"every successful submission stores its task exactly once",ins[0].loc)
        # refused after shutdown
        if so is not None:
            bad=pol(ig,p,x,so,True)
            tests=[v for v in bvars(ig) if stopped(p,x,v,so)]
            R.check(True if bad==F else False if not tests or definite(bad) else None,"nothing is stored once the pool is stopped",ins[0].loc)
            br=pol(rg,p,x,so,True)
            R.check(True if br==F else False if not tests or definite(br) else None,"submitting to a stopped pool does not return normally",name(fl.f))
        th=calls(fl,r"__cxa_throw")
        R.check(True if th and any(so is None or pol(e.guard,p,x,so,True)!=F for e in th) else None if th else False,"submitting to a stopped pool throws",(th or ins)[0].loc)
        # wake a worker
        nt=[e for e in calls(fl,r"condition_variable(_any)?::notify_(one|all)\(") if p.off(x,e.args[0])==("at",p.c)]
        late=[e for e in nt if any(before(fl,i,e) or locked(p,x,e,i) for i in ins)]
        ng=bor(*[e.guard for e in late]) if late else F
        miss=band(rg,bnot(ng))
        # waking only when the queue was empty loses wake-ups
        R.check(True if miss==F else False if definite(miss) or not nt else None,"every stored task wakes a worker afterwards",(nt or ins)[0].loc)
        # the future belongs to the stored task
        gf=calls(fl,r"packaged_task<.*>::get_future\(")
        if len(gf)!=1 or gf[0].loops: R.check(None if gf or not calls(fl,r"promise|future") else False,"the result is reported through the stored task's future",name(fl.f)); continue
        a=fl.f.args[0]; res=fl.root(var(("arg",0,a["name"],"ptr")))
        R.check(True if fl.root(gf[0].args[0])==res and bimp(rg,gf[0].guard) else None if not bimp(rg,gf[0].guard) else None,"the returned future is the task's",gf[0].loc)
        src_=None
        k=gf[0].args[1].single()
        if k and k[0]=="call" and re.search(r"shared_ptr.*3getEv|shared_ptr.*(ptE|deE)v",k[1]): src_=fl.root(k[2][0])
        mk=calls(fl,r"make_shared<std::packaged_task|allocate_shared<std::packaged_task")
        cp=[e for e in calls(fl,r"shared_ptr<std::packaged_task<.*>::shared_ptr\(std::shared_ptr<.*(const&|&&)\)") if src_ is not None and fl.root(e.args[1])==src_]
        if src_ is None or len(mk)!=1: R.und("the stored task is the one whose future is returned",gf[0].loc)
        else:
            dst={repr(fl.root(e.args[0])) for e in cp}
            R.check(True if all(repr(fl.root(i.args[1])) in dst for i in ins) else None,"the stored task is the one whose future is returned",gf[0].loc)
def invoke(R,p):
    for x in [y for y in p.F if y.role=="invoke"]:
        fl=x.fl; c=calls(fl,r"packaged_task<.*>::operator\(\)\(")
        rets=bor(*[e.guard for e in fl.effects if e.kind=="ret"]) if any(e.kind=="ret" for e in fl.effects) else F
        if not c:
            ind=[e for e in fl.effects if e.kind=="call" and (not e.dem or "invoke" in e.dem)]
            R.check(None if ind else False,"a stored task runs the submitted work",name(fl.f)); continue
        g=bor(*[e.guard for e in c])
        twice=any(band(a.guard,b.guard)!=F and nothrow(band(a.guard,b.guard))!=F for i,a in enumerate(c) for b in c[:i]) or any(e.loops for e in c)
        miss=band(rets,bnot(g))
        R.check(None if any(e.loops for e in c) else False if twice else True if miss==F else False,"a stored task runs the submitted work exactly once, unconditionally",c[0].loc)
def worker(R,p,so):
    W=[y for y in p.F if y.role in("worker","member") and calls(y.fl,RUN)]
    if not W: R.und("no worker function that runs tasks was found"); return
    for x in W:
        fl=x.fl; f=fl.f
        if x.P is None: R.und("worker: the pool is not found",name(f)); continue
        run=calls(fl,RUN); wt=calls(fl,r"condition_variable(_any)?::wait\("); tw=calls(fl,r"wait_(for|until)|pthread_cond_(timed|clock)wait")
        rem=[e for e in calls(fl,REM) if p.off(x,e.args[0])]
        def known_(g,extra=()):
            for v in bvars(g):
                k=ckey(v)
                if k[0] in("throws",) or stopped(p,x,v,so) or qtest(p,x,v,so): continue
                if k[0]=="exit" and k[1] in waitloops: continue
                return False
            return True
        waitloops={e.loops[-1] for e in wt if e.loops and not any(e.loops[-1] in q_.loops for q_ in run)}
        # how the waiting loop was left decides what was tested last
        con=T
        for l in waitloops:
            ex=[(cvar(("exit",l,n)),nothrow(g)) for n,(u,v,g) in enumerate(fl.loopinfo[l]["exits"])]
            for n,(c,g) in enumerate(ex):
                con=band(con,bor(bnot(c),g))
                for c2,_ in ex[:n]: con=band(con,bor(bnot(c),bnot(c2)))
            if ex: con=band(con,bor(*[c for c,_ in ex]))
        leave=lambda g: band(nothrow(g),con)
        # sleeping
        for e in wt:
            g=nothrow(e.guard)
            has=[v for v in bvars(g) if stopped(p,x,v,so)]; hq=[v for v in bvars(g) if qtest(p,x,v,so)]
            if so is not None:
                b=pol(g,p,x,so,True)
                R.check(True if b==F else (False if not has or qpol(b,p,x,so,True)!=F and known_(b) else None),"a worker does not sleep once the pool is stopped",e.loc)
            b=qpol(g,p,x,so,False)
            R.check(True if b==F else (False if not hq or pol(b,p,x,so,False)!=F and known_(b) else None),"a worker does not sleep while a task is pending",e.loc)
        if not wt:
            R.check(None,"workers wait for tasks",name(f))
        if len(run)!=1 or len(rem)!=1:
            if run and not rem: R.check(None if [1 for e,r,w in p.accesses(x) if w and e.kind!="call"] or calls(fl,r"std::(swap|exchange)|::swap\(") else False,"a task that runs leaves the queue",run[0].loc)
            elif len(rem)>1 and len(run)==1 and any(band(a.guard,b.guard)!=F and nothrow(band(a.guard,b.guard))!=F and a.loops==b.loops for i,a in enumerate(rem) for b in rem[:i]): R.bad("one task leaves the queue for each one run",rem[1].loc)
            elif len(run)>1 and len(rem)==1 and any(band(a.guard,b.guard)!=F and nothrow(band(a.guard,b.guard))!=F and a.loops==b.loops and fl.root(a.args[0])==fl.root(b.args[0]) for i,a in enumerate(run) for b in run[:i]): R.bad("one task leaves the queue for each one run",run[1].loc)
            else: R.und("worker: one run and one removal were not found (%d, %d)"%(len(run),len(rem)),name(f))
            continue
        r,q=run[0],rem[0]
        if r.loops!=q.loops:
            # a removal in an inner loop of its own, or tasks run again
            R.check(False if len(q.loops)<len(r.loops) and r.loops[:len(q.loops)]==q.loops and (not wt or wt[0].loops[:len(r.loops)]!=r.loops) else None,"one task leaves the queue for each one run",r.loc); continue
        gr,gq=leave(r.guard),leave(q.guard)
        d1=band(gr,bnot(gq)); d2=band(gq,bnot(gr))
        R.check(True if d1==F else False if known_(d1) else None,"every task that runs has left the queue",r.loc)
        R.check(True if d2==F else False if known_(d2) else None,"every task that leaves the queue runs",q.loc)
        ro=fl.root(r.args[0])
        mv=[e for e in fl.effects if e.kind=="call" and e.args and fl.root(e.args[0])==ro and re.search(r"std::function<.*>::(operator=|function|swap)(<.*>)?\(",e.dem) and len(e.args)>1 and e.loops==q.loops]
        mv+=[e for e in calls(fl,r"std::swap<") if e.loops==q.loops and len(e.args)>1 and ro in(fl.root(e.args[0]),fl.root(e.args[1]))]
        take=mv[0] if len(mv)==1 else q
        # not empty when taken
        hq=[v for v in bvars(gq) if qtest(p,x,v,so)]
        b=qpol(gq,p,x,so,True)
        # after a wait only tests made since then count
        def isnow(v):
            at=[a for a in cond_atoms(cvar(ckey(v))) if a[0]=="load" and not(x.P.single()==a) and p.off(x,a[1])]
            return bool(at) and all(fl.at_call(take,a[1],1 if a[3]=="i8" else 8,a[3])==var(a) for a in at)
        lost=False
        for e in wt:
            if e.loops!=q.loops: continue
            g=band(gq,nothrow(e.guard))
            for v in bvars(g):
                if isnow(v):
                    if qtest(p,x,v,so): g=brestrict(g,v,True)
                    elif stopped(p,x,v,so): g=brestrict(g,v,ckey(v)[0]=="eq")
            if g!=F and known_(g): lost=True
        stale=False
        if b!=F and not hq: stale=True
        bb=pol(b,p,x,so,False)
        R.check(False if lost else True if b==F else False if stale else False if bb!=F and known_(bb) else None,"a task is only taken from a non-empty queue",q.loc)
        # what is run is what was at the end that is removed
        if len(mv)!=1: R.und("worker: how the task leaves the queue is not recognised",r.loc)
        else:
            m=mv[0]
            oth=[a for a in m.args[:2] if fl.root(a)!=ro]
            o=p.off(x,oth[0]) if oth else None
            R.check(True if o and before(fl,m,q) and before(fl,q,r) else False if o and before(fl,q,m) else None,"the task is taken out before its place in the queue is removed",m.loc)
            hm=x.L.held(m,x.P+const(p.m)) if p.m is not None else (None,None); hq_=x.L.held(q,x.P+const(p.m)) if p.m is not None else (None,None)
            between=[e for e in fl.effects[fl.effects.index(m):fl.effects.index(q)] if e.kind=="call" and re.search(r"unique_lock<.*>::(unlock|~unique_lock)|lock_guard<.*>::~|condition_variable.*::wait",e.dem) and nothrow(band(e.guard,q.guard))!=F]
            R.check(True if hm[0] and hq_[0] and not between else None if between else None,"taking a task and removing it are one step under the lock",q.loc)
            back="_back(" in q.dem
            # the address of the last element is computed from the end pointer
        # leaving
        lv=[]
        for L in {l for l in r.loops}:
            i=fl.loopinfo[L]
            for(u,v,g) in i["exits"]: lv.append((L,u,v,g))
        outs=0
        good=reach_ret(f)
        for(L,u,v,g) in lv:
            if L!=r.loops[0]: continue
            if v not in good: continue
            g=leave(g); outs+=1
            if g==F: continue
            if so is None: continue
            a=pol(g,p,x,so,False); b=qpol(g,p,x,so,False)
            kn=all(known_(z) for z in(a,b))
            loc=next((e.loc for e in fl.effects if e.inst in x.blk and x.blk[e.inst]==u),name(f))
            R.check(True if b==F else False if known_(b) else None,"a worker leaves only when no task is pending",loc)
            R.check(True if a==F else False if known_(a) else None,"a worker leaves only when the pool is stopped",loc)
        if not outs: R.check(False if r.loops else None,"a worker ends once the pool is stopped",name(f))
def reach_ret(f):
    """blocks from which a normal return is reached without unwinding"""
    good=set(); st=[b.id for b in f.B.values() if b.insts[-1]["op"]=="ret"]
    pred={b:[] for b in f.B}
    for b in f.B.values():
        t=b.insts[-1]
        for v in b.succ:
            if t["op"]=="invoke" and v==t.get("unwind"): continue
            pred[v].append(b.id)
    while st:
        b=st.pop()
        if b in good: continue
        good.add(b); st+=pred[b]
    return good
def shutdown(R,p,so):
    for x in [y for y in p.F if y.role=="kill"]:
        fl=x.fl; f=fl.f
        rg=bor(*[e.guard for e in fl.effects if e.kind=="ret"]) if any(e.kind=="ret" for e in fl.effects) else F
        st=[e for e,(h,k),w in p.accesses(x) if h=="at" and k==so and w and e.kind!="call"] if so is not None else []
        nt=[e for e in calls(fl,r"condition_variable(_any)?::notify_(one|all)\(") if p.off(x,e.args[0])==("at",p.c)]
        jn=calls(fl,r"std::thread::join\(")
        if so is None or not st: R.check(False if not [1 for e,r,w in p.accesses(x) if w and e.kind!="call"] else None,"shutdown sets the stop flag",name(f))
        else: R.check(True if nothrow(bnot(bor(*[e.guard for e in st])))==F or bimp(nothrow(rg),nothrow(bor(*[e.guard for e in st]))) else None,"shutdown sets the stop flag",st[0].loc)
        al=[e for e in nt if "notify_all" in e.dem]
        if not nt: R.bad("shutdown wakes the workers",name(f))
        elif not al: R.check(None if any(e.loops for e in nt) else False,"shutdown wakes every worker",nt[0].loc)
        else:
            late=[e for e in al if st and any(before(fl,s_,e) or locked(p,x,e,s_) for s_ in st)]
            R.check(True if late and nothrow(band(rg,bnot(bor(*[e.guard for e in late]))))==F else False if st and not late else None,"shutdown wakes every worker after the flag is set",al[0].loc)
            if jn: R.check(True if late and all(before(fl,late[0],j) for j in jn) else False if late and all(before(fl,j,late[0]) and not set(j.loops)&set(late[0].loops) for j in jn) else None,"workers are woken before they are waited for",al[0].loc)
        if not jn:
            det=calls(fl,r"std::thread::detach\(")
            ind=[e for e in fl.effects if e.kind=="call" and not e.dem]
            R.check(None if ind and not det else False,"shutdown joins the workers",name(f)); continue
        for j in jn:
            if p.m is not None:
                must,may=x.L.held(j,x.P+const(p.m))
                R.check(True if not may else False if must else None,"workers are waited for without the lock they need",j.loc)
        j=jn[0]
        if len(jn)!=1 or len(j.loops)!=1: R.check(False if len(jn)==1 and not j.loops else None,"every worker is joined",j.loc); continue
        L=j.loops[0]; info=fl.loopinfo[L]
        loads=[akey(a) for a in j.args[0].atoms() if akey(a)[0]=="load"]
        beg=[a for a in loads if p.off(x,a[1])==("at",p.w)]
        i=var(("lv",L))
        shape=len(beg)==1 and j.args[0]==var(beg[0])+i.scale(8)
        if shape:
            e8=fl.at_call(j,x.P+const(p.w+8),8,"ptr")
            done=ceq(j.args[0],e8)
            ok=True
            gd=reach_ret(f)
            for(u,v,g) in info["exits"]:
                if v not in gd: continue
                g=nothrow(g)
                if g==F: continue
                # tested before the body (index i) or after it (index i+1)
                nxt=ceq(var(beg[0])+(i+ONE).scale(8),e8)
                if not(bimp(g,done) or bimp(g,nxt) or any(bimp(g,c) for c in xs(done,beg,e8,i))):
                    ok=False if not [v for v in bvars(g) if ckey(v)[0] not in("eq","ult","throws")] and find_early(g,done,nxt,beg[0],e8,i) else None
            R.check(ok,"every worker is joined",j.loc)
            jb=nothrow(j.guard)
            # joined in every round, unless the thread says it is not joinable
            rest=[v for v in bvars(jb) if ckey(v)[0] not in("throws","exit") and not joinable(ckey(v)) and ckey(v)[0] not in("eq","ult")]
            R.check(True if not rest else None,"no worker is left out",j.loc)
        elif len(beg)==1 and (j.args[0]-var(beg[0])-i.scale(8)).isconst(): R.bad("every worker is joined",j.loc)
        else:
            # the last one is joined and dropped until none is left
            R.und("every worker is joined",j.loc)
def xs(done,beg,e8,i):
    # an index compared with the number of threads
    d=(e8-var(beg[0]))
    return [ceq(i,s) for s in(d.scale(Fraction(1,8)),var(("idiv",d,const(8),"s")),var(("idiv",d,const(8),"u")))]
def find_early(g,done,nxt,b,e,i):
    if i.single() in cond_atoms(g) or g==T: 
        m=cex.find(band(g,bnot(done),bnot(nxt)),vals=[0,8,16,24,32,40,1,2,3,4,5])
        return m is not None
    return False
def joinable(k): return k[0]=="bool" and k[1].single() and k[1].single()[0]=="call" and "joinable" in k[1].single()[1]
def make(R,p):
    for x in [y for y in p.F if y.role=="make"]:
        fl=x.fl; f=fl.f
        a=f.args; n=var(("arg",1,a[1]["name"],"i64"))
        th=calls(fl,r"_M_start_thread|std::thread::thread<|vector<std::thread.*>::(emplace_back|push_back)")
        L={e.loops for e in th if e.loops}
        if not th: R.und("construction: how threads are started is not recognised",name(f)); continue
        Ls={l[0] for l in L}
        if len(Ls)!=1: R.und("construction: threads are not started by one loop",name(f)); continue
        l=Ls.pop(); t=fl.loopinfo[l].get("trip")
        gd=reach_ret(f); i=var(("lv",l)); ok=True
        ex=[(u,v,nothrow(g)) for(u,v,g) in fl.loopinfo[l]["exits"] if v in gd]
        if t is not None: ok=True if t==n else False if (t-n).isconst() else None
        else:
            for(u,v,g) in ex:
                if g==F: continue
                if bimp(g,ceq(i,n)) or bimp(g,bnot(cult(i,n))) : continue
                m=band(g,cult(i,n))
                ok=False if all(set(cond_atoms(cvar(ckey(v))))<={i.single(),n.single()} for v in bvars(g)) and cex.find(band(g,bnot(ceq(i,n))),vals=[0,1,2,3,4]) is not None else None
        R.check(ok,"construction starts the requested number of workers",th[0].loc)
def body(R):
    p=Pool(R); so=stopoff(p)
    if so is None: R.und("the shutdown flag was not found")
    submit(R,p,so); invoke(R,p); worker(R,p,so); shutdown(R,p,so); make(R,p)
if __name__=="__main__":
    main("C11","path conditions of every submission, worker and shutdown path: a task is stored once, wakes a worker and shares the returned future; a worker sleeps only when nothing is pending and the pool runs, takes one task per run under one lock, and leaves only when stopped and drained; shutdown sets the flag, wakes all, joins all",body)
