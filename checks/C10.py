from poollib import *
def reach(f,start,cut=()):
    seen=set(); st=list(start)
    while st:
        b=st.pop()
        if b in seen or b in cut or b not in f.B: continue
        seen.add(b); st+=f.B[b].succ
    return seen
def body(R):
    p=Pool(R)
    if p.m is None: R.und("no mutex found in the pool"); return
    R.ok("pool layout: mutex at %s, condition variable at %s, threads at %s"%(p.m,p.c,p.w))
    # which fields are changed after construction
    mut=set()
    starts=set()
    for x in p.F:
        for e,(h,o),w in p.accesses(x):
            if h=="at": starts.add(o)
            if w and x.role not in("make",): mut.add(o)
    def shared(o):
        if o in mut: return True
        # inside an object that is handed to calls as a whole
        c=[a for a in mut if a<=o]
        if not c: return False
        a=max(c)
        lim=[b for b in [p.m,p.c,p.w] if b is not None and a<b<=o]
        return not lim and any(k.kind=="call" and r[1]==a for y in p.F for k,r,w in p.accesses(y) if w)
    for x in p.F:
        f=x.fl.f
        if x.P is None:
            if x.role in("worker",): R.und("%s: the pool is not found"%short(f.dem),(f.file,f.line))
            continue
        mx=x.P+const(p.m); L=x.L
        free=set()      # instructions that no other thread can run beside
        if x.role=="make":
            th=[x.blk[e.inst] for e in x.fl.effects if e.kind=="call" and re.search(r"_M_start_thread|std::thread::thread<|vector<std::thread.*>::(emplace_back|push_back|_M_realloc|_M_emplace)",e.dem)]
            after=reach(f,[v for b in th for v in f.B[b].succ])
            free={i for i,b in x.blk.items() if b not in after}
            # once every thread has been joined or a constructor is being undone
        if x.role in("kill","make"):
            for e in x.fl.effects:
                if e.kind=="call" and re.search(r"std::thread::join\(",e.dem):
                    b=x.blk[e.inst]; H=[h for h,l in f.loops.items() if b in l["body"]]
                    h=max(H,key=lambda h:len(f.loops[h]["body"])) if H else None
                    if h is None: continue
                    before=reach(f,[f.entry],cut=(h,)); free|={i for i,b in x.blk.items() if b not in before and b not in f.loops[h]["body"]}
        seen=set()
        for e,(h,o),w in p.accesses(x):
            if not shared(o): continue
            if e.inst in free: continue
            must,may=L.held(e,mx)
            if must is None: continue
            what="%s: %s field +%d only with the pool's mutex held"%(x.role if x.role!="member" else short(f.dem),"changes" if w else "reads",o)
            if x.role=="make" and re.search(r"::~",getattr(e,"dem","")): R.und(what,e.loc); continue
            ok=True if must else (None if may or not L.known or e.kind in("aload",) else False)
            if (what,ok,e.loc) in seen: continue
            seen.add((what,ok,e.loc))
            R.check(ok,what,e.loc)
        # user tasks run unlocked; nothing leaves with the lock
        for e in x.fl.effects:
            if e.kind=="call" and x.role in("worker","member") and re.search(r"std::(function<.*>|packaged_task<.*>)::operator\(\)\(",e.dem):
                must,may=L.held(e,mx)
                R.check(True if not may else False if must else None,"a task runs with no lock of the pool held",e.loc)
        for b in f.B.values():
            t=b.insts[-1]
            if t["op"] in("ret","resume") and t["id"] in L.at:
                mu,ma=L.at[t["id"]]
                R.check(True if not ma else False if mu else None,"%s: returns with no lock held"%(x.role if x.role!="member" else short(f.dem)),(f.file,f.line))
        for e in x.fl.effects:
            if e.kind=="call" and re.search(r"condition_variable::wait\(",e.dem):
                must,may=L.held(e,mx)
                R.check(True if must else None if may or not L.known else False,"waiting happens on the locked mutex",e.loc)
main("C10","lock sets over the control flow graph of construction, submission (three instantiations), the worker function and destruction, including unwinding: the pool's mutex is held at every access to the fields that change after construction, except before the first worker exists and after all have been joined; no lock is held where a task runs or a function ends",body)
