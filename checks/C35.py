#!/usr/bin/env python3
"""C35: copying, moving and comparing propagators and their tables treats every member."""
from common import *
from walklib import *
RULE=("for every non-static data member and base class of nuSQUIDS, nuSQUIDSAtm, InteractionStructure and InteractionState (from the compiler's class layout), each user-provided copy or move "
      "constructor and assignment carries the source's member into the same member of the destination on the way out (stores, member-wise calls, block copies, through temporaries), and the "
      "equality operator's result depends on every member: it is false when any one member differs in length or in an entry, true when none does.")
NSQ="nusquids::nuSQUIDS"
def unit():
    bc=lower(harness("state.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=(r"(bool )?vp::.*",),noinline=(r".*nusquids::marray<.*>::(marray|operator=|resize|~marray)[<(].*",),layouts=True)
def pairs(e,p):
    """(where to, where from) of one effect"""
    if e.kind in("store","wstore") and getattr(e,"val",None) is not None and e.addr is not None:
        for k in deep_atoms(e.val):
            if k[0]=="load": yield e.addr,k[1]
    elif e.kind=="call" and len(e.args)>=2:
        for a in e.args[1:]: yield e.args[0],a
    elif e.kind=="memcpy" and getattr(e,"dst",None) is not None: yield e.dst,e.src
def within(a,base,off,size):
    """position of an address in [base+off, base+off+size), or None"""
    if a is None: return None
    d=a-base
    if not d.isconst(): return None
    x=int(d.cval())
    return x-off if off<=x<off+max(size,1) else None
def inside(a,x):
    """position of an address in the memory starting at x, or None"""
    d=a-x
    return int(d.cval()) if d.isconst() else None
def holds(u,ty):
    """does a class have data of its own?"""
    return any(holds(u,m["type"]) if m["inh"] else not m["name"].startswith("_vptr") for m in u.layouts.get(ty,{"members":[]})["members"])
def through(a,base,off,size):
    """does an address come from a pointer held in the member?"""
    return a is not None and any(k[0]=="load" and within(k[1],base,off,size) is not None for k in deep_atoms(a))
def blocks(e,d,off,size):
    """may a block copy reach the member?"""
    if e.kind=="memcpy": a,n=getattr(e,"dst",None),getattr(e,"len",None)
    elif e.kind=="wstore": a,n=e.addr,const(e.sz or 64)
    else: return False
    if a is None: return True
    w=a-d
    if w.isconst(): return n is None or not n.isconst() or (int(w.cval())<off+size and int(w.cval())+int(n.cval())>off)
    return any(len(m)==1 and d.t.get(m) for m in a.t)
def transfer(R,u,name,K,what,assign):
    fl=u.flow(r"vp::%s\("%name)
    d,o=[var(("arg",k,a["name"],a["ty"])) for k,a in enumerate(fl.f.args[:2])]
    lay=u.layouts[K]["members"]
    R.fn(fl.f)
    E=fl.effects
    loc=next((e.loc for e in E if e.kind in('store','call') and e.loc),fl.f)
    opaque=[e for e in E if e.kind=="call" and not (e.dem or "").startswith("squids::") and e.args and len(e.args)>=2 and any((a-d).isconst() and (a-d).cval()==0 for a in e.args) and any((a-o).isconst() and (a-o).cval()==0 for a in e.args) and not any(m["off"]==0 and m["type"] and (e.dem or "").startswith(m["type"].split("<")[0]) for m in lay)]
    away=bnot(ceq(d,o))
    n=0
    for m in lay:
        off,size,ty=m["off"],m["size"],m["type"]
        nm=m["name"] or ty.split("<")[0]
        if ty.startswith("const ") or m["name"].startswith("_vptr"): n+=1; continue
        if m["inh"] and not size: size=u.layouts.get(ty,{}).get("size",8)
        if m["inh"] and not holds(u,ty): continue
        title="%s: %s"%(what,("the base class " if m["inh"] else "member ")+nm)
        n+=1
        # addresses holding (part of) the source's member, in program order
        held=[(o+const(off),size)]; whole=F; wrong=None; got=None; touched=None; src_seen=False
        for e in E:
            if e.guard==F: continue
            if e.kind=="memcpy" and getattr(e,"dst",None) is not None and e.len is not None and e.len.isconst():
                x,y,k=within(e.dst,d,0,1<<20),within(e.src,o,0,1<<20),int(e.len.cval())
                if x is not None and x<=off and off+size<=x+k:
                    if x==y: got=e; whole=bor(whole,e.guard)
                    elif y is not None: wrong=(e,y+off-x)
            for to,frm in pairs(e,None):
                if frm is None or to is None: continue
                h=next(((x,s) for x,s in held if within(frm,x,0,s) is not None),None)
                w=within(to,d,off,size)
                if w is not None:
                    if h is not None and (within(frm,h[0],0,h[1])==w or e.kind!="store"): got=e; whole=bor(whole,e.guard)
                    elif within(frm,o,0,1<<20) is not None and e.kind in("store","call"): wrong=(e,within(frm,o,0,1<<20))
                elif h is not None and within(to,o,0,1<<20) is None and to.single() is not None:
                    p=within(frm,h[0],0,h[1])
                    held.append((to-const(p),h[1]))
            if e.kind in("store","wstore") and within(e.addr,d,off,size) is not None: touched=e
            if e.kind=="call" and e.args and within(e.args[0],d,off,size) is not None: touched=e
        scalar=ty not in u.layouts and not m["inh"] and size in(1,2,4,8)
        if got is not None:
            if scalar and touched is not None and touched is not got and touched.kind=="store" and not touched.val.isconst(): R.und(title+" is overwritten after it was transferred",touched.loc); continue
            if scalar and touched is not None and touched is not got and touched.kind=="store" and touched.guard!=F and bimp(got.guard,touched.guard): R.bad(title+" is overwritten with %s after it was transferred"%show(touched.val),touched.loc); continue
            if not bimp(band(fl.retguard,away),whole):
                # skipping is harmless where the condition says that nothing would change: a scalar compared with its source, an empty source; or the contents are copied in place
                L=[k[1] for c in bvars(whole) for q in ckey(c)[1:] if hasattr(q,"t") for k in deep_atoms(q) if k[0]=="load"]
                mine=any(within(a,d,off,size) is not None for a in L); theirs=any(within(a,o,off,size) is not None for a in L)
                inplace=any(through(e.addr if e.kind in("store","wstore") else getattr(e,"dst",None) if e.kind=="memcpy" else e.args[0] if e.kind=="call" and e.args else None,d,off,size) for e in E if e.guard!=F)
                own=(mine and theirs if scalar else theirs and not mine) or inplace
                if own or got.loops: R.und(title+" is carried over under a condition",got.loc); continue
                R.bad(title+" is not carried over in every case",got.loc); continue
            R.ok(title+" comes from the same member of the source",got.loc); continue
        if opaque: R.und(title+": handed on to "+(opaque[0].dem or "?")[:80],opaque[0].loc); continue
        if wrong is not None:
            other=next((x["name"] for x in lay if x["off"]<=wrong[1]<x["off"]+max(x["size"],1)),"?")
            R.bad(title+" comes from the source's member %s"%other if other!=nm else title+" comes from another place of the source's member",wrong[0].loc); continue
        if any(blocks(e,d,off,size) for e in E if e.guard!=F): R.und(title+": block copies",loc); continue
        R.bad(title+" is not carried over"+(": it keeps a value of its own" if touched is None and assign else ": it is left with a default"),touched.loc if touched is not None and touched.loc else loc)
    R.check(n>0,what+": members found",loc)
def structure(u,K):
    """array and vector members: (name, offset, rank or 'vec')"""
    out=[]; rest=[]
    for m in u.layouts[K]["members"]:
        r=re.match(r"nusquids::marray<double, ?(\d+)u?[,>]",m["type"])
        if r: out.append((m["name"],m["off"],int(r.group(1)),m["size"]))
        elif m["type"].startswith("std::vector<"): out.append((m["name"],m["off"],"vec",24))
        else: rest.append(m)
    return out,rest
OTHER=(("decay","TauDecaySpectra"),("akima","AkimaSpline"),("tricubic","TriCubicInterpolator"),("bicubic","BiCubicInterpolator"),("tables","NeutrinoDISCrossSectionsFromTables"),
       ("tablesv1","NeutrinoDISCrossSectionsFromTables_V1"),("glashow","GlashowResonanceCrossSection"),("library","CrossSectionLibrary"),("earthtrack","EarthAtm::Track"),
       ("chordtrack","Earth::Track"),("earthatm","EarthAtm"),("earth","Earth"),("sun","Sun"),("sunasnu","SunASnu"),("constdens","ConstantDensity"),("vardens","VariableDensity"))
class Ints(Vec):
    """vector of 4-byte codes"""
    width=4
    def copy(s): return Ints(s.vals)
def equality(R,u,short,K,word):
    A,rest=structure(u,K)
    for m in rest: R.und("%s: comparison of member %s of type %s"%(word,m["name"],m["type"]))
    for neg in(False,True):
        fl=u.flow(r"(bool )?vp::%s_%s\("%("ne" if neg else "eq",short)); R.fn(fl.f)
        op=next((e.loc for e in fl.effects if e.loc),fl.f)
        def same(change=None):
            """does the operator call two objects equal that agree but for one change?"""
            obj={}; BA,BB=("first",),("second",)
            for n,(nm,off,r,_) in enumerate(A):
                for B in(BA,BB):
                    if r=="vec": o=Ints([7,8,9])
                    else: o=Arr([2]*r,[n+Q(i+1,2) for i in range(2**r)])
                    if change and change[0]==nm and B==BB:
                        if change[1]=="length":
                            if r=="vec": o=Ints([7,8])
                            else: o.ext[-1]*=2; o.vals=o.vals*2
                        elif change[1]=="longer":
                            if r=="vec": o=Ints([7,8,9,9])
                            else: o.ext[-1]*=2; o.vals=o.vals+o.vals
                        elif change[1]=="empty":
                            if r=="vec": o=Ints([])
                            else: o.ext[-1]=0; o.vals=[]
                        else: o.vals[change[1]]+=1
                    obj[(B,off)]=o
            last={(B,off+size-8):obj[(B,off)] for B in(BA,BB) for nm,off,r,size in A if r!="vec"}
            def leaf(k,ev):
                # the last word of an array is its data pointer, whatever allocator precedes it
                if k[0]!="load": return None
                p=ev.poly(k[1]).ptr()
                return V(0,{w.data(last[p]):1}) if p in last else None
            w=Walk(u,fl,World(),obj=obj,args={0:V(0,{BA:1}),1:V(0,{BB:1})},leaf=leaf)
            r=w.run()
            if r[0]!="returned": raise Unknown("refused")
            if w.issues: raise Unknown("; ".join(w.issues))
            v=w.ev(fl.ret); return (v==0) if neg else (v!=0)
        def ask(what,change,want):
            try: r=same(change)
            except Unknown as x: R.und(what+": %s"%x,op); return
            R.check(r==want,what,op)
        sym="!=" if neg else "=="
        ask("%s: operator%s finds identical objects equal"%(word,sym),None,True)
        for nm,off,r,_ in A:
            for c,t in[(i,"in entry %d of %d"%(i+1,3 if r=="vec" else 2**r)) for i in range(3 if r=="vec" else 2**r)]+[("longer","in length"),("empty","in being empty")]:
                ask("%s: operator%s tells apart objects differing in %s %s"%(word,sym,nm,t),(nm,c),False)
def body(R):
    u=unit()
    for n in u.dropped:
        if not any(n.endswith("_"+s) for s,_ in OTHER): R.und("entry point does not compile: "+n)
    atm=next((k for k in u.layouts if re.match(r"nusquids::nuSQUIDSAtm<nusquids::nuSQUIDS(, void)?>$",k)),None)
    if atm is None or NSQ not in u.layouts: raise AnalysisError("anchor: propagator classes not found")
    for name,K,what,assign in(("mc_nusquids",NSQ,"moving a nuSQUIDS into a new one",False),("ma_nusquids",NSQ,"move-assigning a nuSQUIDS",True),
        ("mc_atm",atm,"moving a nuSQUIDSAtm into a new one",False),("ma_atm",atm,"move-assigning a nuSQUIDSAtm",True),
        ("mc_structure",NSQ+"::InteractionStructure","moving an interaction structure into a new one",False),("ma_structure",NSQ+"::InteractionStructure","move-assigning an interaction structure",True),
        ("cc_structure",NSQ+"::InteractionStructure","copying an interaction structure into a new one",False),("ca_structure",NSQ+"::InteractionStructure","copy-assigning an interaction structure",True),
        ("mc_state",NSQ+"::InteractionState","moving an interaction state into a new one",False),("ma_state",NSQ+"::InteractionState","move-assigning an interaction state",True),
        ("cc_state",NSQ+"::InteractionState","copying an interaction state into a new one",False),("ca_state",NSQ+"::InteractionState","copy-assigning an interaction state",True)):
        try: transfer(R,u,name,K,what,assign)
        except NotBuilt: R.und(what+": not available")
    for short,K in OTHER:
        K="nusquids::"+K
        if K not in u.layouts: R.und("%s: class layout not found"%K); continue
        for o,w,assign in(("mc","moving into a new one",False),("ma","move-assigning",True),("cc","copying into a new one",False),("ca","copy-assigning",True)):
            if not u.find(r"vp::%s_%s\("%(o,short)): continue      # not offered by the class
            transfer(R,u,o+"_"+short,K,K.split("nusquids::")[1]+", "+w,assign)
    equality(R,u,"structure",NSQ+"::InteractionStructure","interaction structures")
    equality(R,u,"state",NSQ+"::InteractionState","interaction states")
    R.scope("nuSQUIDS and nuSQUIDSAtm<nuSQUIDS> with their InteractionStructure and InteractionState, all data members from the class layouts")
main("C35",RULE,body)
