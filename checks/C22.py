#!/usr/bin/env python3
"""C22: HDF5 failures and mismatches are reported by the helpers."""
from h5lib import *
RULE=("in every array, attribute and body serialisation helper: no normal return is reachable when any library call made on the way reported failure, every normal return has made the "
      "transferring call and it succeeded, and no normal return (nor the transfer) is reachable when the stored rank, attribute type or number of values differs from what the caller asked for.")
HELP=(r"^void nusquids::marray<.*>::resize",)
XFER={"w":("H5Dwrite","H5LTmake_dataset","H5LTmake_dataset_double","H5LTmake_dataset_float","H5LTmake_dataset_int"),"r":("H5Dread","H5LTread_dataset","H5LTread_dataset_double","H5LTread_dataset_float","H5LTread_dataset_int"),
 "wa":("H5Awrite","H5LTset_attribute_double","H5LTset_attribute_int","H5LTset_attribute_string","H5LTset_attribute_float","H5LTset_attribute_uint"),"ra":("H5Aread","H5LTget_attribute","H5LTget_attribute_double","H5LTget_attribute_int","H5LTget_attribute_string","H5LTget_attribute_float","H5LTget_attribute_uint")}
def failures(R,h,what,quiet=False):
    """every failing call keeps the function from returning normally"""
    fl=h.fl; ret=h.g(fl.retguard); n=0
    # a call given the result of a failed one fails too
    for a in h.calls:
        if a.name in OPEN and a.ret is not None and a.ret.single():
            for e in h.calls:
                if ish5(e.name) and e.name not in CLOSE and any(x==a.ret for x in e.args) and not e.loops and not a.loops:
                    ret=band(ret,bor(bnot(h.failv(a)),bnot(band(h.g(a.guard),h.g(e.guard))),h.failv(e)))
    for e in h.calls:
        if not ish5(e.name) or e.name in CLOSE or e.name in QUIET or e.name in QUERY: continue
        n+=1; nm="%s: a failing %s is reported"%(what,e.name)
        g=band(h.g(e.guard),h.failv(e))
        if e.loops: R.und(nm+" (called in a loop)",e.loc); continue
        if e.ret is None or e.ret.single() is None: R.und(nm+" (result not followed)",e.loc); continue
        rest=band(g,ret)
        if rest==F: R.ok(nm,e.loc); continue
        # the result is looked at in a way that is not resolved
        hazy=any(c[0] not in("fail","yes","throws") and any(e.ret.single() in deep_atoms(x) for x in c[1:] if isinstance(x,Poly)) for c in map(ckey,bvars(rest)))
        R.check(None if hazy else False,nm,e.loc,detail="the function returns as if it had succeeded")
    return n
def transfer(R,h,what,names):
    fl=h.fl; ret=h.g(fl.retguard)
    X=[e for e in h.calls if e.name in names]
    if not X:
        other=[e for e in h.calls if e.name is None or (not ish5(e.name) and not SAFE.match(e.dem or "") and (e.dem or "").startswith(("nusquids","void nusquids")) )]
        R.check(None if other else False,what+": every normal return has transferred the data",(fl.f.file,fl.f.line)); return []
    done=bor(F,*[band(h.g(e.guard),bnot(h.failv(e))) for e in X])
    R.check(bimp(ret,done),what+": every normal return has transferred the data",X[0].loc)
    return X
def setres(h,vals):
    """conditions with some call results replaced by numbers"""
    m={e.ret.single():const(v) for e,v in vals}
    rw=Rewriter(lambda k: m.get(k))
    return lambda c: h.g(rw.cond(c))
def mismatch(R,h,what,X,cands,bad,wording,others):
    fl=h.fl; C=[e for e in h.calls if e.name in cands and e.ret is not None and e.ret.single()]
    if not C:
        alt=[e for e in h.calls if e.name in others]
        R.check(None if alt else False,"%s: %s is rejected"%(what,wording),(fl.f.file,fl.f.line),detail="" if alt else "it is never asked for"); return
    for v in bad:
        s=setres(h,[(e,v) for e in C])
        if s(fl.retguard)!=F: R.bad("%s: %s is rejected"%(what,wording),C[0].loc); return
        if any(s(x.guard)!=F for x in X): R.bad("%s: %s is rejected before the data are read"%(what,wording),X[0].loc); return
    R.ok("%s: %s is rejected"%(what,wording),C[0].loc)
def attrtype(R,h,what,X,string):
    fl=h.fl; nm="%s: a stored value of another type is rejected"%what; L=(fl.f.file,fl.f.line)
    types={e.ret for e in h.calls if e.name=="H5Aget_type" and e.ret is not None}
    if string:
        mismatch(R,h,what,X,{"H5Tget_class"},[-1,0,1,2,4,5,6,7,8,9,10],"a stored value which is not a string",{"H5Tequal","H5Tdetect_class","H5Tget_native_type"})
        V=[e for e in h.calls if e.name=="H5Tis_variable_str"]
        if not V: R.check(None if any(e.name=="H5Tequal" for e in h.calls) else False,what+": a variable length string is rejected",L,detail="it is never asked for"); return
        y=cvar(("yes",V[0].inst))
        R.check(band(y,bnot(h.failv(V[0])),h.g(fl.retguard))==F and all(band(y,bnot(h.failv(V[0])),h.g(x.guard))==F for x in X),what+": a variable length string is rejected",V[0].loc); return
    E=[e for e in h.calls if e.name=="H5Tequal"]
    if not E:
        alt=[e for e in h.calls if e.name in("H5Tget_class","H5Tget_native_type","H5Tget_size","H5Tget_order","H5LTget_attribute_info","H5Tfind","H5Tcompiler_conv")]
        R.check(None if alt else False,nm,L,detail="" if alt else "the type is never asked for"); return
    g=h.g(fl.retguard)
    yes=bor(F,*[cvar(("yes",e.inst)) for e in E])
    nof=band(*[bnot(h.failv(e)) for e in E])
    R.check(band(g,bnot(yes),nof)==F and all(band(h.g(x.guard),bnot(yes),nof)==F for x in X),nm,E[0].loc)
    for e in E:
        R.check(True if any(a in types for a in e.args) else None,what+": the type compared is that of the stored attribute",e.loc)
def body(R):
    u=extract(lower(harness("h5.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^(bool )?vp::\w+\(",),noinline=HELP)
    n=0
    for d,f in sorted(u.fns.items()):
        m=re.match(r"vp::(w|r|wa|ra)_([a-z]+)(\d?)\(",d)
        if not m: continue
        k,ty,rk=m.groups()
        fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f); h=H5Flow(fl)
        what={"w":"writeArrayH5","r":"readArrayH5","wa":"addH5Attribute","ra":"readH5Attribute"}[k]+" (%s%s)"%(TY[ty],", rank %s"%rk if rk else "")
        n+=one_helper(R,h,what,k,int(rk) if rk else None,False)
    if n==0: raise AnalysisError("anchor: no helper calls the library")
    u=extract(lower(src("src/tools.cpp"),defs=["-DNDEBUG"]),roots=(r"(.* )?nusquids::(add|read)H5Attribute<std::.*string",))
    for d,f in u.fns.items():
        m=re.search(r"nusquids::(add|read)H5Attribute<std",d)
        if not m: continue
        fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f); h=H5Flow(fl)
        n+=one_helper(R,h,m.group(1)+"H5Attribute (string)",{"add":"wa","read":"ra"}[m.group(1)],None,True)
    R.scope("%d library calls in the array and attribute helpers"%n)
    for nm,w in(("h_scope","with a description"),("h_nodesc","without a description")):
        try: fl=u2(nm)
        except NotBuilt: continue
        R.fn(fl.f); x=var(("arg",0,fl.f.args[0]["name"],fl.f.args[0]["ty"]))
        def neg(c,v):
            r=Rewriter(lambda k: const(v) if k==x.single() else None); return r.cond(c)
        ok=all(neg(fl.retguard,v)==F for v in(-1,-2,-(1<<33))); used=[e for e in fl.effects if e.kind=="call" and e.name=="vp_use"]
        R.check(ok and all(neg(e.guard,-1)==F for e in used),"H5Handle %s: taking an invalid identifier throws"%w,(fl.f.file,fl.f.line))
        R.check(all(neg(e.guard,v)!=F for e in used for v in(0,1,5<<56)),"H5Handle %s: a valid identifier is accepted"%w,(fl.f.file,fl.f.line))
    try: u=extract(lower(src("src/body.cpp"),extra=["-I"+VERIF+"/stub"],defs=["-DNDEBUG"]),roots=(r".*nusquids::.*([sS]erialize|Attribute|Dataset)",),noinline=HELP)
    except ToolError: R.und("src/body.cpp is not analysed: it does not compile against the declared interface of SQuIDS"); return
    k=0
    for d,f in sorted(u.fns.items()):
        m=re.match(r"(?:.*[ )])?nusquids::((?:\w+::)*(?:Des|S)erialize)\(long\)",d)
        if not m: continue
        fl=u.flow_of(f,exc=True,keep_abort=True); R.fn(fl.f); k+=failures(R,H5Flow(fl),m.group(1))
    R.scope("%d library calls in body and trajectory serialisation, helpers included"%k)
_U={}
def u2(nm):
    if "u" not in _U: _U["u"]=extract(lower(harness("h5.cpp"),defs=["-DNDEBUG"],tolerant=True),roots=(r"^(bool )?vp::\w+\(",),noinline=HELP)
    return _U["u"].flow(r"^vp::%s\("%nm,exc=True,keep_abort=True)
TY={"dd":"double","fd":"double as float","df":"float as double","ii":"int","uu":"unsigned","d":"double","f":"float","i":"int","u":"unsigned"}
def one_helper(R,h,what,k,rank,string):
    n=failures(R,h,what); X=transfer(R,h,what,XFER[k])
    if k=="r":
        mismatch(R,h,what,X,{"H5Sget_simple_extent_ndims","H5Sget_simple_extent_dims"},[r for r in range(0,8) if r!=rank],"a stored array of another rank",{"H5LTget_dataset_ndims","H5LTget_dataset_info"})
        for e in h.calls:
            if e.name=="H5Sget_simple_extent_dims":
                N=[c for c in h.calls if c.name=="H5Sget_simple_extent_ndims"]
                if N: R.check(all(setres(h,[(c,r) for c in N])(e.guard)==F for r in range(rank+1,8)),what+": extents of a higher rank are not fetched into the caller's",e.loc)
                else: R.und(what+": extents of a higher rank are not fetched into the caller's",e.loc)
    if k=="ra":
        attrtype(R,h,what,X,string)
        mismatch(R,h,what,X,{"H5Sget_simple_extent_npoints"},[0,2,3,100],"an attribute with more or fewer values",{"H5Aget_storage_size","H5Sget_simple_extent_dims","H5LTget_attribute_info","H5Sget_simple_extent_ndims"})
    return n
if __name__=="__main__": main("C22",RULE,body)
