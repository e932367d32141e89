#!/usr/bin/env python3
"""C30: body profiles are looked up inside their tables, at the radius the geometry gives; tracks report the path they were given."""
from bodylib import *
from ev import Ev,V,Unknown
from fills import visits
import math,zlib
from fractions import Fraction as Q
RULE=("density and electron fraction of every body, as closed forms over the members every constructor leaves and the position on the track, give for every ordering of the radius, the ends of the table and the surface "
      "the interpolated value of the matching table at the radius of the geometry, or the end value; no lookup lies outside the table it was built from; radicands that vanish on the path are guarded; "
      "tracks report the positions and the path they were made with.")
AT="nusquids::AkimaSpline::operator()(double) const"
PAR={}
def par(u):
    """units and constants: exact and all different"""
    l=u.layouts.get("squids::Const"); pr=[7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191]
    return {m["off"]:(m["name"],Q(pr[i%len(pr)],5)) for i,m in enumerate(l["members"])} if l else {}
def H(tag,X):
    """the value of the interpolation of a table at X: any number, the same for the same table and place"""
    return Q(zlib.crc32(repr((tag,round(float(X),9))).encode())%100003+1,1000)
def root(v):
    if isinstance(v,float): 
        if v<0: raise (Nan if v<-1e-3 else Unknown)("root of a negative number")
        return math.sqrt(v)
    v=Q(v)
    if v<0: raise Nan("root of a negative number")
    a,b=math.isqrt(v.numerator),math.isqrt(v.denominator)
    return Q(a,b) if a*a==v.numerator and b*b==v.denominator else math.sqrt(v)
def mathf(k,ev):
    n=k[1]
    if n=="sqrt": return root(ev(k[2][0]))
    if n in("acos","asin","atan"): return getattr(math,n)(float(ev(k[2][0])))
    if n=="hypot": return root(ev(k[2][0])**2+ev(k[2][1])**2)
    if n=="cos" and ev(k[2][0])==0: return Q(1)
    if n in("fmax","fmin"): return (max if n=="fmax" else min)(ev(k[2][0]),ev(k[2][1]))
    return None
class Nan(Unknown): pass
class Obj:
    """numeric contents of an object: scalars by offset, vectors and splines by the table they hold"""
    def __init__(s): s.sc={}; s.vec={}; s.spl={}
def glob(P,b,off):
    if b[0]=="g" and int(off) in P and "param" in b[1]: return P[int(off)][1]
    return None
def loader(fl,k): 
    return fl
def make(u,P,fl,M,env,objs=()):
    """numeric object left by constructor entry fl; env: argument number -> number or list (vector); objs: argument number -> Obj"""
    v=View(u,fl); by=v.byid; objs=dict(objs); mem={}; v.rows=env.get("rows"); COLS=12
    p=fl.f.args[0]
    def leaf(k,ev):
        if k[0]=="arg" and k[1] in env and not isinstance(env[k[1]],list): return V(env[k[1]])
        if k[0]=="load":
            pt=ev.poly(k[1]).ptr()
            if pt is None: raise Unknown("load through "+show(k[1]))
            b,off=pt; ver=k[2]
            g=glob(P,b,off)
            if g is not None: return V(g)
            if b[0]=="vec": return V(env[b[1]][int(off)//8])
            if b[0]=="file": return V(env["rows"][int(off)//8//COLS][int(off)//8%COLS])
            if b[0]=="vb":
                if not mem.get("done"): settle()
                if int(off) not in mem[b[1]]: raise Unknown("entry not filled")
                return V(mem[b[1]][int(off)])
            if b[0]=="arg" and b[1] in objs and ver==0:
                if int(off) in objs[b[1]].sc: return V(objs[b[1]].sc[int(off)])
            if b[0]=="arg" and b[1] in env and isinstance(env[b[1]],list) and k[3]=="ptr" and off in(0,8):
                return V(8*len(env[b[1]]) if off==8 else 0,{("vec",b[1]):1})
            if isinstance(ver,tuple) and ver and ver[0]=="c" and ver[1] in by:
                e=by[ver[1]]; d=e.dem or ""
                if d.startswith("nusquids::quickread("):
                    l=next((l for dd,l in u.layouts.items() if re.match(r"nusquids::marray<double, ?2u?[,>]",dd)),None)
                    o=off-ev.poly(e.args[0]).ptr()[1]
                    m=next((m for m in l["members"] if m["off"]<=o<m["off"]+m["size"]),None)
                    if m is None: raise Unknown("table read")
                    if k[3]=="ptr": return V(0,{("file",):1})
                    if m["size"]==16: return V(COLS if o>m["off"] else len(env["rows"]))
                    raise Unknown("table read")
                a0=ev.poly(e.args[0]).ptr() if e.args else None
                if re.match(r"(void )?"+VEC,d) and a0 and a0[0]==b:
                    o=off-a0[1]
                    if re.search(r"vector<.*>::(vector|operator=)\(std::vector<",d): return ev.poly(fl.at_call(e,e.args[1]+const(o),8,"ptr"))
                    if re.search(r"vector<.*>::(vector|resize)\(unsigned long",d): return V(0 if o==0 else 8*ev(e.args[1]),{("vb",e.i["id"]):1})
            if k[3]=="ptr": return V(0,{k:1})
            raise Unknown("load "+show(k[1]))
        return None
    def settle():
        mem["done"]=True
        class D(dict):
            def __missing__(s,x): s[x]={}; return s[x]
        for e in fl.effects:
            if e.kind!="store" or e.root is None: continue
            r=akey(e.root) if not isinstance(e.root,tuple) else e.root
            try: b=Ev(leaf=leaf,call=mathf).poly(var(r)).ptr()
            except Unknown: continue
            if not b or b[0][0]!="vb": continue
            mem.setdefault(b[0][1],{})
            for a,x in visits(fl,e,[e.addr,e.val],leaf=leaf):
                if not isinstance(a,tuple): raise Unknown("fill")
                mem[b[0][1]][int(a[0])]=x
        for e in fl.effects:
            if e.kind=="memcpy": raise Unknown("table copied")
    ev=Ev(leaf=leaf,call=mathf); o=Obj(); this=var(("arg",0,p["name"],p["ty"])); sp=splines(v,this)
    def cont(x):
        pt=x.ptr()
        if pt is None or pt[1]!=0: raise Unknown("array")
        b=pt[0]
        if b[0]=="vec": return list(env[b[1]])
        if b[0]=="vb":
            if not mem.get("done"): settle()
            e=by[b[1]]; n=int(ev(e.args[1]))
            return [mem.get(b[1],{}).get(8*i) for i in range(n)]
        raise Unknown("array of unknown origin")
    if v.S==F: raise Unknown("never returns")
    for m in M:
        k=m.kind(); a=this+const(m.off)
        if k in("double","i32","i64"):
            try: o.sc[m.off]=ev(v.load(a,m.size,{"double":"double","i32":"i32","i64":"i64"}[k]))
            except Unknown as x: o.sc[m.off]=x
        elif k=="vec":
            try: o.vec[m.off]=cont(ev.poly(v.load(a,8,"ptr")))
            except Unknown: o.vec[m.off]=None
        elif k=="spline":
            x=sp.get(m.off)
            if isinstance(x,tuple): o.spl[m.off]=tuple(cont(ev.poly(y)) for y in x)
    return o
class Q0:
    """value of a member function on numeric objects"""
    def __init__(s,u,P,fl): s.u=u; s.P=P; s.fl=fl; s.S=fl.retguard
    def ev(s,objs,env,log):
        fl=s.fl
        def leaf(k,ev):
            if k[0]=="arg" and k[1] in env: return V(env[k[1]])
            if k[0]=="load":
                pt=ev.poly(k[1]).ptr()
                if pt is None: raise Unknown("load through "+show(k[1]))
                b,off=pt; g=glob(s.P,b,off)
                if g is not None: return V(g)
                if b[0]=="arg" and b[1] in objs:
                    o=objs[b[1]]; off=int(off)
                    if off in o.sc:
                        if isinstance(o.sc[off],Unknown): raise o.sc[off]
                        return V(o.sc[off])
                    for vo in o.vec:
                        if off in(vo,vo+8) and o.vec[vo] is not None: return V(8*len(o.vec[vo]) if off==vo+8 else 0,{("m",b[1],vo):1})
                if b[0]=="m":
                    x=objs[b[1]].vec[b[2]]; i=int(off)//8
                    if not 0<=i<len(x): log.append(("out",i,len(x))); return V(Q(0))
                    return V(x[i])
                raise Unknown("load "+show(k[1]))
            return None
        def callf(k,ev):
            if k[1]=="_ZNK8nusquids11AkimaSplineclEd":
                pt=ev.poly(k[2][0]).ptr(); X=ev(k[2][1])
                sp=objs[pt[0][1]].spl.get(int(pt[1])) if pt and pt[0][0]=="arg" and pt[0][1] in objs else None
                if sp is None: raise Unknown("which table")
                if X!=X: raise Unknown("nan")
                return H((tuple(sp[0]),tuple(sp[1])),X)
            return mathf(k,ev)
        return Ev(leaf=leaf,call=callf)
    def __call__(s,objs,env={}):
        """(value | None when it throws, lookups [(spline, X)], odd accesses)"""
        log=[]; ev=s.ev(objs,env,log)
        if not ev.cond(s.S): return None,[],log
        looks=[]
        for e in s.fl.effects:
            if e.kind=="call" and (e.dem or "").startswith("nusquids::AkimaSpline::operator()"):
                if ev.cond(e.guard):
                    pt=ev.poly(e.args[0]).ptr(); looks.append((objs[pt[0][1]].spl.get(int(pt[1])),ev(e.args[1]),e))
            elif e.kind=="call" and not(e.name in("sqrt","exp","cos","fabs","pow") or e.dem is None and e.name is None):
                if ev.cond(e.guard): raise Unknown("call of "+str(e.dem or e.name))
        r=s.fl.ret
        return (ev(r) if r is not None else None),looks,log
def near(a,b): return abs(float(a)-float(b))<=1e-9*(1+abs(float(a))+abs(float(b)))
LINES=("Vacuum","ConstantDensity","VariableDensity","Sun")
TAB={"VariableDensity":[(Q(-3),Q(5),Q(25,2)),(Q(0),Q(1),Q(2),Q(7,2),Q(4))],None:[(Q(1,10),Q(3,10),Q(4,5)),(Q(0),Q(1,4),Q(1,2),Q(3,4),Q(19,20)),(Q(1,20),Q(1))]}
COL={"Earth":(0,1,2),"EarthAtm":(0,1,2),"Sun":(1,3,6),"SunASnu":(1,3,6)}
def run(R):
    u=unit(); P=par(u)
    if not P: R.und("units"); return
    km=next(x for n,x in P.values() if n=="km"); cm=next(x for n,x in P.values() if n=="cm")
    ks=[K.replace("nusquids::","") for K in classes(u)]
    ctx=(u,P,km,cm)
    get={}
    for f in u.find(r"^vp::get_"):
        fl=u.flow_of(f,models=MODELS); get[re.sub(r"^vp::get_(\w+)\(.*",r"\1",f["dem"])]=Q0(u,P,fl)
    bodies={}
    for K in("Vacuum","ConstantDensity","VariableDensity","Earth","Sun","SunASnu","EarthAtm"):
        M=members(u,"nusquids::"+K)
        if M is None or "nusquids::"+K not in classes(u): R.und(K+": members"); continue
        made=[]
        for f in u.find(r"^vp::mk_%s_\d+\("%K):
            fl=u.flow_of(f,models=MODELS); R.fn(fl.f)
            for e_ in inputs(K,fl):
                try: made.append((call_sig(f),e_,make(u,P,fl,M,e_),(fl.f.file,fl.f.line)))
                except (Unknown,Odd,AnalysisError) as x: R.und("%s: what %s leaves (%s)"%(K,call_sig(f),x))
        bodies[K]=made
    tracks(R,ctx,get,bodies)
    for K,made in bodies.items():
        q={}
        for n in("density","ye"):
            fl=flow(u,r"^nusquids::%s::%s\("%(K,n)); R.fn(fl.f); q[n]=Q0(u,P,fl)
            roots(R,u,K,n,fl,get)
        for sig,env,o,L in made:
            try: profile(R,ctx,get,K,q,sig,env,o,L)
            except (Unknown,Odd,AnalysisError) as x: R.und("%s made by %s: profile (%s)"%(K,sig,x))
    if "EarthAtm" in bodies: taller(R,ctx,get,bodies["EarthAtm"],u)
def call_sig(fn):
    d=fn["dem"]; n=re.sub(r"^vp::mk_","",d.split("(")[0]); pts,_=split_params(d)
    return "%s(%s)"%(n,", ".join("vector" if "vector" in x else "string" if "basic_string" in x else x for x in pts[1:]))
def rnd(tag,n): return [Q(zlib.crc32(repr((tag,i)).encode())%9973+1,100) for i in range(n)]
def inputs(K,fl):
    A=fl.f.args; dem=fl.f.dem; pts,_=split_params(dem)
    if any("vector" in x for x in pts):
        for t in TAB.get(K,TAB[None]): yield {1:list(t),2:rnd("d",len(t)),3:rnd("y",len(t))}
    elif K in COL:
        for t in TAB[None][:2]:
            rows=[rnd(("row",i),12) for i in range(len(t))]
            for i,x in enumerate(t): rows[i][COL[K][0]]=x
            yield {"rows":rows}
    else: yield {k:Q(3*k+1,7) for k in range(1,len(pts))}
def tables(K,env):
    if "rows" in env: return tuple(tuple(r[c] for r in env["rows"]) for c in COL[K])
    return tuple(tuple(env[k]) for k in(1,2,3))
def xoff(get,name):
    """where the position is kept"""
    k=get[name].fl.ret.single()
    if k and k[0]=="load" and (k[1]-var(("arg",0,get[name].fl.f.args[0]["name"],"ptr"))).isconst(): return int((k[1]-var(("arg",0,get[name].fl.f.args[0]["name"],"ptr"))).cval())
    raise Unknown("where the position is kept")
def track(ctx,get,T,n,args,objs=()):
    u,P=ctx[:2]; f=u.find(r"^vp::mk_%sTrack_%d\("%(T,n))
    if not f: raise Unknown("constructor of the track")
    fl=u.flow_of(f[0],models=MODELS)
    return make(u,P,fl,members(u,"nusquids::%s::Track"%T),{k+1:a for k,a in enumerate(args) if a is not None},objs)
def at(get,t,x):
    o=Obj(); o.sc=dict(t.sc); o.sc[xoff(get,"x")]=x; return o
def region(X,a): return "below the table" if X<a[0] else "at its first entry" if X==a[0] else "above the table" if X>a[-1] else "at its last entry" if X==a[-1] else "inside the table"
def profile(R,ctx,get,K,q,sig,env,o,L,note=""):
    u,P,km,cm=ctx
    if K=="Vacuum" or K=="ConstantDensity":
        t=track(ctx,get,K,1,(Q(3),Q(1),Q(9)))
        want=(Q(0),Q(1)) if K=="Vacuum" else (env[1],env[2])
        for n,w in zip(("density","ye"),want): R.check(q[n]({0:o,1:t})[0]==w,"%s: %s is the constant it was made with"%(K,n),L)
        return
    a,d,y=tables(K,env)
    mid=(a[0]+a[1])/2
    Xs=[a[0]-Q(1,40) if a[0]>0 or K=="VariableDensity" else None,a[0],mid,a[-1]-Q(1,64),a[-1],a[-1]+Q(1,64)]
    pts=[]     # (what, track, X, r)
    if K=="VariableDensity":
        for X in Xs: pts.append((region(X,a),track(ctx,get,K,1,(X*cm,Q(0),9*cm)),X,None))
    elif K=="Sun":
        Rs=get["sunradius"]({0:o})[0]
        for X in Xs:
            if X is not None and X>=0: pts.append((region(X,a),track(ctx,get,K,1,(X*Rs,Q(0),Rs)),X,None))
    elif K=="Earth":
        Re=get["earthradius"]({0:o})[0]
        for X in Xs:
            if X is not None and X>=0: pts.append((region(X,a),at(get,track(ctx,get,K,1,(Q(0),Q(0),2*Re*km,2*Re*km)),(Re+X*Re if X>1 else Re-X*Re)*km),X,X*Re))
        for B,f in((Q(3,2),Q(1,3)),(Q(8,5),Q(3,4)),(Q(9,8),Q(1,10)),(Q(2),Q(1))):
            x=f*B*Re; r=root(Re*Re+x*x-B*Re*x); X=r/Re
            pts.append(("on a chord, "+region(X,a),at(get,track(ctx,get,K,1,(Q(5),Q(1),B*Re*km*Q(4,5),B*Re*km)),x*km),X,r))
    elif K=="SunASnu":
        Rs=get["asnuradius"]({0:o})[0]
        for X in Xs:
            if X is not None and X>=0: pts.append((region(X,a),at(get,track(ctx,get,K,1,(Q(0),Q(0),Q(0))),Rs+X*Rs),X,None))
        for b,t_ in((Q(3,5),Q(0)),(Q(3,5),Q(5,20)),(Q(5,13),Q(12,13)),(Q(7,25),Q(-1,3)),(Q(4,5),Q(-3,5))):
            s_=root(1-b*b); x=(s_+t_)*Rs; X=root(b*b+t_*t_)
            pts.append(("off the axis, "+region(X,a),at(get,track(ctx,get,K,1,(Q(0),Q(0),b*Rs)),x),X,None))
    elif K=="EarthAtm":
        Re=get["atmradius"]({0:o})[0]; Ha=get["atmheight"]({0:o})[0]; rp=Re+Ha
        XS=[x for x in Xs if x is not None and x>=0]+[Re/rp,(Re+Ha/2)/rp,(Re+Ha/7)/rp,(Re-Ha/9)/rp,Q(1)]
        for X in XS:
            if X>1: continue
            t=track(ctx,get,K,3,(Q(-1),Re*km,Ha*km)); pts.append((region(X,a),at(get,t,(rp-X*rp)*km),X,X*rp))
        for c,f in((Q(-3,10),Q(1,2)),(Q(-4,5),Q(1,4)),(Q(-1,20),Q(9,10)),(Q(2,5),Q(1,3)),(Q(-9,10),Q(1))):
            t=track(ctx,get,K,3,(c,Re*km,Ha*km)); s_=root(rp*rp-Re*Re*(1-c*c)); x=Q(f)*Q(s_-Re*c) if not isinstance(s_,float) else float(f)*(s_-float(Re*c))
            r2=rp*rp+x*x-2*s_*x if not isinstance(x,float) else float(rp)**2+x*x-2*s_*x
            r=root(r2); pts.append(("on a slant, "+region(r/rp if not isinstance(r,float) else r/float(rp),a),at(get,t,(x*km if not isinstance(x,float) else x*float(km))),r/rp if not isinstance(r,float) else r/float(rp),r))
    thin=[]
    for what,t,X,r in pts:
        slab="surface" if K=="EarthAtm" and r==Re else ""
        if K=="EarthAtm" and what.startswith("on a slant") and abs(float(r-Re))<1e-6: continue      # exactly at the surface up to rounding: either side
        if isinstance(X,float) and min(abs(X-float(a[0])),abs(X-float(a[-1])))<1e-9: continue
        for n,tab in(("density",d),("ye",y)):
            tx="%s%s: %s %s%s"%(K,note,n,what," at the surface" if slab else " in the atmosphere" if K=="EarthAtm" and r>Re else "")+" (%s)"%sig
            try: val,looks,log=q[n]({0:o,1:t})
            except Nan: R.bad(tx+": not a number",(q[n].fl.f.file,q[n].fl.f.line)); continue
            if log: R.bad(tx+": reads entry %d of a table of %d"%(log[0][1],log[0][2]),(q[n].fl.f.file,q[n].fl.f.line)); continue
            lo,hi=None,None
            for sp,x,e in looks:
                if sp is None: raise Unknown("which table")
                if not(sp[0][0]<=x<=sp[0][-1]) and not(isinstance(x,float) and (abs(x-sp[0][0])<1e-9 or abs(x-sp[0][-1])<1e-9)): lo=(sp,x,e)
            if lo: R.bad(tx+": interpolated at %.6g, outside the table from %.6g to %.6g"%(lo[1],lo[0][0][0],lo[0][0][-1]),lo[2].loc); continue
            LL=(q[n].fl.f.file,q[n].fl.f.line)
            if val is None: R.bad(tx+": throws",LL); continue
            if K=="EarthAtm" and r>Re:
                if n=="density": thin.append((float(r),float(val)))
                R.check(not looks and not near(val,(d if n=="density" else y)[-1]) and not near(val,(d if n=="density" else y)[0]),tx+": the atmosphere, not the table",LL); continue
            want=H((a,tab),X) if a[0]<=X<=a[-1] else tab[0] if X<a[0] else tab[-1]
            if K=="VariableDensity" and not a[0]<=X<=a[-1]: want=Q(0)
            if K in("Sun","SunASnu") and X>a[-1]: want=Q(0)
            if K in("Sun","SunASnu") and n=="ye": want=(1+want)/2
            R.check(near(val,want),tx,LL,detail=explain(val,X,a,d,y,K,n))
    thin=[p for i,p in enumerate(sorted(thin)) if not i or p[0]-sorted(thin)[i-1][0]>1e-6]
    if len(thin)>1: R.check(all(p[1]>q_[1]>=0 for p,q_ in zip(thin,thin[1:])),"%s%s: the atmosphere thins out with height (%s)"%(K,note,sig),L)
def explain(val,X,a,d,y,K,n):
    for nm,t in(("density",d),("electron fraction",y)):
        for i,w in((0,"first"),(-1,"last")):
            if near(val,t[i]) : return "the %s value of the %s"%(w,nm)
        if near(val,H((a,t),X)): return "the %s table"%nm
    if near(val,0): return "0"
    return "another value"
def roots(R,u,K,n,fl,get):
    """a radicand which depends on the position is never below zero: rounding makes it so where it vanishes"""
    xo=xoff(get,"x"); seen=0; bad=[]
    tr=fl.f.args[1]; X=("load",var(("arg",1,tr["name"],tr["ty"]))+const(xo),0,"double")
    def walk(p,ctx,done):
        nonlocal seen
        for m in p.t:
            for a,_ in m:
                k=akey(a)
                if k[0]=="ite":
                    walk(k[2],band(ctx,k[1]),done); walk(k[3],band(ctx,bnot(k[1])),done)
                elif k[0]=="call" and k[1]=="sqrt":
                    arg=k[2][0]
                    if X in deep_atoms(arg):
                        seen+=1
                        if not nonneg(arg,ctx): bad.append(arg)
                    walk(arg,ctx,done)
                elif k[0] in("call",):
                    for x in k[2]:
                        if isinstance(x,Poly): walk(x,ctx,done)
                elif k[0]=="inv": walk(k[1],ctx,done)
    for e in fl.effects:
        if e.kind=="call" and (e.dem or "").startswith("nusquids::AkimaSpline::operator()"): walk(e.args[1],e.guard,set())
    if not seen: return
    if bad and squares(fl,xo): bad=[]
    R.check(not bad,"%s: the radius used by %s is a number wherever the path goes"%(K,n),(fl.f.file,fl.f.line),detail="the radicand can be rounded below zero where the path meets the centre")
def nonneg(p,ctx):
    """p is not below zero under ctx"""
    if p.isconst(): return p.cval()>=0
    k=p.single()
    if k and k[0]=="ite": return nonneg(k[2],band(ctx,k[1])) and nonneg(k[3],band(ctx,bnot(k[1])))
    if k and k[0]=="call" and k[1] in("fabs","sqrt","exp"): return True
    if k and k[0]=="call" and k[1]=="fmax": return any(nonneg(x,ctx) for x in k[2] if isinstance(x,Poly))
    return ctx==F or any(bimp(ctx,c) for c in(cflt(ZERO,p),bnot(cflt(p,ZERO))))
def squares(fl,xo):
    """every root of something that depends on the position is taken of a sum of squares"""
    D=fl.f.inst
    def ops(i):
        for o in(i.get("ops") or [])+(i.get("args") or [])+([i["base"]] if i.get("base") else [])+[x[0] for x in i.get("inc") or [] if isinstance(x,list) and x and isinstance(x[0],list)]:
            if isinstance(o,list) and o[:1]==["i"] and o[1] in D: yield D[o[1]]
    memo={}
    def dep(i):
        if i["id"] in memo: return memo[i["id"]]
        memo[i["id"]]=False
        r=False
        if i["op"]=="load":
            g=next(ops(i),None); r=bool(g and g["op"]=="getelementptr" and g.get("off")==xo and not g.get("idx") and g["base"]==["i",1])
        memo[i["id"]]=r or any(dep(j) for j in ops(i)); return memo[i["id"]]
    def same(a,b):
        if a==b: return True
        A,B=(D.get(x[1]) if x[0]=="i" else None for x in(a,b))
        return bool(A and B and A["op"]==B["op"]=="load" and A["ops"]==B["ops"])
    def sq(a,b,d): return same(a,b) or nn(a,d+1) and nn(b,d+1)
    def nn(o,d=0):
        if d>8 or o[0]!="i" or o[1] not in D: return o[0]=="f" and not str(o[1]).startswith("-")
        i=D[o[1]]; a=i.get("ops") or []; A=i.get("args") or []; nm=i.get("callee") or ""
        if i["op"]=="fmul": return sq(a[0],a[1],d)
        if i["op"]=="fadd": return nn(a[0],d+1) and nn(a[1],d+1)
        if i["op"]=="call":
            if nm.startswith(("llvm.fmuladd","llvm.fma")): return sq(A[0],A[1],d) and nn(A[2],d+1)
            return nm in("fabs","sqrt","exp") or nm.startswith("llvm.fabs")
        return False
    S=[i for i in D.values() if i["op"]=="call" and (i.get("callee") or "") in("sqrt","llvm.sqrt.f64") and any(dep(j) for j in ops(i))]
    return bool(S) and all(nn(i["args"][0]) for i in S)
def taller(R,ctx,get,made,u):
    """the profile after the height of the atmosphere was changed"""
    P=ctx[1]; f=u.find(r"^vp::ch_EarthAtm_1\(")
    if not f: R.und("EarthAtm: SetAtmosphereHeight"); return
    fl=u.flow_of(f[0],models=MODELS); R.fn(fl.f); 
    q={n:Q0(u,P,flow(u,r"^nusquids::EarthAtm::%s\("%n)) for n in("density","ye")}
    for sig,env,o,L in made:
        for h in(Q(100),Q(1,2)):
            try:
                n=raised(u,P,get,o,h)
                g=get["atmheight"]({0:n})[0]; R.check(g==h,"EarthAtm: the height set is the height reported (%s)"%sig,(fl.f.file,fl.f.line))
                profile(R,ctx,get,"EarthAtm",q,sig,env,n,L,note=" with its height set")
            except (Unknown,Odd,AnalysisError) as x_: R.und("EarthAtm after SetAtmosphereHeight (%s)"%x_)
def raised(u,P,get,o,h):
    """the atmosphere as it is after its height was set"""
    f=u.find(r"^vp::ch_EarthAtm_1\(")
    if not f: raise Unknown("SetAtmosphereHeight")
    fl=u.flow_of(f[0],models=MODELS); v=View(u,fl); this=var(("arg",0,fl.f.args[0]["name"],"ptr")); x=Q0(u,P,fl).ev({0:o},{1:h},[])
    n=Obj(); n.sc=dict(o.sc); n.vec=o.vec; n.spl=o.spl
    for m in members(u,"nusquids::EarthAtm"):
        if m.kind()=="double": n.sc[m.off]=x(v.load(this+const(m.off),8,"double"))
    return n
def tracks(R,ctx,get,bodies):
    u,P,km,cm=ctx
    def see(T,n,sig,t,want,L):
        for g,w in zip(("x","xini","xend"),want):
            val=get[g]({0:t})[0]
            R.check(near(val,w),"%s track: %s (%s)"%(T,{"x":"the current position","xini":"the initial position","xend":"the final position"}[g],sig),L,detail="%.9g instead of %.9g"%(float(val),float(w)))
    A=(Q(13,2),Q(3,8),Q(45),Q(101,3))
    surf=bodies["SunASnu"][0][2] if bodies.get("SunASnu") else None
    atm=bodies["EarthAtm"][0][2] if bodies.get("EarthAtm") else None
    for T in LINES+("Earth","SunASnu","EarthAtm"):
        for f in u.find(r"^vp::mk_%sTrack_\d+\("%T):
            sig=call_sig(f); n=int(re.search(r"_(\d+)\(",f["dem"]).group(1)); fl=u.flow_of(f,models=MODELS); R.fn(fl.f); L=(fl.f.file,fl.f.line)
            try:
                a=A; base=None
                if T in LINES:
                    t=track(ctx,get,T,n,a[:3 if n==1 else 2 if n==2 else 1]); want={1:a[:3],2:(a[0],a[0],a[1]),3:(0,0,a[0])}[n]
                elif T=="Earth":
                    t=track(ctx,get,T,n,a[:4 if n==1 else 3 if n==2 else 1]); want={1:a[:3],2:(a[0],a[0],a[1]),3:(0,0,a[0])}[n]; base=("earthbase",{1:a[3],2:a[2],3:a[0]}[n])
                elif T=="SunASnu":
                    if surf is None: raise Unknown("radius")
                    Rs=get["asnuradius"]({0:surf})[0]; b=Q(3,5)*Rs; full=2*Q(4,5)*Rs
                    t=track(ctx,get,T,n,{1:(a[0],a[1],b),2:(a[0],b),3:(b,)}[n]); want={1:(a[0],a[1],full),2:(a[0],a[0],full),3:(0,0,full)}[n]
                elif T=="EarthAtm":
                    Re,Ha,c=Q(6000)*km,Q(77)*km,Q(-3,8); objs={}
                    if n>=4:
                        if atm is None: raise Unknown("geometry")
                        atm=raised(u,P,get,atm,Q(77))
                        Re=get["atmradius"]({0:atm})[0]*km; Ha=get["atmheight"]({0:atm})[0]*km; objs={1:atm}
                    phi=Q(7,3); cc=float(c) if n in(3,5) else math.cos(float(phi))
                    t=track(ctx,get,T,n,{1:(a[0],phi,Re,Ha),2:(phi,Re,Ha),3:(c,Re,Ha),4:(None,phi),5:(None,c)}[n],objs)
                    L_=math.sqrt(float((Re+Ha)**2)-float(Re**2)*(1-cc*cc))-float(Re)*cc
                    want=(a[0] if n==1 else 0,0,L_); base=("atmbase",L_)
                see(T,n,sig,t,want,L)
                if base: val=get[base[0]]({0:t})[0]; R.check(near(val,base[1]),"%s track: the length of the path (%s)"%(T,sig),L,detail="%.9g instead of %.9g"%(float(val),float(base[1])))
            except (Unknown,Odd,AnalysisError) as x: R.und("%s track made by %s (%s)"%(T,sig,x))
    for n,a,want in((1,A[:3],A[:3]),(2,A[:2],(A[0],A[0],A[1]))):
        f=u.find(r"^vp::mk_AnyTrack_%d\("%n)
        if not f: R.und("tracks made from the base class"); continue
        try:
            fl=u.flow_of(f[0],models=MODELS); R.fn(fl.f); t=make(u,P,fl,members(u,"nusquids::Body::Track"),{k+1:x for k,x in enumerate(a)})
            see("Body",n,call_sig(f[0]),t,want,(fl.f.file,fl.f.line))
        except (Unknown,Odd,AnalysisError) as x: R.und("tracks made from the base class (%s)"%x)
    t=track(ctx,get,"Vacuum",1,A[:3])
    for nm,env,want,what in(("ch_Track_1",{1:Q(77)},(Q(77),A[1],A[2]),"SetX"),("ch_Track_2",{},(A[0],A[2],A[1]),"ReverseTrack")):
        f=u.find(r"^vp::%s\("%nm)
        if not f: R.und("tracks: "+what); continue
        fl=u.flow_of(f[0],models=MODELS); R.fn(fl.f); v=View(u,fl); this=var(("arg",0,fl.f.args[0]["name"],"ptr"))
        try:
            x=Q0(u,P,fl).ev({0:t},env,[]); o=Obj(); o.sc={k:x(v.load(this+const(k),8,"double")) for k in t.sc}
            for g,w in zip(("x","xini","xend"),want): R.check(get[g]({0:o})[0]==w,"tracks: %s after %s"%(g,what),(fl.f.file,fl.f.line))
        except Unknown as x_: R.und("tracks: %s (%s)"%(what,x_))
main("C30",RULE,run)
