#!/usr/bin/env python3
"""C32: cross-section files: the readers take from a file of the documented layout what it says, the writers write what the readers read back, and both refuse what they cannot represent or reconcile."""
from walklib import *
from xslib import *
RULE=("the readers and writers are followed effect by effect over abstract files, arrays, splines and shared pointers: reading documented text and HDF5 layouts with a different number in every place, then writing, gives every number back "
      "under the name, row and column it came from, for every flavour, particle type and current and every way flavours share data; numbers are written with enough digits; a missing file, table or group, and tables whose sizes or energy ranges disagree, are refused; no entry outside an array is touched.")
OBJ=("this",)
FL=["electron","muon","tau"]
NL=r"(?!.*('lambda|\{lambda))"
def unit32():
    bc=lower(harness("xs.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=(r"vp::(make1?|emin1?|emax1?|nume1)\(.*",NL+re.escape(T2)+r"::(Read|Write)(HDF|Text)\(.*",NL+re.escape(T1)+r"::Write(HDF|Text)\(.*"),noinline=KEEP+(r"std::(unordered_map|map)<.*>::.*",),layouts=True)
def near(a,b,tol=1e-9):
    a,b=float(a),float(b)
    if math.isinf(a) or math.isinf(b): return a==b
    return abs(a-b)<=tol*max(abs(a),abs(b),1e-30)
def Hn(tag,*X): return H(tag,*X)
class Ran:
    def __init__(s,u,fl,w,obj,cells,path):
        o={k:cp(v) for k,v in obj.items()}; o[(("str",1),0)]=path
        s.k=Walk(u,fl,w,obj=o,args={0:V(0,{OBJ:1}),1:V(0,{("str",1):1})}); s.k.cells=dict(cells); s.w=w; s.fl=fl
        try: s.res=s.k.run()
        except Unknown as x: s.res=("undecided",str(x))
        except RecursionError: s.res=("undecided","too deep")
        if s.k.issues and s.res[0]=="undecided": s.res=("undecided",s.k.issues[0])
    def state(s): return {a:v for a,v in s.k.obj.items() if a[0][0]!="str"},s.k.cells
    def at(s): 
        e=s.res[1] if len(s.res)>1 else None
        return getattr(e,"loc",None)
def text1(n,e0,e1,tag=""):
    E=[e0*(e1/e0)**(i/(n-1)) for i in range(n)]; E[0]=e0; E[-1]=e1; o={}
    for c in("CC","NC"):
        o["sigma_%s.dat"%c]=[[E[i]]+[Hn("s%s"%c+tag,f,p,i) for f in range(3) for p in range(2)] for i in range(n)]
        o["dsde_%s.dat"%c]=[[E[i],E[j]]+[Hn("d%s"%c+tag,f,p,i,j) for f in range(3) for p in range(2)] for i in range(n) for j in range(n)]
    return o
def hdf1(t,n,e0,e1):
    o={"@Emin":e0*10**9,"@Emax":e1*10**9}
    for c in("CC","NC"):
        S,D=t["sigma_%s.dat"%c],t["dsde_%s.dat"%c]
        o["/s_"+c]=Arr([2,3,n],[S[i][1+2*f+p] for p in range(2) for f in range(3) for i in range(n)])
        o["/dsDE_"+c]=Arr([2,3,n,n],[D[i*n+j][2+2*f+p] for p in range(2) for f in range(3) for i in range(n) for j in range(n)])
    return o
def text2(tag,ne=4,nz=3,e0=10,e1=10000,q=("CC","NC")):
    E=[e0*(e1/e0)**(i/(ne-1)) for i in range(ne)]; E[0]=e0; E[-1]=e1; o={}
    for p in("nu","nubar"):
        for c in q:
            o[p+"_sigma_"+c+".dat"]=[[E[i],Hn(tag+"s"+p+c,i)] for i in range(ne)]
            o[p+"_dsde_"+c+".dat"]=[[E[i],j/(nz-1),0 if i==0 else Hn(tag+"d"+p+c,i,j)] for i in range(ne) for j in range(nz)]
    return o
NAMES=[(("s_" if d=="sigma" else "dsdy_")+c+"_"+p,p+"_"+d+"_"+c+".dat") for d in("sigma","dsde") for c in("CC","NC") for p in("nu","nubar")]
def lg(x): return math.log10(x) if x>0 else -50.0
def hdf2(t,ne,nz):
    """the datasets of one flavour for the same tables"""
    o={}
    for h,f in NAMES:
        o[h]=Arr([ne],[lg(r[1]) for r in t[f]]) if h[0]=="s" else Arr([nz,ne],[lg(t[f][j*nz+i][2]) for i in range(nz) for j in range(ne)])
    return o
def grids(t,ne,nz): 
    d=t["nu_dsde_CC.dat"]
    return {"/energies":Arr([ne],[math.log10(d[j*nz][0]*1e9) for j in range(ne)]),"/zs":Arr([nz],[i/(nz-1) for i in range(nz)])}
# ---------------------------------------------------------------- comparisons
def tables(w,want,floor=False):
    """what was written compared with the rows expected: None if the same, otherwise what differs"""
    for n,rows_ in want.items():
        st=w.out.get(n)
        if st is None: return "no file %s is written (written: %s)"%(n,", ".join(sorted(w.out))[:120])
        R_,why=rows(st)
        if why: return "%s: %s"%(n,why)
        if len(R_)!=len(rows_): return "%s has %d rows instead of %d"%(n,len(R_),len(rows_))
        for i,(a,b) in enumerate(zip(R_,rows_)):
            if len(a)!=len(b): return "row %d of %s has %d columns instead of %d"%(i,n,len(a),len(b))
            for j,((x,p),y) in enumerate(zip(a,b)):
                if floor and y==0 and 0<=float(x)<=1e-40: continue
                if isinstance(x,float) and math.isnan(x) or not near(x,y): return "column %d of row %d of %s is %g instead of %g"%(j,i,n,float(x),float(y))
                if p<17 and not float(y).is_integer(): return "%s is written with %d digits, which do not identify a number"%(n,p)
    x=[n for n in w.out if n not in want]
    if x: return "an unexpected file %s is written"%x[0]
    return None
def stored(w,want):
    for p,a in want.items():
        b=w.h5.get(w.real(p))
        if b is None: return "nothing is stored under %s"%p
        if isinstance(a,Arr):
            if not isinstance(b,Arr): return "%s is not an array"%p
            if a.ext!=b.ext: return "%s has extents %s instead of %s"%(p,b.ext,a.ext)
            for i,(x,y) in enumerate(zip(b.vals,a.vals)):
                if x is None or not near(x,y): return "entry %d of %s is %s instead of %g"%(i,p,"never set" if x is None else "%g"%float(x),float(y))
        elif isinstance(b,Arr) or not near(a,b): return "%s is %s instead of %g"%(p,b if isinstance(b,Arr) else "%g"%float(b),float(a))
    return None
# ---------------------------------------------------------------- the obligations
class Two:
    """one class: what is run and how it is reported"""
    def __init__(s,R,u): s.R=R; s.u=u; s.loc=None
    def do(s,fl,w,st,path,what,accept=True):
        """run; the state afterwards, or None if it did not return (reported) ; accept None: refusal required"""
        r=Ran(s.u,fl,w,st[0],st[1],path); loc=fl.f
        if r.res[0]=="undecided": s.R.check(None,what,loc,detail=r.res[1][:150]); return None
        for x in r.k.issues:
            s.R.bad("%s: %s"%(what,x),loc)
            return None
        if accept:
            if r.res[0]!="returned":
                p=r.at(); s.R.bad("%s is refused"%what+(" at line %s"%p[1] if p else ""),loc); return None
        else:
            if r.res[0]=="returned": s.R.bad("%s is accepted"%what,loc)
            else: s.R.ok("%s is refused"%what,loc)
            return None
        return r
    def same(s,diff,what,loc):
        if diff: s.R.bad("%s: %s"%(what,diff),loc)
        else: s.R.ok(what,loc)
def old(R,u):
    """the bilinear class"""
    t=Two(R,u); mk=u.flow(r"vp::make1\(.*"); wt=u.flow(re.escape(T1)+r"::WriteText\(.*"); wh=u.flow(re.escape(T1)+r"::WriteHDF\(.*"); EMPTY=({},{})
    for f in(mk,wt,wh): R.fn(f.f)
    acc=[offset(u,r"vp::%s1\(.*"%a) for a in("emin","emax")]
    for n,e0,e1 in((3,1,100),(4,10,10000),(2,5,50)):
        T=text1(n,e0,e1); w=World(); w.text={"p/"+k:v for k,v in T.items()}; D=hdf1(T,n,e0,e1)
        w2=World(); w2.h5=dict(D); w2.text["f.h5"]=[[]]
        for kind,w0,path in(("text",w,"p/"),("HDF5",w2,"f.h5")):
            a=t.do(mk,w0,EMPTY,path,"reading %d energies in the bilinear layout from %s"%(n,kind))
            if a is None: continue
            for o,v,nm in zip(acc,(e0,e1),("lowest","highest")):
                c=a.k.cells.get((OBJ,o)) if o is not None else None
                R.check(None if c is None or c.b else near(c.n,v*10**9),"the %s energy is the one in the %s files"%(nm,kind),mk.f,detail=str(c))
            x=World(); b=t.do(wt,x,a.state(),"q/","writing the text form of what was read from %s"%kind)
            if b: t.same(tables(x,{"q/"+k:v for k,v in T.items()}),"text written after reading %s holds the same tables (%d energies)"%(kind,n),wt.f)
            y=World(); b=t.do(wh,y,a.state(),"q.h5","writing the HDF5 form of what was read from %s"%kind)
            if b: t.same(stored(y,D),"HDF5 written after reading %s holds the same tables (%d energies)"%(kind,n),wh.f)
    # what must be refused
    n,e0,e1=3,1,100; T=text1(n,e0,e1); D=hdf1(T,n,e0,e1)
    for f in T:
        for what,g in(("without %s",None),("with one row less in %s",lambda r:r[:-1]),("with one row more in %s",lambda r:r+[r[-1]]),("with one column less in %s",lambda r:[x[:-1] for x in r]),("with one column more in %s",lambda r:[x+[x[-1]] for x in r])):
            w=World(); w.text={"p/"+k:v for k,v in T.items() if not (g is None and k==f)}
            if g: w.text["p/"+f]=g(T[f])
            t.do(mk,w,EMPTY,"p/","a bilinear text table set "+what%f,accept=False)
    for d in D:
        opts=[("without %s",None)]
        if isinstance(D[d],Arr):
            for i in range(len(D[d].ext)):
                for s in(-1,1):
                    def g(a,i=i,s=s):
                        e=list(a.ext); e[i]+=s; return Arr(e,[a.vals[j%len(a.vals)] for j in range(math.prod(e))])
                    opts.append(("with extent %d of %%s %s by one"%(i,"lower" if s<0 else "higher"),g))
        for what,g in opts:
            w=World(); w.text["f.h5"]=[[]]; w.h5={k:v for k,v in D.items() if not (g is None and k==d)}
            if g: w.h5[d]=g(D[d])
            t.do(mk,w,EMPTY,"f.h5","a bilinear HDF5 file "+what%d,accept=False)
    w=World(); w.text={"p/"+k:v for k,v in T.items()}; a=Ran(u,mk,w,{},{},"p/")
    if a.res[0]=="returned":
        for f in T: x=World(); x.unopenable=f; t.do(wt,x,a.state(),"q/","writing bilinear text files when %s cannot be opened"%f,accept=False)
def new(R,u):
    """the interpolating class"""
    t=Two(R,u); F={n:u.flow(re.escape(T2)+r"::%s\(.*"%n) for n in("ReadHDF","WriteHDF","ReadText","WriteText")}
    for f in F.values(): R.fn(f.f)
    MP=[m["off"] for m in u.layouts[T2]["members"] if re.match(r"std::(unordered_)?map<",m["type"])]
    if len(MP)!=1: R.check(None,"where the tables of the flavours are",(BASE,0)); return
    mk=u.flow(r"vp::make\(.*"); p=var(("arg",0,mk.f.args[0]["name"],mk.f.args[0]["ty"])); C={}
    for e in mk.effects:
        if e.kind=="store" and e.val is not None:
            o=e.addr-p; k=e.val.single()
            if o.isconst() and e.guard==T and (e.val.isconst() or k and k[0]=="fconst"): C.setdefault(int(o.cval()),V(e.val.cval()) if e.val.isconst() else V(float(k[1].replace("-nan","nan"))))
    cells={(OBJ,o):v for o,v in C.items()}
    FRESH=lambda:({(OBJ,MP[0]):Map()},dict(cells))
    acc=[offset(u,r"vp::%s\(.*"%a) for a in("emin","emax")]
    for o,v in zip(acc,(7,8)):           # a member no constructor sets holds anything
        if o is not None: cells.setdefault((OBJ,o),V(v*10**9))
    SH={"abc":"all different","aab":"electron and muon the same","abb":"muon and tau the same","aba":"electron and tau the same","aaa":"all the same"}
    def hworld(share,ne,nz,old=False):
        w=World(); A={c:text2("h"+c,ne,nz) for c in set(share)}; w.h5=grids(A["a"],ne,nz)
        if old: w.h5.update({"/"+k:v for k,v in hdf2(A["a"],ne,nz).items()})
        else:
            for f,c in zip(FL,share):
                i=share.index(c)
                if FL[i]!=f: w.alias["/"+f]="/"+FL[i]
                else: w.h5.update({"/"+f+"/"+k:v for k,v in hdf2(A[c],ne,nz).items()})
        return w,[A[c] for c in share]
    def tworld(share,ne,nz,common=False):
        w=World(); A={c:text2("t"+c,ne,nz) for c in set(share)}
        if common: w.text={"p/"+k:v for k,v in A["a"].items()}
        else: w.text={"p/"+f+"_"+k:v for f,c in zip(FL,share) for k,v in A[c].items()}
        return w,[A[c] for c in share]
    def outs(src,a,A,ne,nz,kind):
        for o,v,nm in zip(acc,(10,10000),("lowest","highest")):
            c=a.k.cells.get((OBJ,o)) if o is not None else None
            R.check(None if c is None or c.b else near(c.n,v*10**9),"the %s energy is the one in the %s tables"%(nm,kind),src.f,detail=str(c))
        x=World(); b=t.do(F["WriteText"],x,a.state(),"q/","writing the text form of what was read from %s"%kind)
        if b: t.same(tables(x,{"q/"+f+"_"+k:v for f,T in zip(FL,A) for k,v in T.items()},floor=True),"text written after reading %s holds the same tables"%kind,F["WriteText"].f)
        y=World(); b=t.do(F["WriteHDF"],y,a.state(),"q.h5","writing the HDF5 form of what was read from %s"%kind)
        if b:
            want=grids(A[0],ne,nz)
            for f,T in zip(FL,A): want.update({"/"+f+"/"+k:v for k,v in hdf2(T,ne,nz).items()})
            t.same(stored(y,want),"HDF5 written after reading %s holds the same tables"%kind,F["WriteHDF"].f)
            z=Ran(u,F["ReadHDF"],y,*FRESH(),path="q.h5")
            if z.res[0]=="refused": R.bad("what is written after reading %s is refused when read back"%kind,F["ReadHDF"].f)
    for ne,nz in((4,3),(3,5)):
        for share,txt in SH.items():
            w,A=hworld(share,ne,nz); kind="HDF5 groups (%s; %d energies, %d z)"%(txt,ne,nz)
            a=t.do(F["ReadHDF"],w,FRESH(),"f.h5","reading "+kind)
            if a: outs(F["ReadHDF"],a,A,ne,nz,kind)
        w,A=hworld("aaa",ne,nz,old=True); kind="HDF5 tables common to all flavours (%d energies, %d z)"%(ne,nz)
        a=t.do(F["ReadHDF"],w,FRESH(),"f.h5","reading "+kind)
        if a: outs(F["ReadHDF"],a,A,ne,nz,kind)
        for common in(False,True):
            w,A=tworld("aaa" if common else "abc",ne,nz,common); kind="text files "+("common to all flavours" if common else "of each flavour")+" (%d energies, %d z)"%(ne,nz)
            a=t.do(F["ReadText"],w,FRESH(),"p/","reading "+kind)
            if a:
                outs(F["ReadText"],a,A,ne,nz,kind)
                # reading again into the same object
                B={k:[[r[0]*2]+r[1:] for r in v] for k,v in w.text.items()}; w3=World(); w3.text=B
                b=t.do(F["ReadText"],w3,a.state(),"p/","reading text files into an object that already holds tables")
                if b:
                    x=World(); c=t.do(F["WriteText"],x,b.state(),"q/","writing what was read second")
                    if c: t.same(tables(x,{"q/"+f+"_"+k:[[r[0]*2]+r[1:] for r in v] for f,T in zip(FL,A) for k,v in T.items()},floor=True),"tables read second replace those read first",F["ReadText"].f)
    ne,nz=4,3
    # what must be refused: text
    for common in(False,True):
        base,_=tworld("aaa" if common else "abc",ne,nz,common)
        for f in base.text:
            r=base.text[f]; two="dsde" in f; opts=[("without %s",None),("with another lowest energy in %s",[[r[0][0]/2]+x[1:] if x[0]==r[0][0] else x for x in r]),("with another highest energy in %s",[[r[-1][0]*2]+x[1:] if x[0]==r[-1][0] else x for x in r]),
                ("with one column less in %s",[x[:-1] for x in r]),("with one column more in %s",[x+[1] for x in r])]
            if two: opts.append(("with a row missing at the end of %s",r[:-1])); opts.append(("with only one energy in %s",[x for x in r if x[0]==r[0][0]]))
            for what,g in opts:
                w=World(); w.text={k:v for k,v in base.text.items() if k!=f}
                if g is not None: w.text[f]=g
                t.do(F["ReadText"],w,FRESH(),"p/","a set of text tables "+what%f,accept=False)
    # HDF5
    for old_ in(False,True):
        base,_=hworld("aaa" if old_ else "abc",ne,nz,old_)
        for d in base.h5:
            opts=[("without %s",None)]; A=base.h5[d]
            for i in range(len(A.ext)):
                for s in(-1,1):
                    e=list(A.ext); e[i]+=s
                    if d in("/energies","/zs") and s<0: v=A.vals[:-1]
                    elif d in("/energies","/zs"): v=A.vals+[A.vals[-1]+1]
                    else: v=[A.vals[j%len(A.vals)] for j in range(math.prod(e))]
                    opts.append(("with extent %d of %%s %s by one"%(i,"lower" if s<0 else "higher"),Arr(e,v)))
            for what,g in opts:
                w=World(); w.h5={k:v for k,v in base.h5.items() if k!=d}
                if g is not None: w.h5[d]=g
                t.do(F["ReadHDF"],w,FRESH(),"f.h5","an HDF5 file "+what%d,accept=False)
    for f in FL:
        base,_=hworld("abc",ne,nz); w=World(); w.h5={k:v for k,v in base.h5.items() if not k.startswith("/"+f+"/")}
        t.do(F["ReadHDF"],w,FRESH(),"f.h5","an HDF5 file without the group %s"%f,accept=False)
    # writing what one file cannot hold, or what cannot be written
    for f in FL:
        for n in("nu_sigma_CC.dat","nubar_sigma_NC.dat","nu_dsde_NC.dat","nubar_dsde_CC.dat"):
            w,A=tworld("abc",ne,nz); B=text2("x",ne+1,nz); w.text["p/"+f+"_"+n]=B[n]
            a=Ran(u,F["ReadText"],w,*FRESH(),path="p/")
            if a.res[0]=="returned": t.do(F["WriteHDF"],World(),a.state(),"q.h5","one HDF5 file for tables of which %s has other energies"%(f+"_"+n),accept=False)
            elif a.res[0]=="undecided": R.check(None,"tables over different energies",F["ReadText"].f,detail=a.res[1][:100])
    w,A=tworld("abc",ne,nz); a=Ran(u,F["ReadText"],w,*FRESH(),path="p/")
    if a.res[0]=="returned":
        for f in("electron_nu_sigma_CC.dat","tau_nubar_sigma_NC.dat","electron_nu_dsde_CC.dat","muon_nubar_dsde_NC.dat"): x=World(); x.unopenable=f; t.do(F["WriteText"],x,a.state(),"q/","writing text files when %s cannot be opened"%f,accept=False)
def body(R):
    u=unit32()
    R.scope("cross-section file readers and writers")
    old(R,u); new(R,u)
if __name__=="__main__": main("C32",RULE,body)
