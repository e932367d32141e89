"""Lowering of the current /repo sources and the reporting side of every check."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib, atexit
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
REPO=os.environ.get("NSQ_REPO","/repo")
BUILD=os.path.join(VERIF,"build")
HDF5=["-I/usr/include/hdf5/serial"]
_tmp=None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix="nsq_"); atexit.register(shutil.rmtree,_tmp,True)
    return _tmp
class ToolError(Exception): pass

def ensure_tool():
    exe=os.path.join(BUILD,"nsqx"); src=os.path.join(VERIF,"tool","nsqx.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe)>=os.path.getmtime(src): return exe
    os.makedirs(BUILD,exist_ok=True)
    sh=lambda *a: subprocess.check_output(a,text=True).split()
    cxx=[f for f in sh("llvm-config-18","--cxxflags") if f!="-fno-exceptions" and not f.startswith("-std=")]
    ld=sh("llvm-config-18","--ldflags","--libs","--system-libs")
    t=exe+".%d"%os.getpid()
    r=subprocess.run(["clang++-18","-std=c++17","-O1"]+cxx+["-fexceptions",src,"-o",t]+ld,capture_output=True,text=True)
    if r.returncode: raise ToolError("building nsqx failed:\n"+r.stderr[-2000:])
    os.rename(t,exe); return exe

def resource_dir():
    d=os.path.join(tmp(),"inc")
    if not os.path.exists(d):
        os.makedirs(d)
        with open(os.path.join(d,"resource_paths.h"),"w") as f:
            f.write('#include <cstring>\n#define SOURCE_DATA_PATH "/repo/data/"\n#define INSTALL_DATA_PATH "/usr/local/share/nuSQuIDS/"\n'
                'namespace{ const volatile char dataPathBitContainer[]="NUSQUIDS_DATA_PATH_INSTALL_FLAG_PREFIX_A_NUSQUIDS_DATA_PATH_INSTALL_FLAG_SUFFIX";\n'
                'bool getInstallBit(){ static const std::size_t prefixLen=strlen("NUSQUIDS_DATA_PATH_INSTALL_FLAG_PREFIX_"); return dataPathBitContainer[prefixLen]!=\'A\'; } }\n')
        g=os.path.join(REPO,"_build","resource_paths.h")
        if os.path.exists(g): shutil.copy(g,os.path.join(d,"resource_paths.h"))
    return d

DROPPED={}
def lower(src,extra=(),opt="1",defs=(),tolerant=False):
    """compile one translation unit of the current tree to unoptimised bitcode;
    tolerant: entry points of a harness which do not compile are left out (Unit.flow raises NotBuilt for them)"""
    out=os.path.join(tmp(),hashlib.sha1((src+repr(extra)+repr(defs)).encode()).hexdigest()[:12]+".bc")
    if os.path.exists(out): return out
    cmd=["clang++-18","-std=c++11","-O"+opt,"-Xclang","-disable-llvm-passes","-g","-fno-discard-value-names","-w",
         "-emit-llvm","-c","-I"+resource_dir(),"-I"+REPO+"/include"]+HDF5+list(extra)+list(defs)+[src,"-o",out]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode and tolerant:
        r2=lower_partly(cmd,src,out)
        if r2 is None: return out
    if r.returncode: raise ToolError("compiling %s failed:\n%s"%(src,r.stderr[-3000:]))
    return out
def lower_partly(cmd,src,out):
    """one definition per line, then leave out those the compiler's diagnostics lead to"""
    r=subprocess.run(cmd[:-4]+["-E","-o","-",src],capture_output=True,text=True)
    if r.returncode: return r
    r=r.stdout
    inc=[l for l in open(src).read().split("\n") if l.startswith("#include")]
    own=[]; on=False
    for l in r.split("\n"):
        m=re.match(r'# \d+ "(.*?)"',l)
        if m: on=m.group(1)==src; continue
        if on: own.append(l)
    lines=[]; depth=0; cur=""
    for c in "\n".join(own):
        if c=="\n" and depth<=1: c=" "
        cur+=c
        if c=="{":
            depth+=1
            if depth==1 and re.match(r"\s*namespace\b",cur): lines.append(cur); cur=""
        elif c=="}":
            depth-=1
            if depth==1 or depth==0: lines.append(cur); cur=""
        elif c==";" and depth<=1: lines.append(cur); cur=""
    lines.append(cur)
    lines=[l.replace("\n"," ").strip() for l in lines]
    path=os.path.join(tmp(),"part_"+os.path.basename(src)); gone=set()
    DEF=re.compile(r"^(?!class\b|struct\b|template\b|inline\b|namespace\b)[\w:<>,*& ]+?\b(\w+_\w+)\([^{;]*\)\s*(?:noexcept)?\s*\{")
    for n in range(6):
        with open(path,"w") as f: f.write("\n".join(inc)+"\n"+"\n".join(lines)+"\n")
        c=[path if x==src else x for x in cmd]
        r=subprocess.run(c+["-ferror-limit=0","-ftemplate-backtrace-limit=0"],capture_output=True,text=True)
        if r.returncode==0: DROPPED[out]=gone; return None
        hit=False
        for k in set(int(m.group(1))-1-len(inc) for m in re.finditer(r"^"+re.escape(path)+r":(\d+):",r.stderr,re.M)):
            if 0<=k<len(lines):
                m=DEF.match(lines[k])
                if m: gone.add(m.group(1)); lines[k]=""; hit=True
                else:
                    m=re.match(r"^[;\s]+$",lines[k])
        if not hit: return r
    return r

def extract(bc,roots=(),noinline=(),inline=(),layouts=False,std=True,extra=()):
    exe=ensure_tool()
    key=hashlib.sha1(repr((bc,roots,noinline,inline,layouts,std,extra)).encode()).hexdigest()[:12]
    out=os.path.join(tmp(),key+".json")
    if not os.path.exists(out):
        cmd=[exe,bc,"-o",out]
        for r in roots: cmd+=["--root",r]
        for r in noinline: cmd+=["--noinline",r]
        for r in inline: cmd+=["--inline",r]
        if std: cmd+=["--noinline-file",os.path.join(HERE,"noinline.txt")]
        if layouts: cmd.append("--layouts")
        cmd+=list(extra)
        r=subprocess.run(cmd,capture_output=True,text=True)
        if r.returncode: raise ToolError("nsqx failed: "+r.stderr[-2000:])
    import flow
    u=flow.Unit(out); u.dropped=DROPPED.get(bc,set())
    return u

def src(name): return os.path.join(REPO,name)
def harness(name): return os.path.join(VERIF,"harness",name)

# ------------------------------------------------------------------ reporting
class Report:
    def __init__(s,prop,rule):
        s.prop=prop; s.rule=rule; s.t0=time.time(); s.obs=[]; s.analysed=[]; s.assume=[]; s.notes=[]
    def fn(s,f,n=None):
        """record an analysed function"""
        d={"function":f.dem if hasattr(f,"dem") else str(f)}
        if getattr(f,"file",None): d["file"]=f.file; d["line"]=f.line
        if d not in s.analysed: s.analysed.append(d)
    def ok(s,what,loc=None): s.obs.append(("ok",what,loc,None))
    def bad(s,what,loc=None,key=None): s.obs.append(("violation",what,loc,key or what))
    def und(s,what,loc=None): s.obs.append(("undecided",what,loc,None))
    def scope(s,t): s.notes.append(t)
    def check(s,cond,what,loc=None,key=None,detail=""):
        """cond: True ok / False violation / None undecided"""
        if cond is True: s.ok(what,loc)
        elif cond is False: s.bad(what+(": "+detail if detail else ""),loc,key or what)
        else: s.und(what+(": "+detail if detail else ""),loc)
        return cond
    def finish(s,level="other",tier=None):
        tier=tier or os.environ.get("VERIF_TIER","quick")
        kf=known(s.prop)
        v=[o for o in s.obs if o[0]=="violation"]
        kn=[]; new=[]
        for o in v:
            m=[k for k in kf if k["key"] in o[3]]
            (kn if m else new).append(o)
        und=[o for o in s.obs if o[0]=="undecided"]; ok=[o for o in s.obs if o[0]=="ok"]
        for k in kf:
            if any(k["key"] in o[3] for o in kn): print("KNOWN-FINDING: property=%s %s"%(s.prop,k["what"]))
        def L(l):
            if hasattr(l,"file"): return "%s:%s"%(l.file,l.line)
            return l if isinstance(l,str) else "%s:%s"%(l[0],l[1]) if l else "?"
        for o in und: print("undecided: %s (%s)"%(o[1],L(o[2])))
        ev={"property":s.prop,"tier":tier,"seed":int(os.environ.get("VERIF_SEED","0") or 0),"level":level,
            "coverage":{"explanation":"Rule: "+s.rule+" Every instance found in the current sources is listed; 'undecided' instances have a shape the analysis does not model and raise no alarm.",
                "functions_analysed":s.analysed,"obligations":len(s.obs),"discharged":len(ok),"undecided":len(und),"violations_found":len(v),"known_findings_hit":len(kn),
                "scope":s.notes,"instances":[{"status":o[0],"what":o[1],"at":L(o[2])} for o in s.obs][:400]},
            "assumptions":s.assume+["clang 18 lowers the sources as the project's compiler does; integer arithmetic is treated as exact except where truncations are checked; floating point as real arithmetic"],
            "wall_s":round(time.time()-s.t0,2),"violations":len(new)}
        ED=os.environ.get("NSQ_EVID",os.path.join(VERIF,"evidence")); os.makedirs(ED,exist_ok=True)
        with open(os.path.join(ED,s.prop+".json"),"w") as f: json.dump(ev,f,indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violations (%d known) over %d functions in %.1fs"%(s.prop,len(s.obs),len(ok),len(und),len(v),len(kn),len(s.analysed),time.time()-s.t0))
        if new:
            rp=os.path.join(ED,s.prop+".violation.txt")
            with open(rp,"w") as f:
                for o in new: f.write("%s: rule violated: %s\n  at %s\n"%(s.prop,o[1],L(o[2])))
            for o in new: print("  %s at %s"%(o[1],L(o[2])))
            print("VIOLATION property=%s replay=%s"%(s.prop,rp))
            return 1
        if not s.obs:
            print("no instance of the rule was found; nothing was decided"); return 2
        return 0

def known(prop):
    p=os.path.join(VERIF,"known_findings.txt"); out=[]
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)",l.strip())
            if m and m.group(1)==prop: out.append({"key":m.group(2),"what":m.group(3)})
    return out
