"""The tau decay spectra: parameters as the constructor sets them, the published formulae (written here from the
publication, Dutta, Reno and Sarcevic, table of decay distributions), and the tables as Init leaves them."""
from common import *
from shape import *
from mem import *
NAMES=("dNdEnu_All","dNdEnu_Lep","dNdEle_All","dNdEle_Lep")
CH=("Lepton","Pion","Rho","A1","Hadron")
MASS={"Pion":(Fraction("0.13957"),Fraction("0.02")),"Rho":(Fraction("0.7755"),Fraction("0.03")),"A1":(Fraction("1.23"),Fraction("0.05"))}; MTAU=Fraction("1.77686")
def unit():
    return extract(lower(src("src/taudecay.cpp")),roots=(r"nusquids::TauDecaySpectra::",),noinline=(r"marray<.*>::(resize|reshape)\b",),inline=())
def harn(): return extract(lower(harness("tau.cpp")),roots=(r"^(unsigned long |double\* |double )?vp::\w+_\w+\(",))
def layouts():
    h=harn()
    return Layout(h,1),Layout(h,3)
T_="nusquids::TauDecaySpectra::"
RESIZE=r"marray<.*>::(resize|reshape)\b"
def flow(u,name): return u.flow(r"^(double )?"+re.escape(T_+name)+r"\(",const_callees=((RESIZE,"*"),))
def ctor(u): return u.flow(r"^"+re.escape(T_)+r"TauDecaySpectra\(bool\)")
class Params:
    """members the constructor sets: {offset: value}"""
    def __init__(s,u):
        s.fl=ctor(u); s.this=("arg",0,s.fl.f.args[0]["name"],"ptr"); s.v={}
        for e in s.fl.effects:
            if e.kind=="store" and e.ty=="double":
                r=e.addr-var(s.this)
                if r.isconst() and e.val.isconst(): s.v[int(r.cval())]=e.val.cval()
def powf(k,ev):
    if k[1]=="pow":
        x,n=ev(k[2][0]),ev(k[2][1])
        if Fraction(n).denominator==1 and (x!=0 or n>=0): return Fraction(x)**int(n)
    return None
def evaluate(fl,mem,args):
    """the returned value, with members from mem and arguments from args"""
    A=[("arg",k,a["name"],a["ty"]) for k,a in enumerate(fl.f.args)]
    def loadf(b,o,k,ev):
        if b==A[0] and k[3]=="double":
            if int(o) in mem: return mem[int(o)]
            raise Unknown("a member the constructor does not set")
        return None
    def leaf(k,ev):
        if k in A[1:]: return args[A.index(k)-1]
        return None
    return Ev(loadf=loadf,leaf=leaf,call=powf)(fl.ret)
def formula(ch,z,P,r):
    if ch=="Lepton" and z>1: return Fraction(0)
    if ch=="Lepton": return Fraction(5,3)-3*z**2+Fraction(4,3)*z**3+P*(Fraction(1,3)-3*z**2+Fraction(8,3)*z**3)
    if ch=="Hadron": return 1/Fraction(3,10) if z<Fraction(3,10) else Fraction(0)
    if not z<1-r: return Fraction(0)
    if ch=="Pion": return 1/(1-r)-P*(2*z-1+r)/(1-r)**2
    return 1/(1-r)-P*(2*z-1+r)/(1-r)*(1-2*r)/(1+2*r)
def close_(a,b): return abs(Fraction(a)-Fraction(b))<=Fraction(1,10**9)*max(1,abs(Fraction(b)))
def zpoints(rs):
    """fractions: more than the degree of any formula in every interval between end points, and both sides of each"""
    ends=sorted(set([Fraction(0)]+[1-r for r in rs]+[Fraction(3,10),Fraction(1)])); out=set(ends)
    for a,b in zip(ends,ends[1:]):
        for n in range(1,6): out.add(a+(b-a)*Fraction(n,6))
    return sorted(out)

class Tables(Mem):
    """Init for one energy grid: what its tables hold"""
    def __init__(s,fl,lg,lt,bases,grid,pr):
        Mem.__init__(s,fl,lg,[None,Arr("E",(len(grid),))]); s.grid=grid; s.pr=pr; s.bases=bases; s.lt=lt
        s.now=None
    def loadf(s,b,o,k,ev):
        if b==s.A[0]:
            for t in s.bases:
                L=s.lt; r=o-t
                if L.e<=r<L.e+24 and (r-L.e)%8==0: return (2,len(s.grid),len(s.grid))[int(r-L.e)//8]
                if r==L.z: return 2*len(s.grid)**2
                if r==L.d: return V(0,{("D",t):1})
            if k[3]=="double":
                le=s.lat.get(k)
                if le is None: raise Unknown("a read whose place is unknown")
                env={L:s.env[L] for L in le.loops if L in s.env}
                return s.number(s.read(s.A[0],o,s.time(le,env),8))
            return None
        if b==("D","E"):
            if o%8: raise Unknown("part of an entry")
            i=int(o)//8
            if not 0<=i<len(s.grid): raise Unknown("outside the grid")
            return s.grid[i]
        if isinstance(b,tuple) and b[0] in("D","alloca") and k[3]=="double":
            le=s.lat.get(k)
            if le is None: raise Unknown("a read whose place is unknown")
            env={L:s.env[L] for L in le.loops if L in s.env}
            return s.number(s.read(b,o,s.time(le,env),8))
        return Mem.loadf(s,b,o,k,ev)
    def number(s,v):
        if isinstance(v,Poly):
            if not v.isconst(): raise Unknown("not a number")
            return v.cval()
        return v
    def initial(s,base,off):
        if base==("D","E"): return const(s.grid[int(off)//8])
        if base==s.A[0] and int(off) in s.pr.v: return None
        return None
    def value(s,p,e,env):
        sv=dict(s.env); s.env.clear(); s.env.update(env)
        try: return s.ev().poly(p).num()
        finally: s.env.clear(); s.env.update(sv)
    def ev(s): return Ev(loadf=s.loadf,leaf=s.leaf,call=powf)
def expect(name,et,en,v,pr,mr,w):
    """et: initial, en: final energy in GeV"""
    z=en/et
    f={c:formula(c,z,v["P"],v["r"].get(c,0)) for c in CH}
    lep=w["Lepton"]*f["Lepton"]; tot=2*lep+sum(w[c]*f[c] for c in CH[1:])
    x=tot if name.endswith("All") else lep
    return x/et if "Enu" in name else x*en/et**2
