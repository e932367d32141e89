"""Cross sections: tables known by the names they are read from, objects given numeric contents."""
from common import *
from alg import *
from flow import *
from nsq import *
from ev import Ev,V,Unknown
import re,math,zlib
from fractions import Fraction as Q
NS="nusquids::"; BASE=NS+"NeutrinoCrossSections"; T2=NS+"NeutrinoDISCrossSectionsFromTables"; T1=T2+"_V1"; GR=NS+"GlashowResonanceCrossSection"; LIB=NS+"CrossSectionLibrary"
STR="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
KEEP=(r"nusquids::(AkimaSpline|BiCubicInterpolator)::.*",r".*nusquids::(add|read|write)(H5Attribute|ArrayH5).*",r".*nusquids::(quickread|fexists|h5ObjectExists|logspace|linspace|getResourcePath|H5File|H5Handle).*",
      r".*nusquids::marray<.*>::(resize|marray|operator=)[<(].*",r"(.*\s)?std::_Hashtable<.*>::_M_emplace.*",r".*AdaptiveQuad::integrate<.*")
QUERY=r"nusquids::[A-Za-z_0-9]*::(Total|SingleDifferential|DoubleDifferential|AverageTotal|AverageSingleDifferential)CrossSection\(.*"
def unit(roots):
    bc=lower(harness("xs.cpp"),extra=["-I"+VERIF+"/stub","-I"+REPO+"/src","-fstandalone-debug"],defs=["-DNDEBUG"],tolerant=True)
    return extract(bc,roots=roots,noinline=KEEP,layouts=True)
FLAV={0:"electron",1:"muon",2:"tau",3:"sterile"}
KIND={0:"neutrino",1:"antineutrino"}
CUR={0:"CC",1:"NC",2:"GR"}
def H(tag,*X):
    """any number, the same for the same table and place"""
    return Q(zlib.crc32(repr((tag,)+tuple(round(float(x),9) for x in X)).encode())%1009+1,100)
def offset(u,fn):
    """the member a plain accessor returns"""
    fl=u.flow(fn); k=fl.ret.single() if fl.ret is not None else None
    if k and k[0] in("toint","and"): return None
    if k and k[0]=="load":
        b,o=None,None
        r=fl.root(k[1])
        if r is not None:
            o=k[1]-var(r)
            if o.isconst(): return int(o.cval())
    return None
def slots(u):
    """virtual function -> position in the table of virtual functions"""
    out={}
    for n in("total","single","avtotal","avsingle"):
        try: fl=u.flow(r"vp::slot_%s\(.*"%n)
        except Exception: continue
        for e in fl.effects:
            if e.kind=="call" and e.name is None and getattr(e,"fp",None) is not None: out[show(e.fp).replace(fl.f.args[0]["name"],"x")]=n
    return out
def slot(e):
    """(object, position) of a virtual call"""
    fp=getattr(e,"fp",None)
    if fp is None: return None
    k=fp.single()
    if not k or k[0]!="load": return None
    a=k[1]; c=a.cval() if a.isconst() else None
    for m,co in a.t.items():
        if len(m)==1 and m[0][1]==1 and co==1:
            kk=akey(m[0][0]); rest=a-var(kk)
            if kk[0]=="load" and rest.isconst(): return kk[1],int(rest.cval())
    return None
def arrays(u,K):
    """array and vector members of a class: name -> (offset, size, rank or 'vec')"""
    out=[]
    for m in u.layouts[K]["members"]:
        r=re.match(r"nusquids::marray<double, ?(\d+)u?[,>]",m["type"])
        if r: out.append((m["off"],m["size"],int(r.group(1)),m["name"]))
        elif m["type"].startswith("std::vector<double"): out.append((m["off"],m["size"],"vec",m["name"]))
    return out
