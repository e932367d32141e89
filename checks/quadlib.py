from common import *
from cex import *
def layout(u):
    lay={}
    for n in "a b fa fb spa spb fspa fspb value i2".split():
        g=u.flow(r"^vp::f_%s\("%n); lay[n]=int((g.ret-var(("arg",0,g.f.args[0]["name"],"ptr"))).cval())
    g=u.flow(r"^vp::f_next\("); lay["size"]=int((g.ret-var(("arg",0,g.f.args[0]["name"],"ptr"))).cval())
    for n in "fa fb unc out".split():
        g=u.flow(r"^vp::o_%s\("%n); lay["o_"+n]=int((g.ret-var(("arg",0,g.f.args[0]["name"],"ptr"))).cval())
    return lay
EVAL=r"AdaptiveQuad::Interval::evaluate"
def quad_unit():
    return extract(lower(harness("quad.cpp")),roots=(r"^vp::",),noinline=(EVAL,))
def fieldloads(p,fl,base,lay):
    """{name: atom} of loads of the fields of the object at base"""
    out={}
    for k in deep_atoms(p):
        if k[0]=="load":
            d=k[1]-base
            if d.isconst():
                for n in("a","b","fa","fb","spa","spb","fspa","fspb","value","i2"):
                    if d.cval()==lay[n]: out.setdefault(n,[]).append(k)
    return out
