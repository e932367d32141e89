from common import *
from grid import *
def body(R):
    G=load_grid("TriCubicInterpolator",3); R.fn(G.op.f); R.fn(G.ctor.f)
    use=cell_analysis(G,R)
    roles=derive_tables(G,None)
    if use:
        for S,tab in use.items():
            if S and tab!="data" and roles.get(tab) is not None:
                R.check(roles[tab]==S,"TriCubicInterpolator::operator(): the table used as d/d%s holds that derivative"%"d".join("xyz"[i] for i in sorted(S)),(G.op.f.file,G.op.f.line))
main("C02","the value returned inside a cell, taken as a polynomial in the local coordinates, reproduces at every corner the stored value, slopes and cross derivatives rescaled by the cell dimensions, from cubic terms only",body)
