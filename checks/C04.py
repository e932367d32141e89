from common import *
from grid import *
import itertools
def body(R):
    for nm,d in(("BiCubicInterpolator",2),("TriCubicInterpolator",3)):
        G=load_grid(nm,d); R.fn(G.ctor.f)
        roles=derive_tables(G,R)
        known=[r for r in roles.values() if r is not None]
        if len(known)==len(roles):
            want={frozenset(s) for k in range(1,d+1) for s in itertools.combinations(range(d),k)}
            R.check(set(known)==want,"%s: the tables are the derivatives along every combination of axes"%nm,(G.ctor.f.file,G.ctor.f.line))
            if d==2 or TIER!="quick":
                use=cell_analysis(G,None)
                for S,tab in (use or {}).items():
                    if S: R.check(roles.get(tab)==S,"%s: the table evaluated as d/d%s is differentiated along exactly those axes"%(nm,"d".join("xyz"[i] for i in sorted(S))),(G.ctor.f.file,G.ctor.f.line))
main("C04","every entry of a derivative table is the slope, at that node, of the spline through the whole grid line along the axis whose coordinates the spline is given, and each table is filled completely, once, from a finished table",body)
