from common import *
from grid import *
def body(R):
    for nm,d in(("BiCubicInterpolator",2),("TriCubicInterpolator",3)):
        G=load_grid(nm,d); R.fn(G.op.f); R.fn(G.ctor.f)
        shape_checks(G,R); cell_analysis(G,None); cell_choice(G,R,TIER=="quick")
main("C03","the constructor rejects mismatching coordinate counts; the cell index expression, evaluated over all order types of a query against a strictly increasing grid, selects the enclosing or nearest edge cell and never reads outside the nodes",body)
