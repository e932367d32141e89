"""Arrays of fixed shapes combined or summed: the operation is instantiated at each shape, its loops are unrolled or
followed by their recurrences, and every entry of the result is an expression in the operands' entries."""
from mem import *
from shape import *
import itertools,os
PRE='''#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <array>
#include <cmath>
namespace vp{
template<class T,unsigned R> using A=nusquids::marray<T,R>;
'''
UNR=("--unroll-threshold=200000","--unroll-max-iteration-count-to-analyze=64","--unroll-full-max-count=64")
HEAD=PRE+"".join('std::size_t ext_%d(const A<double,%d>& a,std::size_t d){ return a.extent(d); }\nstd::size_t size_%d(const A<double,%d>& a){ return a.size(); }\ndouble* data_%d(const A<double,%d>& a){ return a.get_data(); }\n'%((r,)*6) for r in(1,2,3,4))
def br(s): return "{%s}"%",".join(map(str,s))
def unit(lines,tag):
    p=os.path.join(tmp(),"h_%s.cpp"%tag)
    with open(p,"w") as f: f.write(HEAD+"\n".join(lines)+"\n}\n")
    return extract(lower(p,defs=["-DNDEBUG"],tolerant=True),roots=(r"^(void |double |double\* |unsigned long )?vp::\w+_\w+\(",),extra=UNR)
from nsq import *
def joined(a,b):
    """extents of the result, or None if the shapes do not fit"""
    n=max(len(a),len(b)); A=(1,)*(n-len(a))+tuple(a); B=(1,)*(n-len(b))+tuple(b); r=[]
    for i,(x,y) in enumerate(zip(A,B)):
        if i<n-len(a): r.append(y)
        elif i<n-len(b): r.append(x)
        elif x==y or y==1: r.append(x)
        elif x==1: r.append(y)
        else: return None
    return tuple(r)
def row(ix,ex):
    o=0
    for i,e in zip(ix,ex): o=o*e+i
    return o
def proj(ix,ex):
    """index of an operand of extents ex for the result index ix"""
    ix=ix[len(ix)-len(ex):]
    return row([0 if e==1 else i for i,e in zip(ix,ex)],ex)
def strip(p):
    """widening of a number to a larger type is that number"""
    def am(k):
        if k[0]=="ext" or k[0]=="fpext": return Rewriter(am).poly(k[1])
        return None
    return Rewriter(am).poly(p)
def built(R,u,n,what,cls=False):
    """an operation on arrays of numbers which does not compile is broken; one on arrays of another type may need more of it"""
    if n not in u.dropped: return True
    loc=(os.path.join(REPO,"include/nuSQuIDS/marray.h"),1)
    if cls: R.und(what+": does not compile for this type",loc)
    else: R.check(False,what+": compiles",loc)
    return False
