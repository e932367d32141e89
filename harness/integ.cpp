// instantiations of the integration helper with an opaque integrand
#include <nuSQuIDS/tools.h>
namespace vp{
using namespace nusquids;
struct Fn{ double k; double operator()(double x) const; };
double int_ws(IntegrateWorkspace& ws, Fn f, double a, double b, double acc, unsigned n){ return integrate(ws,f,a,b,acc,n); }
double int_own(Fn f, double a, double b, double acc, unsigned n, size_t m){ return integrate(f,a,b,acc,n,m); }
double int_def(Fn f, double a, double b){ return integrate(f,a,b); }
double int_wsdef(IntegrateWorkspace& ws, Fn f, double a, double b){ return integrate(ws,f,a,b); }
void ws_life(size_t n){ IntegrateWorkspace ws(n); }
}
#include <type_traits>
namespace vp{
template<class W,bool=std::is_copy_constructible<W>::value> struct CC{ static void go(size_t n){ W a(n); } };
template<class W> struct CC<W,true>{ static void go(size_t n){ W a(n); W b(a); } };
template<class W,bool=std::is_copy_assignable<W>::value> struct CA{ static void go(size_t n){ W a(n); } };
template<class W> struct CA<W,true>{ static void go(size_t n){ W a(n); W b(n+1); b=a; } };
template<class W,bool=std::is_move_constructible<W>::value> struct MC{ static void go(size_t n){ W a(n); } };
template<class W> struct MC<W,true>{ static void go(size_t n){ W a(n); W b(std::move(a)); } };
template<class W,bool=std::is_move_assignable<W>::value> struct MA{ static void go(size_t n){ W a(n); } };
template<class W> struct MA<W,true>{ static void go(size_t n){ W a(n); W b(n+1); b=std::move(a); } };
void ws_copy(size_t n){ CC<IntegrateWorkspace>::go(n); }
void ws_assign(size_t n){ CA<IntegrateWorkspace>::go(n); }
void ws_move(size_t n){ MC<IntegrateWorkspace>::go(n); }
void ws_massign(size_t n){ MA<IntegrateWorkspace>::go(n); }
}
