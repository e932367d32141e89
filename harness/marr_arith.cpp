// element-by-element arithmetic of multidimensional arrays
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <array>
#include <vector>
#include <cmath>
namespace vp{
using std::size_t;
// an element which is not trivial
struct D{
  double v;
  D() noexcept:v(0){}
  explicit D(double x) noexcept:v(x){}
  D(const D& o) noexcept:v(o.v){}
  D& operator=(const D& o) noexcept{ v=o.v; return *this; }
  D& operator+=(const D& o){ v+=o.v; return *this; }
  D& operator-=(const D& o){ v-=o.v; return *this; }
  D& operator*=(const D& o){ v*=o.v; return *this; }
  D& operator/=(const D& o){ v/=o.v; return *this; }
  D operator-() const{ return D(-v); }
};
inline D operator+(const D& a,const D& b){ return D(a.v+b.v); }
inline D operator-(const D& a,const D& b){ return D(a.v-b.v); }
inline D operator*(const D& a,const D& b){ return D(a.v*b.v); }
inline D operator/(const D& a,const D& b){ return D(a.v/b.v); }
template<class T,unsigned R> using A=nusquids::marray<T,R>;
size_t ext_1(const A<double,1>& a,size_t d){ return a.extent(d); }
size_t size_1(const A<double,1>& a){ return a.size(); }
double* data_1(const A<double,1>& a){ return a.get_data(); }
size_t ext_2(const A<double,2>& a,size_t d){ return a.extent(d); }
size_t size_2(const A<double,2>& a){ return a.size(); }
double* data_2(const A<double,2>& a){ return a.get_data(); }
#define OPS(M) M(add,+) M(sub,-) M(mul,*) M(div,/)
#define SC(n,op) double ref_##n(double a,double b){ return a op b; }
OPS(SC)
double ref_neg(double a){ return -a; }
// two arrays; every combination of constness
#define AA(T,N,R,n,op) \
  void aa_##n##_##N##R##_cc(A<T,R>* o,const A<T,R>& a,const A<T,R>& b){ ::new(o) A<T,R>(a op b); } \
  void aa_##n##_##N##R##_cm(A<T,R>* o,const A<T,R>& a,A<T,R>& b){ ::new(o) A<T,R>(a op b); } \
  void aa_##n##_##N##R##_mc(A<T,R>* o,A<T,R>& a,const A<T,R>& b){ ::new(o) A<T,R>(a op b); } \
  void aa_##n##_##N##R##_mm(A<T,R>* o,A<T,R>& a,A<T,R>& b){ ::new(o) A<T,R>(a op b); } \
  void as_##n##_##N##R##_c(A<T,R>& a,const A<T,R>& b){ a op##= b; } \
  void as_##n##_##N##R##_m(A<T,R>& a,A<T,R>& b){ a op##= b; } \
  void ar_##n##_##N##R##_c(A<T,R>* o,A<T,R>& a,const A<T,R>& b){ ::new(o) A<T,R>(std::move(a) op##= b); }
#define AA1(n,op) AA(double,d,2,n,op) AA(D,q,2,n,op) AA(double,d,1,n,op)
OPS(AA1)
// an array and a scalar
#define SA(T,N,R,n,op) \
  void xs_##n##_##N##R(A<T,R>* o,A<T,R>& a,const T& f){ ::new(o) A<T,R>(a op f); } \
  void sx_##n##_##N##R(A<T,R>* o,const T& f,A<T,R>& a){ ::new(o) A<T,R>(f op a); } \
  void ss_##n##_##N##R(A<T,R>& a,const T& f){ a op##= f; } \
  void sr_##n##_##N##R(A<T,R>* o,A<T,R>& a,const T& f){ ::new(o) A<T,R>(std::move(a) op##= f); }
#define SA1(n,op) SA(double,d,2,n,op) SA(D,q,2,n,op) SA(double,d,1,n,op)
OPS(SA1)
#define NG(T,N,R) \
  void neg_##N##R##_c(A<T,R>* o,const A<T,R>& a){ ::new(o) A<T,R>(-a); } \
  void neg_##N##R##_m(A<T,R>* o,A<T,R>& a){ ::new(o) A<T,R>(-a); } \
  void neg_##N##R##_r(A<T,R>* o,A<T,R>& a){ ::new(o) A<T,R>(-std::move(a)); }
NG(double,d,2) NG(D,q,2) NG(double,d,1)
#define FUNS(M) M(cos) M(sin) M(tan) M(acos) M(asin) M(atan) M(cosh) M(sinh) M(tanh) M(acosh) M(asinh) M(atanh) M(exp) M(exp2) M(log) M(log2) M(log10) M(sqrt) M(cbrt) M(erf) M(erfc) M(tgamma) M(lgamma) M(ceil) M(floor) M(trunc) M(round) M(abs)
#define FUN(n) double ref_##n(double a){ return std::n(a); } \
  void fun_##n##_c(A<double,2>* o,const A<double,2>& a){ ::new(o) A<double,2>(nusquids::n(a)); } \
  void fun_##n##_r(A<double,2>* o,A<double,2>& a){ ::new(o) A<double,2>(nusquids::n(std::move(a))); }
FUNS(FUN)
#define FUNS2(M) M(atan2) M(pow) M(hypot)
#define FUN2(n) double ref_##n(double a,double b){ return std::n(a,b); } \
  void fn2_##n(A<double,2>* o,const A<double,2>& a,const A<double,2>& b){ ::new(o) A<double,2>(nusquids::n(a,b)); }
FUNS2(FUN2)
}
