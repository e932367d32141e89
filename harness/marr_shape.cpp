// construction, assignment and reshaping of multidimensional arrays
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <array>
#include <vector>
namespace vp{
using std::size_t;
// an element whose copies and moves might throw, for the copying paths
struct Q{
  double v;
  Q() noexcept(false):v(0){}
  Q(const Q& o) noexcept(false):v(o.v){}
  Q& operator=(const Q& o) noexcept(false){ v=o.v; return *this; }
};
template<class T,unsigned R> using A=nusquids::marray<T,R>;
#define INS(T,N,R,D) \
  void ins##N##_##R##_##D(A<T,R>& a,size_t pos,size_t num,T val){ a.insert(D,pos,num,val); } \
  void del##N##_##R##_##D(A<T,R>& a,size_t pos,size_t num){ a.erase(D,pos,num); } \
  void rsz##N##_##R##_##D(A<T,R>& a,size_t n){ a.resize(D,n); }
#define INSX(T,N) INS(T,N,1,0) INS(T,N,2,0) INS(T,N,2,1) INS(T,N,3,0) INS(T,N,3,1) INS(T,N,3,2)
INSX(double,d) INSX(Q,q)
}
namespace vp{
using L=std::initializer_list<size_t>;
// construction
#define CON(T,N) \
  void mk0##N(A<T,2>* o){ ::new(o) A<T,2>(); } \
  void mk1##N(A<T,1>* o,size_t n){ ::new(o) A<T,1>({n}); } \
  void mk2##N(A<T,2>* o,size_t n,size_t m){ ::new(o) A<T,2>({n,m}); } \
  void mk3##N(A<T,3>* o,size_t n,size_t m,size_t l){ ::new(o) A<T,3>({n,m,l}); } \
  void mkc1##N(A<T,1>* o,size_t n){ std::array<size_t,1> d{{n}}; ::new(o) A<T,1>(d); } \
  void mkc2##N(A<T,2>* o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; ::new(o) A<T,2>(d); } \
  void mkc3##N(A<T,3>* o,size_t n,size_t m,size_t l){ std::array<size_t,3> d{{n,m,l}}; ::new(o) A<T,3>(d); } \
  void mki2##N(A<T,2>* o,size_t n,size_t m,const T* b,const T* e){ ::new(o) A<T,2>({n,m},b,e); } \
  void mki3##N(A<T,3>* o,size_t n,size_t m,size_t l,const T* b,const T* e){ ::new(o) A<T,3>({n,m,l},b,e); } \
  void cp1##N(A<T,1>* o,const A<T,1>& a){ ::new(o) A<T,1>(a); } \
  void cp2##N(A<T,2>* o,const A<T,2>& a){ ::new(o) A<T,2>(a); } \
  void cp3##N(A<T,3>* o,const A<T,3>& a){ ::new(o) A<T,3>(a); } \
  void mv1##N(A<T,1>* o,A<T,1>& a){ ::new(o) A<T,1>(std::move(a)); } \
  void mv2##N(A<T,2>* o,A<T,2>& a){ ::new(o) A<T,2>(std::move(a)); } \
  void mv3##N(A<T,3>* o,A<T,3>& a){ ::new(o) A<T,3>(std::move(a)); } \
  void ca1##N(A<T,1>& o,const A<T,1>& a){ o=a; } \
  void ca2##N(A<T,2>& o,const A<T,2>& a){ o=a; } \
  void ca3##N(A<T,3>& o,const A<T,3>& a){ o=a; } \
  void ma1##N(A<T,1>& o,A<T,1>& a){ o=std::move(a); } \
  void ma2##N(A<T,2>& o,A<T,2>& a){ o=std::move(a); } \
  void ma3##N(A<T,3>& o,A<T,3>& a){ o=std::move(a); } \
  void sw1##N(A<T,1>& o,A<T,1>& a){ o.swap(a); } \
  void sw2##N(A<T,2>& o,A<T,2>& a){ o.swap(a); } \
  void sw3##N(A<T,3>& o,A<T,3>& a){ o.swap(a); } \
  void rs2##N(A<T,2>& o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; o.reshape(d); } \
  void rs3##N(A<T,3>& o,size_t n,size_t m,size_t l){ std::array<size_t,3> d{{n,m,l}}; o.reshape(d); } \
  void rz1##N(A<T,1>& o,size_t n){ std::array<size_t,1> d{{n}}; o.resize(d); } \
  void rz2##N(A<T,2>& o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; o.resize(d); } \
  void rz3##N(A<T,3>& o,size_t n,size_t m,size_t l){ std::array<size_t,3> d{{n,m,l}}; o.resize(d); } \
  void rsbad2##N(A<T,2>& o,size_t n,size_t m){ std::array<size_t,3> d{{n,m,1}}; o.reshape(d); } \
  void rzbad2##N(A<T,2>& o,size_t n,size_t m){ std::array<size_t,3> d{{n,m,1}}; o.resize(d); } \
  void rzbad3##N(A<T,3>& o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; o.resize(d); } \
  void mkbad2##N(A<T,2>* o,size_t n){ ::new(o) A<T,2>({n}); } \
  void mkbad1##N(A<T,1>* o,size_t n,size_t m){ ::new(o) A<T,1>({n,m}); } \
  void mkbadc3##N(A<T,3>* o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; ::new(o) A<T,3>(d); }
CON(double,d) CON(Q,q)
void mkn1(A<double,1>* o,size_t n){ ::new(o) A<double,1>({n},nusquids::detail::no_init); }
void mkn2(A<double,2>* o,size_t n,size_t m){ ::new(o) A<double,2>({n,m},nusquids::detail::no_init); }
void mkn3(A<double,3>* o,size_t n,size_t m,size_t l){ std::array<size_t,3> d{{n,m,l}}; ::new(o) A<double,3>(d,nusquids::detail::no_init); }
// nested initialisers
void mkl1(A<double,1>* o,size_t n,double a,double b){ ::new(o) A<double,1>({n},{a,b}); }
void mkl2(A<double,2>* o,size_t n,size_t m,double a,double b,double c,double d,double e,double f){ ::new(o) A<double,2>({n,m},{{a,b,c},{d,e,f}}); }
void mkl3(A<double,3>* o,size_t n,size_t m,size_t l,double a,double b,double c,double d){ ::new(o) A<double,3>({n,m,l},{{{a},{b}},{{c},{d}}}); }
void as1(A<double,1>& o,double a,double b){ o={a,b}; }
void as2(A<double,2>& o,double a,double b,double c,double d,double e,double f){ o={{a,b,c},{d,e,f}}; }
void as3(A<double,3>& o,double a,double b,double c,double d){ o={{{a},{b}},{{c},{d}}}; }
// layout
#define LAY(R) \
  double* data_##R(A<double,R>& a){ return a.get_data(); } \
  size_t ext_##R(const A<double,R>& a, size_t d){ return a.extent(d); } \
  size_t size_##R(const A<double,R>& a){ return a.size(); }
LAY(1) LAY(2) LAY(3)
}
