// storage ownership of multidimensional arrays, with throwing elements and allocators which have an identity
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <array>
#include <new>
extern "C"{
void* vp_alloc(int id,std::size_t bytes);                   // may throw
void vp_free(int id,void* p,std::size_t bytes) noexcept;
}
namespace vp{
using std::size_t;
// every operation is opaque and may throw; E has no usable move
struct E{
  double v;
  E() noexcept(false);
  E(const E&) noexcept(false);
  E& operator=(const E&) noexcept(false);
  ~E() noexcept;
};
// moves cannot throw
struct M{
  double v;
  M() noexcept(false);
  M(const M&) noexcept(false);
  M(M&&) noexcept;
  M& operator=(const M&) noexcept(false);
  M& operator=(M&&) noexcept;
  ~M() noexcept;
};
// P: travels with the contents
template<class T,bool P> struct PA{
  typedef T value_type;
  typedef std::integral_constant<bool,P> propagate_on_container_copy_assignment, propagate_on_container_move_assignment, propagate_on_container_swap;
  template<class U> struct rebind{ typedef PA<U,P> other; };
  int id;
  explicit PA(int i):id(i){}
  template<class U> PA(const PA<U,P>& o):id(o.id){}
  T* allocate(size_t n){ return static_cast<T*>(vp_alloc(id,n)); }
  void deallocate(T* p,size_t n){ vp_free(id,p,n); }
  template<class U,class... X> void construct(U* p,X&&... x){ ::new(static_cast<void*>(p)) U(std::forward<X>(x)...); }
  template<class U> void destroy(U* p) noexcept{ p->~U(); }
  PA select_on_container_copy_construction() const{ return *this; }
  PA select_on_container_move_construction() const{ return *this; }
  bool operator==(const PA& o) const{ return id==o.id; }
  bool operator!=(const PA& o) const{ return id!=o.id; }
};
template<class T,bool P,unsigned R> using A=nusquids::marray<T,R,PA<T,P>>;
#define F(T,N,P,B) \
  void P##_mk##N(A<T,B,2>* o,int id,size_t n,size_t m){ ::new(o) A<T,B,2>({n,m},PA<T,B>(id)); } \
  void P##_mkc##N(A<T,B,2>* o,int id,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; ::new(o) A<T,B,2>(d,PA<T,B>(id)); } \
  void P##_mki##N(A<T,B,2>* o,int id,size_t n,size_t m,const T* b,const T* e){ ::new(o) A<T,B,2>({n,m},b,e,PA<T,B>(id)); } \
  void P##_mkl##N(A<T,B,1>* o,int id,size_t n,const T& a,const T& b){ ::new(o) A<T,B,1>({n},{a,b},PA<T,B>(id)); } \
  void P##_cp##N(A<T,B,2>* o,const A<T,B,2>& a){ ::new(o) A<T,B,2>(a); } \
  void P##_mv##N(A<T,B,2>* o,A<T,B,2>& a){ ::new(o) A<T,B,2>(std::move(a)); } \
  void P##_ca##N(A<T,B,2>& o,const A<T,B,2>& a){ o=a; } \
  void P##_ma##N(A<T,B,2>& o,A<T,B,2>& a){ o=std::move(a); } \
  void P##_sw##N(A<T,B,2>& o,A<T,B,2>& a){ o.swap(a); } \
  void P##_in0##N(A<T,B,2>& o,size_t p,size_t n,const T& v){ o.insert(0,p,n,v); } \
  void P##_in1##N(A<T,B,2>& o,size_t p,size_t n,const T& v){ o.insert(1,p,n,v); } \
  void P##_er0##N(A<T,B,2>& o,size_t p,size_t n){ o.erase(0,p,n); } \
  void P##_er1##N(A<T,B,2>& o,size_t p,size_t n){ o.erase(1,p,n); } \
  void P##_rs##N(A<T,B,2>& o,size_t n,size_t m){ std::array<size_t,2> d{{n,m}}; o.reshape(d); } \
  void P##_des##N(A<T,B,2>& o){ o.~A<T,B,2>(); } \
  void P##_sca##N(A<T,B,2>& o){ o=o; } \
  void P##_sma##N(A<T,B,2>& o){ o=std::move(o); }
F(E,e,t,true) F(E,e,f,false) F(M,m,t,true) F(M,m,f,false)
#define LAY(P,B) \
  E* P##_data_2(A<E,B,2>& a){ return a.get_data(); } \
  size_t P##_ext_2(const A<E,B,2>& a, size_t d){ return a.extent(d); } \
  size_t P##_size_2(const A<E,B,2>& a){ return a.size(); } \
  E* P##_data_1(A<E,B,1>& a){ return a.get_data(); } \
  size_t P##_ext_1(const A<E,B,1>& a, size_t d){ return a.extent(d); } \
  size_t P##_size_1(const A<E,B,1>& a){ return a.size(); } \
  int P##_id_2(const A<E,B,2>& a){ return a.get_allocator().id; } \
  int P##_id_1(const A<E,B,1>& a){ return a.get_allocator().id; }
LAY(t,true) LAY(f,false)
}
