// assignment with allocators which have an identity
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <new>
namespace vp{
using std::size_t;
struct Q{
  double v;
  Q() noexcept(false):v(0){}
  Q(const Q& o) noexcept(false):v(o.v){}
  Q& operator=(const Q& o) noexcept(false){ v=o.v; return *this; }
};
// P: travels with the contents
template<class T,bool P> struct PA{
  typedef T value_type;
  typedef std::integral_constant<bool,P> propagate_on_container_copy_assignment, propagate_on_container_move_assignment, propagate_on_container_swap;
  template<class U> struct rebind{ typedef PA<U,P> other; };
  int id;
  explicit PA(int i):id(i){}
  template<class U> PA(const PA<U,P>& o):id(o.id){}
  T* allocate(size_t n){ return std::allocator<T>().allocate(n); }
  void deallocate(T* p,size_t n){ std::allocator<T>().deallocate(p,n); }
  template<class U> void destroy(U* p) noexcept{ p->~U(); }
  PA select_on_container_copy_construction() const{ return *this; }
  PA select_on_container_move_construction() const{ return *this; }
  bool operator==(const PA& o) const{ return id==o.id; }
  bool operator!=(const PA& o) const{ return id!=o.id; }
};
template<class T,bool P> using A=nusquids::marray<T,2,PA<T,P>>;
#define F(T,N,P,B) \
  void P##_ca##N(A<T,B>& o,const A<T,B>& a){ o=a; } \
  void P##_ma##N(A<T,B>& o,A<T,B>& a){ o=std::move(a); } \
  void P##_sw##N(A<T,B>& o,A<T,B>& a){ o.swap(a); } \
  void P##_cp##N(A<T,B>* o,const A<T,B>& a){ ::new(o) A<T,B>(a); } \
  void P##_mv##N(A<T,B>* o,A<T,B>& a){ ::new(o) A<T,B>(std::move(a)); }
F(double,d,t,true) F(double,d,f,false) F(Q,q,t,true) F(Q,q,f,false)
#define LAY(P,B) \
  double* P##_data_2(A<double,B>& a){ return a.get_data(); } \
  size_t P##_ext_2(const A<double,B>& a, size_t d){ return a.extent(d); } \
  size_t P##_size_2(const A<double,B>& a){ return a.size(); } \
  int P##_id(const A<double,B>& a){ return a.get_allocator().id; }
LAY(t,true) LAY(f,false)
}
