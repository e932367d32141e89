// element access of multidimensional arrays by every route
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <array>
#include <vector>
namespace vp{
using std::size_t;
template<unsigned R> using A=nusquids::marray<double,R>;
#define BOTH(name,R,call,...) \
  double* name##_m(A<R>& a, __VA_ARGS__){ return &(call); } \
  const double* name##_c(const A<R>& a, __VA_ARGS__){ return &(call); }
BOTH(sub1,1,a[i],size_t i)
BOTH(sub2,2,a[i][j],size_t i,size_t j)
BOTH(sub3,3,a[i][j][k],size_t i,size_t j,size_t k)
BOTH(sub4,4,a[i][j][k][l],size_t i,size_t j,size_t k,size_t l)
using L=std::initializer_list<size_t>;
BOTH(lst1,1,(a[{i}]),size_t i)
BOTH(lst2,2,(a[{i,j}]),size_t i,size_t j)
BOTH(lst3,3,(a[{i,j,k}]),size_t i,size_t j,size_t k)
BOTH(lst4,4,(a[{i,j,k,l}]),size_t i,size_t j,size_t k,size_t l)
template<size_t n> using I=std::array<size_t,n>;
BOTH(con1,1,(a[I<1>{{i}}]),size_t i)
BOTH(con2,2,(a[I<2>{{i,j}}]),size_t i,size_t j)
BOTH(con3,3,(a[I<3>{{i,j,k}}]),size_t i,size_t j,size_t k)
BOTH(con4,4,(a[I<4>{{i,j,k,l}}]),size_t i,size_t j,size_t k,size_t l)
#define ITER(R) \
  double* it_m_##R(A<R>& a, std::ptrdiff_t n){ return &*(a.begin()+n); } \
  const double* it_c_##R(const A<R>& a, std::ptrdiff_t n){ return &*(a.begin()+n); } \
  const double* it_cb_##R(A<R>& a, std::ptrdiff_t n){ return &*(a.cbegin()+n); } \
  double* itx_m_##R(A<R>& a, std::ptrdiff_t n){ return &(a.begin()[n]); } \
  double* itn_##R(A<R>& a, std::ptrdiff_t n){ return &*(n+a.begin()); } \
  double* rit_m_##R(A<R>& a, std::ptrdiff_t n){ return &*(a.rbegin()+n); } \
  const double* rit_c_##R(const A<R>& a, std::ptrdiff_t n){ return &*(a.rbegin()+n); } \
  const double* rit_cb_##R(A<R>& a, std::ptrdiff_t n){ return &*(a.crbegin()+n); } \
  double* ritx_m_##R(A<R>& a, std::ptrdiff_t n){ return &(a.rbegin()[n]); } \
  double* pre_m_##R(A<R>& a){ auto i=a.begin(); ++i; ++i; --i; return &*i; } \
  double* post_m_##R(A<R>& a){ auto i=a.begin(); i++; auto j=i++; return &*j; } \
  double* postd_m_##R(A<R>& a){ auto i=a.end(); i--; auto j=i--; return &*j; } \
  double* rpre_m_##R(A<R>& a){ auto i=a.rbegin(); ++i; ++i; --i; return &*i; } \
  double* rpost_m_##R(A<R>& a){ auto i=a.rbegin(); i++; auto j=i++; return &*j; } \
  double* rpostd_m_##R(A<R>& a){ auto i=a.rend(); i--; auto j=i--; return &*j; } \
  double* pluseq_m_##R(A<R>& a, std::ptrdiff_t n){ auto i=a.begin(); i+=n; return &*i; } \
  double* minuseq_m_##R(A<R>& a, std::ptrdiff_t n){ auto i=a.end(); i-=n; return &*i; } \
  double* rpluseq_m_##R(A<R>& a, std::ptrdiff_t n){ auto i=a.rbegin(); i+=n; return &*i; } \
  double* rminuseq_m_##R(A<R>& a, std::ptrdiff_t n){ auto i=a.rend(); i-=n; return &*i; } \
  std::ptrdiff_t dist_m_##R(A<R>& a){ return a.end()-a.begin(); } \
  std::ptrdiff_t dist_c_##R(const A<R>& a){ return a.end()-a.begin(); } \
  std::ptrdiff_t rdist_m_##R(A<R>& a){ return a.rend()-a.rbegin(); } \
  std::ptrdiff_t rdist_c_##R(const A<R>& a){ return a.rend()-a.rbegin(); } \
  double* front_m_##R(A<R>& a){ return &a.front(); } \
  const double* front_c_##R(const A<R>& a){ return &a.front(); } \
  double* back_m_##R(A<R>& a){ return &a.back(); } \
  const double* back_c_##R(const A<R>& a){ return &a.back(); } \
  double* data_##R(A<R>& a){ return a.get_data(); } \
  size_t ext_##R(const A<R>& a, size_t d){ return a.extent(d); } \
  void exts_##R(const A<R>& a, std::array<size_t,R>* o){ *o=a.get_extents(); } \
  size_t size_##R(const A<R>& a){ return a.size(); } \
  bool empty_##R(const A<R>& a){ return a.empty(); } \
  size_t rank_##R(const A<R>& a){ return a.rank(); } \
  bool lt_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n<a.begin()+m; } \
  bool gt_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n>a.begin()+m; } \
  bool le_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n<=a.begin()+m; } \
  bool ge_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n>=a.begin()+m; } \
  bool rlt_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.rbegin()+n<a.rbegin()+m; } \
  bool rgt_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.rbegin()+n>a.rbegin()+m; } \
  bool rle_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.rbegin()+n<=a.rbegin()+m; } \
  bool rge_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.rbegin()+n>=a.rbegin()+m; } \
  bool eq_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n==a.begin()+m; } \
  bool ne_##R(A<R>& a,std::ptrdiff_t n,std::ptrdiff_t m){ return a.begin()+n!=a.begin()+m; }
ITER(1) ITER(2) ITER(3) ITER(4)
// coordinates of the n-th element
#define COORD(R,D) size_t coord_##R##_##D(A<R>& a, std::ptrdiff_t n){ return a.getCoordinate(a.begin()+n,D); } \
   size_t rcoord_##R##_##D(A<R>& a, std::ptrdiff_t n){ return a.getCoordinate(a.rbegin()+n,D); }
COORD(1,0) COORD(2,0) COORD(2,1) COORD(3,0) COORD(3,1) COORD(3,2) COORD(4,0) COORD(4,1) COORD(4,2) COORD(4,3)
template<unsigned R> size_t coord_any(A<R>& a, std::ptrdiff_t n, size_t d){ return a.getCoordinate(a.begin()+n,d); }
}
