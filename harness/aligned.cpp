// instantiations of the aligned allocator
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <new>
#include <limits>
#include <type_traits>
#include <utility>
#include <nuSQuIDS/aligned_alloc.h>
namespace vp{
struct S24{ double d[3]; };
struct S1000{ char c[1000]; };
template<typename T,int P> T* take(std::size_t n){ aligned_allocator<T> al(P); return al.allocate(n); }
template<typename T,int P> void give(T* p, std::size_t n){ aligned_allocator<T> al(P); al.deallocate(p,n); }
template<typename T,int P> void cycle(std::size_t n){ aligned_allocator<T> al(P); T* p=al.allocate(n); al.deallocate(p,n); }
template<typename T> void give_any(aligned_allocator<T>& al, T* p, std::size_t n){ al.deallocate(p,n); }
template<typename T> void get(aligned_allocator<T>* out,const aligned_allocator<T>& o){ ::new(out) aligned_allocator<T>(o); }
template<typename T,typename U> void conv(aligned_allocator<T>* out,const aligned_allocator<U>& o){ ::new(out) aligned_allocator<T>(o); }
template<typename T> void mk(aligned_allocator<T>* out,uint8_t a){ ::new(out) aligned_allocator<T>(a); }
bool eq(const aligned_allocator<double>& a,const aligned_allocator<double>& b){ return a==b; }
bool ne(const aligned_allocator<double>& a,const aligned_allocator<double>& b){ return a!=b; }
template void give_any<double>(aligned_allocator<double>&,double*,std::size_t);
template void get<double>(aligned_allocator<double>*,const aligned_allocator<double>&);
template void conv<double,S24>(aligned_allocator<double>*,const aligned_allocator<S24>&);
template void mk<double>(aligned_allocator<double>*,uint8_t);
#define I(P) template double* take<double,P>(std::size_t); template void cycle<double,P>(std::size_t); template char* take<char,P>(std::size_t); template void cycle<char,P>(std::size_t); \
 template S24* take<S24,P>(std::size_t); template void cycle<S24,P>(std::size_t); template S1000* take<S1000,P>(std::size_t); template void cycle<S1000,P>(std::size_t);
I(0) I(1) I(2) I(3) I(4) I(5) I(6) I(7) I(8) I(9) I(10) I(11) I(12) I(13) I(14) I(15) I(16) I(17) I(18) I(19) I(20) I(21) I(22) I(23) I(24) I(25) I(26) I(27) I(28) I(29) I(30) I(31)
}
