// entry points for the HDF5 helpers; every helper is called through here at the types the library uses
#include <cstdint>
#include <type_traits>
#include <nuSQuIDS/tools.h>
using namespace nusquids;
typedef const std::string& S;
extern "C" void vp_use(hid_t);
namespace vp{
void w_dd1(hid_t l,S n,const marray<double,1>& a,unsigned int c){ writeArrayH5<double>(l,n,a,c); }
void w_dd2(hid_t l,S n,const marray<double,2>& a,unsigned int c){ writeArrayH5<double>(l,n,a,c); }
void w_dd3(hid_t l,S n,const marray<double,3>& a,unsigned int c){ writeArrayH5<double>(l,n,a,c); }
void w_fd2(hid_t l,S n,const marray<double,2>& a,unsigned int c){ writeArrayH5<float>(l,n,a,c); }
void w_df2(hid_t l,S n,const marray<float,2>& a,unsigned int c){ writeArrayH5<double>(l,n,a,c); }
void w_ii1(hid_t l,S n,const marray<int,1>& a,unsigned int c){ writeArrayH5<int>(l,n,a,c); }
void w_uu1(hid_t l,S n,const marray<unsigned int,1>& a,unsigned int c){ writeArrayH5<unsigned int>(l,n,a,c); }
void r_d1(hid_t l,S n,marray<double,1>& a){ readArrayH5(l,n,a); }
void r_d2(hid_t l,S n,marray<double,2>& a){ readArrayH5(l,n,a); }
void r_d3(hid_t l,S n,marray<double,3>& a){ readArrayH5(l,n,a); }
void r_f2(hid_t l,S n,marray<float,2>& a){ readArrayH5(l,n,a); }
void r_i1(hid_t l,S n,marray<int,1>& a){ readArrayH5(l,n,a); }
void r_u1(hid_t l,S n,marray<unsigned int,1>& a){ readArrayH5(l,n,a); }
void wa_d(hid_t l,S n,const double& x){ addH5Attribute<double>(l,n,x); }
void wa_f(hid_t l,S n,const float& x){ addH5Attribute<float>(l,n,x); }
void wa_i(hid_t l,S n,const int& x){ addH5Attribute<int>(l,n,x); }
void wa_u(hid_t l,S n,const unsigned int& x){ addH5Attribute<unsigned int>(l,n,x); }
void ra_d(hid_t l,S n,double& x){ readH5Attribute<double>(l,n,x); }
void ra_f(hid_t l,S n,float& x){ readH5Attribute<float>(l,n,x); }
void ra_i(hid_t l,S n,int& x){ readH5Attribute<int>(l,n,x); }
void ra_u(hid_t l,S n,unsigned int& x){ readH5Attribute<unsigned int>(l,n,x); }
typedef herr_t(*D)(hid_t);
#define LAY(N,T,R) size_t x##N##ext_##R(const marray<T,R>& a,size_t d){ return a.extent(d); } size_t x##N##size_##R(const marray<T,R>& a){ return a.size(); } const T* x##N##data_##R(const marray<T,R>& a){ return a.get_data(); }
LAY(d,double,1) LAY(d,double,2) LAY(d,double,3) LAY(f,float,2) LAY(i,int,1) LAY(u,unsigned int,1)
// life cycles of the owning handles; vp_use stands for anything that uses the identifier, and may throw
void h_scope(hid_t i,D d){ H5Handle a(i,d,"x"); vp_use(a); }
void h_get(hid_t i,D d){ H5Handle a(i,d,"x"); vp_use(a.get()); }
void h_nodesc(hid_t i,D d){ H5Handle a(i,d,nullptr); vp_use(a); }
void h_move(hid_t i,D d){ H5Handle a(i,d,"x"); H5Handle b(std::move(a)); vp_use(b); }
void h_assign(hid_t i,D d,hid_t j,D e){ H5Handle b(j,e,"y"); H5Handle a(i,d,"x"); b=std::move(a); vp_use(b); }
void h_assign2(hid_t i,D d,hid_t j,D e){ H5Handle a(i,d,"x"); H5Handle b(j,e,"y"); b=std::move(a); vp_use(b); }
void h_temp(hid_t i,D d){ H5Handle a; a=H5Handle(i,d,"x"); vp_use(a); }
void h_self(hid_t i,D d){ H5Handle a(i,d,"x"); H5Handle& r=a; a=std::move(r); vp_use(a); }
void h_reset(hid_t i,D d){ H5Handle a(i,d,"x"); vp_use(a); a=H5Handle(); }
void h_empty(){ H5Handle a; H5Handle b(std::move(a)); H5Handle c; c=std::move(b); }
bool h_copies(){ return std::is_copy_constructible<H5Handle>::value || std::is_constructible<H5Handle,H5Handle&>::value || std::is_copy_assignable<H5Handle>::value || std::is_assignable<H5Handle&,H5Handle&>::value; }
void f_scope(hid_t i){ H5File a(i); vp_use(a); }
void f_move(hid_t i){ H5File a(i); H5File b(std::move(a)); vp_use(b); }
void f_assign(hid_t i,hid_t j){ H5File b(j); H5File a(i); b=std::move(a); vp_use(b); }
void f_assign2(hid_t i,hid_t j){ H5File a(i); H5File b(j); b=std::move(a); vp_use(b); }
void f_temp(hid_t i,hid_t j){ H5File a(j); a=H5File(i); vp_use(a); }
void f_self(hid_t i){ H5File a(i); H5File& r=a; a=std::move(r); vp_use(a); }
bool f_copies(){ return std::is_copy_constructible<H5File>::value || std::is_constructible<H5File,H5File&>::value || std::is_copy_assignable<H5File>::value || std::is_assignable<H5File&,H5File&>::value; }
}
