// where multidimensional arrays keep their parts
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <nuSQuIDS/marray.h>
#include <nuSQuIDS/aligned_alloc.h>
namespace vp{
typedef nusquids::marray<double,1> G;
typedef nusquids::marray<double,3,aligned_allocator<double>> T;
std::size_t ext_1(const G& a,std::size_t d){ return a.extent(d); }
std::size_t size_1(const G& a){ return a.size(); }
double* data_1(const G& a){ return a.get_data(); }
std::size_t ext_3(const T& a,std::size_t d){ return a.extent(d); }
std::size_t size_3(const T& a){ return a.size(); }
double* data_3(const T& a){ return a.get_data(); }
}
#include <nuSQuIDS/taudecay.h>
namespace vp{
double br_lepton(const nusquids::TauDecaySpectra& t){ return t.GetTauToLeptonBranchingRatio(); }
double br_hadron(const nusquids::TauDecaySpectra& t){ return t.GetTauToHadronBranchingRatio(); }
}
