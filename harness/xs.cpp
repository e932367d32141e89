// Entry points of the cross-section classes: the real source, included.
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <limits>
#include <algorithm>
#include <xsections.cpp>
namespace vp{
using N=nusquids::NeutrinoCrossSections;
using T=nusquids::NeutrinoDISCrossSectionsFromTables;
using T1=nusquids::NeutrinoDISCrossSectionsFromTables_V1;
using L=nusquids::CrossSectionLibrary;
// where the virtual functions are
double slot_total(const N& x,double e,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.TotalCrossSection(e,f,t,c); }
double slot_single(const N& x,double e,double o,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.SingleDifferentialCrossSection(e,o,f,t,c); }
double slot_avtotal(const N& x,double e,double o,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.AverageTotalCrossSection(e,o,f,t,c); }
double slot_avsingle(const N& x,double e,double a,double b,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.AverageSingleDifferentialCrossSection(e,a,b,f,t,c); }
// where the energy range is
double emin(const T& x){ return x.GetEmin(); }
double emax(const T& x){ return x.GetEmax(); }
double emin1(const T1& x){ return x.GetEmin(); }
double emax1(const T1& x){ return x.GetEmax(); }
unsigned int nume1(const T1& x){ return x.GetNumE(); }
double null_total(const nusquids::NullCrossSections& x,double e,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.nusquids::NullCrossSections::TotalCrossSection(e,f,t,c); }
double null_single(const nusquids::NullCrossSections& x,double e,double o,N::NeutrinoFlavor f,N::NeutrinoType t,N::Current c){ return x.nusquids::NullCrossSections::SingleDifferentialCrossSection(e,o,f,t,c); }
double branching(N::NeutrinoFlavor f){ return nusquids::GlashowResonanceCrossSection::WDecayBranchingFraction(f); }
void make(void* p,const std::string& s){ new(p) T(s); }
void make1(void* p,const std::string& s){ new(p) T1(s); }
void makeg(void* p){ new(p) nusquids::GlashowResonanceCrossSection(); }
void copyg(void* p,const nusquids::GlashowResonanceCrossSection& o){ new(p) nusquids::GlashowResonanceCrossSection(o); }
void moveg(void* p,nusquids::GlashowResonanceCrossSection&& o){ new(p) nusquids::GlashowResonanceCrossSection(std::move(o)); }
void add(L& l,nusquids::PDGCode c,const std::shared_ptr<N>& x){ l.addTarget(c,x); }
void addcopy(L& l,nusquids::PDGCode c,const nusquids::NullCrossSections& x){ l.addTarget(c,nusquids::NullCrossSections(x)); }
}
