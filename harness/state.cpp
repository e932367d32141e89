// the propagators' special members, with the propagator's own source
#include "nuSQuIDS.cpp"
#include <utility>
namespace vp{
using nusquids::nuSQUIDS;
using Atm=nusquids::nuSQUIDSAtm<nuSQUIDS>;
using IS=nuSQUIDS::InteractionStructure;
using ST=nuSQUIDS::InteractionState;
// construction in place of an object from another, assignment
void mc_nusquids(void* p,nuSQUIDS& o){ new(p) nuSQUIDS(std::move(o)); }
void ma_nusquids(nuSQUIDS& d,nuSQUIDS& o){ d=std::move(o); }
void mc_atm(void* p,Atm& o){ new(p) Atm(std::move(o)); }
void ma_atm(Atm& d,Atm& o){ d=std::move(o); }
void mc_structure(void* p,IS& o){ new(p) IS(std::move(o)); }
void ma_structure(IS& d,IS& o){ d=std::move(o); }
void cc_structure(void* p,IS& o){ new(p) IS(o); }
void ca_structure(IS& d,const IS& o){ d=o; }
bool eq_structure(const IS& d,const IS& o){ return d==o; }
bool ne_structure(const IS& d,const IS& o){ return d!=o; }
void mc_state(void* p,ST& o){ new(p) ST(std::move(o)); }
void ma_state(ST& d,ST& o){ d=std::move(o); }
void cc_state(void* p,ST& o){ new(p) ST(o); }
void ca_state(ST& d,const ST& o){ d=o; }
bool eq_state(const ST& d,const ST& o){ return d==o; }
bool ne_state(const ST& d,const ST& o){ return d!=o; }
}
// other classes whose objects are copied or moved into the propagators
#include "xsections.cpp"
namespace vp{
#define SPECIAL(n,C) \
void mc_##n(void* p,C& o){ new(p) C(std::move(o)); } \
void ma_##n(C& d,C& o){ d=std::move(o); } \
void cc_##n(void* p,const C& o){ new(p) C(o); } \
void ca_##n(C& d,const C& o){ d=o; }
SPECIAL(decay,nusquids::TauDecaySpectra)
SPECIAL(akima,nusquids::AkimaSpline)
SPECIAL(tricubic,nusquids::TriCubicInterpolator)
SPECIAL(bicubic,nusquids::BiCubicInterpolator)
SPECIAL(tables,nusquids::NeutrinoDISCrossSectionsFromTables)
SPECIAL(tablesv1,nusquids::NeutrinoDISCrossSectionsFromTables_V1)
SPECIAL(glashow,nusquids::GlashowResonanceCrossSection)
SPECIAL(library,nusquids::CrossSectionLibrary)
SPECIAL(earthtrack,nusquids::EarthAtm::Track)
SPECIAL(chordtrack,nusquids::Earth::Track)
SPECIAL(earthatm,nusquids::EarthAtm)
SPECIAL(earth,nusquids::Earth)
SPECIAL(sun,nusquids::Sun)
SPECIAL(sunasnu,nusquids::SunASnu)
SPECIAL(constdens,nusquids::ConstantDensity)
SPECIAL(vardens,nusquids::VariableDensity)
}
