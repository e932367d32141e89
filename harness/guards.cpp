// the propagator's public operations, with the propagator's own source
#include "nuSQuIDS.cpp"
namespace vp{
using namespace nusquids;
using N=nuSQUIDS;
using M1=marray<double,1>; using M2=marray<double,2>; using M3=marray<double,3>;
void c_multi(void* p,const M1& E,unsigned n,NeutrinoType t,bool i){ new(p) N(E,n,t,i); }
void c_single(void* p,unsigned n,NeutrinoType t){ new(p) N(n,t); }
void c_empty(void* p){ new(p) N(); }
void Set_E(N& n,double E){ n.Set_E(E); }
void Set_Body(N& n,std::shared_ptr<Body> b){ n.Set_Body(b); }
void Set_Track(N& n,std::shared_ptr<Track> b){ n.Set_Track(b); }
void EvolveState(N& n){ n.EvolveState(); }
void Set_initial_state_1(N& n,const M1& v,Basis b){ n.Set_initial_state(v,b); }
void Set_initial_state_2(N& n,const M2& v,Basis b){ n.Set_initial_state(v,b); }
void Set_initial_state_3(N& n,const M3& v,Basis b){ n.Set_initial_state(v,b); }
double EvalMass_E(const N& n,unsigned f,double E,unsigned r){ return n.EvalMass(f,E,r); }
double EvalFlavor_E(const N& n,unsigned f,double E,unsigned r){ return n.EvalFlavor(f,E,r); }
double EvalMass_A(const N& n,unsigned f,double E,unsigned r,double s,std::vector<bool>& a){ return n.EvalMass(f,E,r,s,a); }
double EvalFlavor_A(const N& n,unsigned f,double E,unsigned r,double s,std::vector<bool>& a){ return n.EvalFlavor(f,E,r,s,a); }
double EvalMassAtNode(const N& n,unsigned f,unsigned e,unsigned r){ return n.EvalMassAtNode(f,e,r); }
double EvalFlavorAtNode(const N& n,unsigned f,unsigned e,unsigned r){ return n.EvalFlavorAtNode(f,e,r); }
double EvalMass_SA(const N& n,unsigned f,double s,std::vector<bool>& a){ return n.EvalMass(f,s,a); }
double EvalFlavor_SA(const N& n,unsigned f,double s,std::vector<bool>& a){ return n.EvalFlavor(f,s,a); }
double EvalMass_S(const N& n,unsigned f){ return n.EvalMass(f); }
double EvalFlavor_S(const N& n,unsigned f){ return n.EvalFlavor(f); }
void GetHamiltonian(void* o,N& n,unsigned e,unsigned r){ new(o) squids::SU_vector(n.GetHamiltonian(e,r)); }
void Set_MixingAngle(N& n,unsigned i,unsigned j,double v){ n.N::Set_MixingAngle(i,j,v); }
double Get_MixingAngle(const N& n,unsigned i,unsigned j){ return n.Get_MixingAngle(i,j); }
void Set_CPPhase(N& n,unsigned i,unsigned j,double v){ n.N::Set_CPPhase(i,j,v); }
double Get_CPPhase(const N& n,unsigned i,unsigned j){ return n.Get_CPPhase(i,j); }
void Set_SquareMassDifference(N& n,unsigned i,double v){ n.N::Set_SquareMassDifference(i,v); }
double Get_SquareMassDifference(const N& n,unsigned i){ return n.Get_SquareMassDifference(i); }
void Set_MixingParametersToDefault(N& n){ n.Set_MixingParametersToDefault(); }
void Set_TauRegeneration(N& n,bool b){ n.Set_TauRegeneration(b); }
void Set_GlashowResonance(N& n,bool b){ n.Set_GlashowResonance(b); }
void Set_Basis(N& n,Basis b){ n.Set_Basis(b); }
void InitializeInteractions(N& n){ n.InitializeInteractions(); }
void GetInteractionStructure(void* o,N& n){ new(o) std::shared_ptr<N::InteractionStructure>(n.GetInteractionStructure()); }
void GetInteractionStructure_c(void* o,const N& n){ new(o) std::shared_ptr<const N::InteractionStructure>(n.GetInteractionStructure()); }
void SetNeutrinoCrossSections(N& n,std::shared_ptr<CrossSectionLibrary> x){ n.SetNeutrinoCrossSections(x); }
void WriteStateHDF5(const N& n,std::string f,std::string g,bool x,std::string l,bool o){ n.WriteStateHDF5(f,g,x,l,o); }
// plain settings and what reads them back
bool GetUseInteractions(const N& n){ return n.GetUseInteractions(); }
bool GetUseOscillations(const N& n){ return n.GetUseOscillations(); }
void Set_IncludeOscillations(N& n,bool b){ n.Set_IncludeOscillations(b); }
size_t GetNumE(const N& n){ return n.GetNumE(); }
unsigned GetNumNeu(const N& n){ return n.GetNumNeu(); }
unsigned GetNumRho(const N& n){ return n.GetNumRho(); }
const squids::SU_vector& GetState(const N& n,unsigned e,unsigned r){ return n.GetState(e,r); }
const squids::SU_vector& GetFlavorProj(const N& n,unsigned f,unsigned r){ return n.GetFlavorProj(f,r); }
const squids::SU_vector& GetMassProj(const N& n,unsigned f,unsigned r){ return n.GetMassProj(f,r); }
}
