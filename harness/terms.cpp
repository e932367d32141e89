// the terms of the evolution equation, with the propagator's own source
#include "nuSQuIDS.cpp"
extern "C"{
double vp_density(const void* track); double vp_ye(const void* track); void vp_flux(void* array,const void* track); bool vp_constant();
double vp_total(const void* target,double e,int flavour,int type,int current);
double vp_single(const void* target,double e1,double e2,int flavour,int type,int current);
double vp_avtotal(const void* target,double a,double b,int flavour,int type,int current);
double vp_avsingle(const void* target,double e1,double a,double b,int flavour,int type,int current);
}
namespace vp{
using namespace nusquids;
using M1=marray<double,1>; using M2=marray<double,2>; using M3=marray<double,3>;
struct B : Body{
  void Serialize(hid_t) const override{}
  double density(const Track& t) const override{ return vp_density(&t); }
  double ye(const Track& t) const override{ return vp_ye(&t); }
  bool IsConstantDensity() const override{ return vp_constant(); }
  void injected_neutrino_flux(marray<double,3>& f,const Track& t,const nuSQUIDS&) override{ vp_flux(&f,&t); }
};
struct T : NeutrinoCrossSections{
  double TotalCrossSection(double e,NeutrinoFlavor f,NeutrinoType t,Current c) const override{ return vp_total(this,e,f,t,c); }
  double SingleDifferentialCrossSection(double a,double b,NeutrinoFlavor f,NeutrinoType t,Current c) const override{ return vp_single(this,a,b,f,t,c); }
  double AverageTotalCrossSection(double a,double b,NeutrinoFlavor f,NeutrinoType t,Current c) const override{ return vp_avtotal(this,a,b,f,t,c); }
  double AverageSingleDifferentialCrossSection(double e,double a,double b,NeutrinoFlavor f,NeutrinoType t,Current c) const override{ return vp_avsingle(this,e,a,b,f,t,c); }
};
struct N : nuSQUIDS{
  N(const M1& E,unsigned n,NeutrinoType t,bool i):nuSQUIDS(E,n,t,i){}
  N(unsigned n,NeutrinoType t):nuSQUIDS(n,t){}
  squids::SU_vector h0(double e,unsigned r) const{ return this->nuSQUIDS::H0(e,r); }
  squids::SU_vector hi(unsigned e,unsigned r) const{ return this->nuSQUIDS::HI(e,r); }
  squids::SU_vector gamma(unsigned e,unsigned r) const{ return this->nuSQUIDS::GammaRho(e,r); }
  squids::SU_vector inter(unsigned e,unsigned r) const{ return this->nuSQUIDS::InteractionsRho(e,r); }
  void pre(double x){ this->nuSQUIDS::PreDerive(x); }
  void cache(){ this->SetUpInteractionCache(); }
};
void c_multi(void* p,const M1& E,unsigned n,NeutrinoType t,bool i){ new(p) N(E,n,t,i); }
void c_single(void* p,unsigned n,NeutrinoType t){ new(p) N(n,t); }
void c_body(void* p){ new(p) B; }
void c_target(void* p){ new(p) T; }
void H0(void* o,N& n,double e,unsigned r){ new(o) squids::SU_vector(n.h0(e,r)); }
void HI(void* o,N& n,unsigned e,unsigned r){ new(o) squids::SU_vector(n.hi(e,r)); }
void GammaRho(void* o,N& n,unsigned e,unsigned r){ new(o) squids::SU_vector(n.gamma(e,r)); }
void InteractionsRho(void* o,N& n,unsigned e,unsigned r){ new(o) squids::SU_vector(n.inter(e,r)); }
void PreDerive(N& n,double x){ n.pre(x); }
void Cache(N& n){ n.cache(); }
void GetHamiltonian(void* o,N& n,unsigned e,unsigned r){ new(o) squids::SU_vector(n.GetHamiltonian(e,r)); }
void Set_E(N& n,double E){ n.Set_E(E); }
void Set_Body(N& n,std::shared_ptr<Body> b){ n.Set_Body(b); }
void Set_Track(N& n,std::shared_ptr<Track> b){ n.Set_Track(b); }
void EvolveState(N& n){ n.EvolveState(); }
void Set_initial_state_1(N& n,const M1& v,Basis b){ n.Set_initial_state(v,b); }
void Set_initial_state_2(N& n,const M2& v,Basis b){ n.Set_initial_state(v,b); }
void Set_initial_state_3(N& n,const M3& v,Basis b){ n.Set_initial_state(v,b); }
void Set_MixingAngle(N& n,unsigned i,unsigned j,double v){ n.nuSQUIDS::Set_MixingAngle(i,j,v); }
void Set_CPPhase(N& n,unsigned i,unsigned j,double v){ n.nuSQUIDS::Set_CPPhase(i,j,v); }
void Set_SquareMassDifference(N& n,unsigned i,double v){ n.nuSQUIDS::Set_SquareMassDifference(i,v); }
void Set_TauRegeneration(N& n,bool b){ n.Set_TauRegeneration(b); }
void Set_GlashowResonance(N& n,bool b){ n.Set_GlashowResonance(b); }
void Set_IncludeOscillations(N& n,bool b){ n.Set_IncludeOscillations(b); }
void Set_NeutrinoSources(N& n,bool b){ n.Set_NeutrinoSources(b); }
void Set_EvolLowPassCutoff(N& n,double v){ n.Set_EvolLowPassCutoff(v); }
void Set_EvolLowPassScale(N& n,double v){ n.Set_EvolLowPassScale(v); }
void Set_PositivityConstrain(N& n,bool b){ n.Set_PositivityConstrain(b); }
void Set_PositivityConstrainStep(N& n,double v){ n.Set_PositivityConstrainStep(v); }
void Set_AllowConstantDensityOscillationOnlyEvolution(N& n,bool b){ n.Set_AllowConstantDensityOscillationOnlyEvolution(b); }
void Set_Basis(N& n,Basis b){ n.Set_Basis(b); }
void InitializeInteractions(N& n){ n.InitializeInteractions(); }
void SetNeutrinoCrossSections(N& n,std::shared_ptr<CrossSectionLibrary> x){ n.SetNeutrinoCrossSections(x); }
const squids::SU_vector& GetState(const N& n,unsigned e,unsigned r){ return n.GetState(e,r); }
const squids::SU_vector& GetFlavorProj(const N& n,unsigned f,unsigned r){ return n.GetFlavorProj(f,r); }
const squids::SU_vector& GetMassProj(const N& n,unsigned f,unsigned r){ return n.GetMassProj(f,r); }
double Get_MixingAngle(const N& n,unsigned i,unsigned j){ return n.Get_MixingAngle(i,j); }
double Get_CPPhase(const N& n,unsigned i,unsigned j){ return n.Get_CPPhase(i,j); }
double Get_SquareMassDifference(const N& n,unsigned i){ return n.Get_SquareMassDifference(i); }
unsigned long GetNumE(const N& n){ return n.GetNumE(); }
unsigned int GetNumNeu(const N& n){ return n.GetNumNeu(); }
unsigned int GetNumRho(const N& n){ return n.GetNumRho(); }
void GetERange(void* o,const N& n){ new(o) M1(n.GetERange()); }
double EvalMass_E(const N& n,unsigned f,double E,unsigned r){ return n.EvalMass(f,E,r); }
double EvalFlavor_E(const N& n,unsigned f,double E,unsigned r){ return n.EvalFlavor(f,E,r); }
double EvalMass_A(const N& n,unsigned f,double E,unsigned r,double s,std::vector<bool>& a){ return n.EvalMass(f,E,r,s,a); }
double EvalFlavor_A(const N& n,unsigned f,double E,unsigned r,double s,std::vector<bool>& a){ return n.EvalFlavor(f,E,r,s,a); }
double EvalMassAtNode(const N& n,unsigned f,unsigned e,unsigned r){ return n.EvalMassAtNode(f,e,r); }
double EvalFlavorAtNode(const N& n,unsigned f,unsigned e,unsigned r){ return n.EvalFlavorAtNode(f,e,r); }
double EvalMass_SA(const N& n,unsigned f,double s,std::vector<bool>& a){ return n.EvalMass(f,s,a); }
double EvalFlavor_SA(const N& n,unsigned f,double s,std::vector<bool>& a){ return n.EvalFlavor(f,s,a); }
double EvalMass_S(const N& n,unsigned f){ return n.EvalMass(f); }
double EvalFlavor_S(const N& n,unsigned f){ return n.EvalFlavor(f); }
}
