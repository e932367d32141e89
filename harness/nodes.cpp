// the public face of the atmospheric propagator
#include <nuSQuIDS/nuSQuIDS.h>
namespace vp{
using namespace nusquids;
using A=nuSQUIDSAtm<nuSQUIDS>; using XS=std::shared_ptr<CrossSectionLibrary>;
using M1=marray<double,1>; using M2=marray<double,2>; using M3=marray<double,3>; using M4=marray<double,4>;
void c_atm(void* p,const M1& c,const M1& E,unsigned n,NeutrinoType t,bool i){ new(p) A(c,E,n,t,i); }
#define D(f) void f(A& a,double x){ a.f(x); } void f##_at(A& a,double x,unsigned k){ a.f(x,k); }
D(Set_h) D(Set_h_max) D(Set_h_min) D(Set_abs_error) D(Set_rel_error)
#define X(f) void f(A& a,double x){ a.f(x); }
X(Set_PositivityConstrainStep) X(Set_EvolLowPassCutoff) X(Set_EvolLowPassScale)
#define B(f) void f(A& a,bool x){ a.f(x); }
B(Set_ProgressBar) B(Set_TauRegeneration) B(Set_GlashowResonance) B(Set_IncludeOscillations) B(Set_AllowConstantDensityOscillationOnlyEvolution) B(Set_PositivityConstrain) B(Set_NeutrinoSources)
void Set_MixingParametersToDefault(A& a){ a.Set_MixingParametersToDefault(); }
void Set_MixingAngle(A& a,unsigned i,unsigned j,double x){ a.Set_MixingAngle(i,j,x); }
void Set_CPPhase(A& a,unsigned i,unsigned j,double x){ a.Set_CPPhase(i,j,x); }
void Set_SquareMassDifference(A& a,unsigned i,double x){ a.Set_SquareMassDifference(i,x); }
double Get_MixingAngle(A& a,unsigned i,unsigned j){ return a.Get_MixingAngle(i,j); }
double Get_CPPhase(A& a,unsigned i,unsigned j){ return a.Get_CPPhase(i,j); }
double Get_SquareMassDifference(A& a,unsigned i){ return a.Get_SquareMassDifference(i); }
void Set_GSL_step(A& a,const gsl_odeiv2_step_type* s){ a.Set_GSL_step(s); }
void Set_EvalThreads(A& a,unsigned n){ a.Set_EvalThreads(n); }
unsigned Get_EvalThreads(A& a){ return a.Get_EvalThreads(); }
void Set_EarthModel(A& a,std::shared_ptr<EarthAtm>& e){ a.Set_EarthModel(e); }
void SetNeutrinoCrossSections(A& a,XS& x){ a.SetNeutrinoCrossSections(x); }
void Set_initial_state_3(A& a,const M3& v,Basis b){ a.Set_initial_state(v,b); }
void Set_initial_state_4(A& a,const M4& v,Basis b){ a.Set_initial_state(v,b); }
void EvolveState(A& a){ a.EvolveState(); }
// what a node's virtual functions are
struct Node:public nuSQUIDS{ using nuSQUIDS::nuSQUIDS; };
nuSQUIDS* node(){ return new Node; }
double EvalFlavor(A& a,unsigned f,double c,double e,unsigned r){ return a.EvalFlavor(f,c,e,r); }
double EvalFlavor_A(A& a,unsigned f,double c,double e,unsigned r,double s,std::vector<bool>& v){ return a.EvalFlavor(f,c,e,r,s,v); }
const nuSQUIDS& GetnuSQuIDS(A& a,unsigned i){ return a.GetnuSQuIDS(i); }
unsigned long GetNumE(A& a){ return a.GetNumE(); }
unsigned long GetNumCos(A& a){ return a.GetNumCos(); }
unsigned GetNumNeu(A& a){ return a.GetNumNeu(); }
unsigned GetNumRho(A& a){ return a.GetNumRho(); }
void GetStates(void* o,A& a,unsigned r){ new(o) M2(a.GetStates(r)); }
}
