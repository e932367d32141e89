// saving and restoring a propagator, with its own source
#include "terms.cpp"
extern "C"{ void vp_save_body(const void*,long); void vp_save_track(const void*,long); }
namespace vp{
struct SB : B{ void Serialize(hid_t g) const override{ vp_save_body(this,g); } };
struct ST : Body::Track{ using Body::Track::Track; void Serialize(hid_t g) const override{ vp_save_track(this,g); } void FillDerivedParams(std::vector<double>&) const override{} };
void c_sbody(void* p){ new(p) SB; }
void c_strack(void* p){ new(p) ST(0,1); }
void Write(const N& n,const std::string& f,const std::string& g,bool x,const std::string& l,bool o){ n.WriteStateHDF5(f,g,x,l,o); }
void Read(N& n,const std::string& f,const std::string& g,const std::string& l){ n.ReadStateHDF5(f,g,l); }
void Read_shared(N& n,const std::string& f,const std::string& g,std::shared_ptr<nuSQUIDS::InteractionStructure> s){ static_cast<nuSQUIDS&>(n).ReadStateHDF5Internal(f,g,s); }
double Time(const N& n){ return n.Get_t(); }
double Time_initial(const N& n){ return n.Get_t_initial(); }
bool Oscillations(const N& n){ return n.GetUseOscillations(); }
bool Interactions(const N& n){ return n.GetUseInteractions(); }
std::shared_ptr<const nuSQUIDS::InteractionStructure> Tables(const N& n){ return n.GetInteractionStructure(); }
}
