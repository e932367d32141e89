// entry points for every way of making or changing a body or a track
#include <body.cpp>
#include <new>
namespace vp{
using namespace nusquids;
typedef std::vector<double> V;
void mk_Vacuum_1(Vacuum* p){ new(p) Vacuum(); }
void mk_ConstantDensity_1(ConstantDensity* p, double a, double b){ new(p) ConstantDensity(a,b); }
void mk_VariableDensity_1(VariableDensity* p, V& a, V& b, V& c){ new(p) VariableDensity(std::move(a),std::move(b),std::move(c)); }
void mk_Earth_1(Earth* p, V& a, V& b, V& c){ new(p) Earth(std::move(a),std::move(b),std::move(c)); }
void mk_Earth_2(Earth* p, const std::string& f){ new(p) Earth(f); }
void mk_Earth_3(Earth* p){ new(p) Earth(); }
void mk_Sun_1(Sun* p, V& a, V& b, V& c){ new(p) Sun(std::move(a),std::move(b),std::move(c)); }
void mk_Sun_2(Sun* p, const std::string& f){ new(p) Sun(f); }
void mk_Sun_3(Sun* p){ new(p) Sun(); }
void mk_SunASnu_1(SunASnu* p, V& a, V& b, V& c){ new(p) SunASnu(std::move(a),std::move(b),std::move(c)); }
void mk_SunASnu_2(SunASnu* p, const std::string& f){ new(p) SunASnu(f); }
void mk_SunASnu_3(SunASnu* p){ new(p) SunASnu(); }
void mk_EarthAtm_1(EarthAtm* p, V& a, V& b, V& c){ new(p) EarthAtm(std::move(a),std::move(b),std::move(c)); }
void mk_EarthAtm_2(EarthAtm* p, const std::string& f){ new(p) EarthAtm(f); }
void mk_EarthAtm_3(EarthAtm* p){ new(p) EarthAtm(); }
void mk_VacuumTrack_1(Vacuum::Track* p, double a, double b, double c){ new(p) Vacuum::Track(a,b,c); }
void mk_VacuumTrack_2(Vacuum::Track* p, double a, double b){ new(p) Vacuum::Track(a,b); }
void mk_VacuumTrack_3(Vacuum::Track* p, double a){ new(p) Vacuum::Track(a); }
void mk_ConstantDensityTrack_1(ConstantDensity::Track* p, double a, double b, double c){ new(p) ConstantDensity::Track(a,b,c); }
void mk_ConstantDensityTrack_2(ConstantDensity::Track* p, double a, double b){ new(p) ConstantDensity::Track(a,b); }
void mk_ConstantDensityTrack_3(ConstantDensity::Track* p, double a){ new(p) ConstantDensity::Track(a); }
void mk_VariableDensityTrack_1(VariableDensity::Track* p, double a, double b, double c){ new(p) VariableDensity::Track(a,b,c); }
void mk_VariableDensityTrack_2(VariableDensity::Track* p, double a, double b){ new(p) VariableDensity::Track(a,b); }
void mk_VariableDensityTrack_3(VariableDensity::Track* p, double a){ new(p) VariableDensity::Track(a); }
void mk_EarthTrack_1(Earth::Track* p, double a, double b, double c, double d){ new(p) Earth::Track(a,b,c,d); }
void mk_EarthTrack_2(Earth::Track* p, double a, double b, double c){ new(p) Earth::Track(a,b,c); }
void mk_EarthTrack_3(Earth::Track* p, double a){ new(p) Earth::Track(a); }
void mk_SunTrack_1(Sun::Track* p, double a, double b, double c){ new(p) Sun::Track(a,b,c); }
void mk_SunTrack_2(Sun::Track* p, double a, double b){ new(p) Sun::Track(a,b); }
void mk_SunTrack_3(Sun::Track* p, double a){ new(p) Sun::Track(a); }
void mk_SunASnuTrack_1(SunASnu::Track* p, double a, double b, double c){ new(p) SunASnu::Track(a,b,c); }
void mk_SunASnuTrack_2(SunASnu::Track* p, double a, double b){ new(p) SunASnu::Track(a,b); }
void mk_SunASnuTrack_3(SunASnu::Track* p, double a){ new(p) SunASnu::Track(a); }
void mk_EarthAtmTrack_1(EarthAtm::Track* p, double a, double b, double c, double d){ new(p) EarthAtm::Track(a,b,c,d); }
void mk_EarthAtmTrack_2(EarthAtm::Track* p, double a, double b, double c){ new(p) EarthAtm::Track(a,b,c); }
void mk_EarthAtmTrack_3(EarthAtm::Track* p, double a, double b, double c){ new(p) EarthAtm::Track(EarthAtm::Track::MakeWithCosine(a,b,c)); }
void mk_EarthAtmTrack_4(EarthAtm::Track* p, EarthAtm* e, double a){ new(p) EarthAtm::Track(e->MakeTrack(a)); }
void mk_EarthAtmTrack_5(EarthAtm::Track* p, EarthAtm* e, double a){ new(p) EarthAtm::Track(e->MakeTrackWithCosine(a)); }
struct AnyTrack: Body::Track{ using Body::Track::Track; void Serialize(hid_t) const{} };
void mk_AnyTrack_1(AnyTrack* p, double a, double b, double c){ new(p) AnyTrack(a,b,c); }
void mk_AnyTrack_2(AnyTrack* p, double a, double b){ new(p) AnyTrack(a,b); }
void ch_Track_1(Body::Track* p, double a){ p->SetX(a); }
void ch_Track_2(Body::Track* p){ p->ReverseTrack(); }
void ch_Body_1(Body* p, bool a){ p->Body::SetIsConstantDensity(a); }
void ch_EarthAtm_1(EarthAtm* p, double a){ p->SetAtmosphereHeight(a); }
double get_x(Body::Track* p){ return p->GetX(); }
double get_xini(Body::Track* p){ return p->GetInitialX(); }
double get_xend(Body::Track* p){ return p->GetFinalX(); }
double get_earthbase(Earth::Track* p){ return p->GetBaseline(); }
double get_atmbase(EarthAtm::Track* p){ return p->GetBaseline(); }
double get_earthradius(Earth* p){ return p->GetRadius(); }
double get_sunradius(Sun* p){ return p->GetRadius(); }
double get_asnuradius(SunASnu* p){ return p->GetRadius(); }
double get_atmradius(EarthAtm* p){ return p->GetRadius(); }
double get_atmheight(EarthAtm* p){ return p->GetAtmosphereHeight(); }
}
