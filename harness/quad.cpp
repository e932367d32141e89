// instantiations of the adaptive integrator with an opaque integrand
#include <algorithm>
#include <nuSQuIDS/AdaptiveQuad.h>
namespace vp{
struct Fn{ double k; double operator()(double x) const; };
double quad(Fn& f, double a, double b, double tol, AdaptiveQuad::Options* o){ return AdaptiveQuad::integrate(f,a,b,tol,o); }
double quad_none(Fn& f, double a, double b, double tol){ return AdaptiveQuad::integrate(f,a,b,tol); }
double ev_full(AdaptiveQuad::Interval& i, Fn& f){ return i.evaluate(f,true); }
double ev_part(AdaptiveQuad::Interval& i, Fn& f){ return i.evaluate(f,false); }
void ev_new(AdaptiveQuad::Interval& i, double a, double b, double fa, double fb){ i=AdaptiveQuad::Interval(a,b,fa,fb); }
bool can(const AdaptiveQuad::Interval& i){ return i.canSubdivide(); }
double bad(const AdaptiveQuad::Interval& i, double tol){ return i.badness(tol); }
double mid(double a, double b){ return AdaptiveQuad::midpoint(a,b); }
bool intol(const AdaptiveQuad::Options& o){ return o.inTolerance(); }
void optnew(AdaptiveQuad::Options& o){ o=AdaptiveQuad::Options(); }
double* f_a(AdaptiveQuad::Interval& i){ return &i.a; }
double* f_b(AdaptiveQuad::Interval& i){ return &i.b; }
double* f_fa(AdaptiveQuad::Interval& i){ return &i.fa; }
double* f_fb(AdaptiveQuad::Interval& i){ return &i.fb; }
double* f_spa(AdaptiveQuad::Interval& i){ return &i.spa; }
double* f_spb(AdaptiveQuad::Interval& i){ return &i.spb; }
double* f_fspa(AdaptiveQuad::Interval& i){ return &i.fspa; }
double* f_fspb(AdaptiveQuad::Interval& i){ return &i.fspb; }
double* f_value(AdaptiveQuad::Interval& i){ return &i.value; }
double* f_i2(AdaptiveQuad::Interval& i){ return &i.i2; }
double* o_fa(AdaptiveQuad::Options& o){ return &o.fa; }
double* o_fb(AdaptiveQuad::Options& o){ return &o.fb; }
double* o_unc(AdaptiveQuad::Options& o){ return &o.uncertainty; }
AdaptiveQuad::Interval* f_next(AdaptiveQuad::Interval& i){ return &i+1; }
bool* o_out(AdaptiveQuad::Options& o){ return &o.outOfTolerance; }
}
