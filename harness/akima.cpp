// instantiations with a fixed number of points, so that every segment is a separate value
#include "tools.cpp"
namespace vp{
using namespace nusquids;
#define W(N) void akima##N(AkimaSpline& s, const double* x, const double* y){ s.initialize(x,y,N); }
W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9)
double akima_eval(const AkimaSpline& s, double x){ return s(x); }
void akima_vec(const std::vector<double>& x, const std::vector<double>& y){ AkimaSpline s(x,y); }
}
