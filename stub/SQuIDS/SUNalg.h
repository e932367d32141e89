// Declarations of the part of SQuIDS that nuSQuIDS uses: enough to compile the analysed sources, no behaviour.
#ifndef VP_SQUIDS_SUNALG_H
#define VP_SQUIDS_SUNALG_H
#include <iosfwd>
#include <memory>
#include <vector>
#include <cassert>
#include <algorithm>
#include <SQuIDS/const.h>
#define SQUIDS_MAX_HILBERT_DIM 6
#define SQUIDS_POINTER_IS_ALIGNED(p,n) ((void)0)
namespace squids{
class SU_vector;
namespace detail{
enum : unsigned int{ NoAlias=1, EqualSizes=2, AlignedStorage=4 };
struct no_init_t{}; 
struct Proxy{ Proxy(const Proxy&); void* impl; };
template<unsigned int F> Proxy guarantee(const Proxy& p);
template<unsigned int F> Proxy guarantee(const SU_vector& p);
}
class SU_vector{
  unsigned int dim; unsigned int size; double* components; unsigned char ptr_offset; bool isinit; bool isinit_d;
public:
  SU_vector(); SU_vector(const SU_vector&); SU_vector(SU_vector&&); explicit SU_vector(unsigned int dim); SU_vector(unsigned int dim,double* c); explicit SU_vector(const std::vector<double>&); explicit SU_vector(const gsl_matrix_complex*);
  SU_vector(const detail::Proxy&);
  ~SU_vector();
  SU_vector& operator=(const SU_vector&); SU_vector& operator=(SU_vector&&); SU_vector& operator=(const detail::Proxy&);
  SU_vector& operator+=(const SU_vector&); SU_vector& operator-=(const SU_vector&); SU_vector& operator+=(const detail::Proxy&); SU_vector& operator-=(const detail::Proxy&); SU_vector& operator*=(double); SU_vector& operator/=(double);
  detail::Proxy operator+(const SU_vector&) const; detail::Proxy operator-(const SU_vector&) const; detail::Proxy operator*(double) const; detail::Proxy operator-() const;
  double operator*(const SU_vector&) const;
  double& operator[](int); const double& operator[](int) const;
  unsigned int Dim() const; unsigned int Size() const; void SetBackingStorage(double*); void SetAllComponents(double); std::vector<double> GetComponents() const;
  void RotateToB0(const Const&); void RotateToB1(const Const&); SU_vector Rotate(unsigned int,unsigned int,double,double) const; void WeightedRotation(const Const&,const SU_vector&,const Const&);
  SU_vector UTransform(const SU_vector&,gsl_complex) const; SU_vector UTransform(gsl_matrix_complex*) const; SU_vector UDaggerTransform(gsl_matrix_complex*) const;
  std::pair<std::unique_ptr<gsl_vector,void(*)(gsl_vector*)>,std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)>> GetEigenSystem(bool order=true) const;
  detail::Proxy Evolve(const SU_vector&,double) const; detail::Proxy Evolve(const double*) const;
  size_t GetEvolveBufferSize() const; void PrepareEvolve(double*,double) const; void PrepareEvolve(double*,double,double,std::vector<bool>&) const; void PrepareEvolve(double*,double,double) const;
  void LowPassFilter(double*,double,double) const; void AvgRampFilter(double*,double,double,double,std::vector<bool>&) const;
  static SU_vector Projector(unsigned int,unsigned int); static SU_vector Identity(unsigned int); static SU_vector PosProjector(unsigned int,unsigned int); static SU_vector NegProjector(unsigned int,unsigned int); static SU_vector Generator(unsigned int,unsigned int);
  static SU_vector make_aligned(unsigned int dim,bool zero_fill=true);
  std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> GetGSLMatrix() const;
};
detail::Proxy operator*(double,const SU_vector&); detail::Proxy operator*(double,const detail::Proxy&); detail::Proxy operator*(const detail::Proxy&,double);
detail::Proxy operator+(const detail::Proxy&,const detail::Proxy&); detail::Proxy operator+(const SU_vector&,const detail::Proxy&); detail::Proxy operator+(const detail::Proxy&,const SU_vector&);
detail::Proxy operator-(const detail::Proxy&,const detail::Proxy&); detail::Proxy operator-(const SU_vector&,const detail::Proxy&); detail::Proxy operator-(const detail::Proxy&,const SU_vector&);
detail::Proxy iCommutator(const SU_vector&,const SU_vector&); detail::Proxy ACommutator(const SU_vector&,const SU_vector&);
double SUTrace(const SU_vector&,const SU_vector&);
template<unsigned int F> double SUTrace(const SU_vector&,const SU_vector&);
std::ostream& operator<<(std::ostream&,const SU_vector&);
}
#endif
