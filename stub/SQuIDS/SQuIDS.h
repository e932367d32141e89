// Declarations of the part of SQuIDS that nuSQuIDS uses: enough to compile the analysed sources, no behaviour.
#ifndef VP_SQUIDS_SQUIDS_H
#define VP_SQUIDS_SQUIDS_H
#include <string>
#include <memory>
#include <vector>
#include <gsl/gsl_odeiv2.h>
#include <SQuIDS/const.h>
#include <SQuIDS/version.h>
#include <SQuIDS/SUNalg.h>
namespace squids{
class SQuIDS{
public:
  SQuIDS(); SQuIDS(unsigned int nx,unsigned int dim,unsigned int nrho,unsigned int nscalar,double ti=0); SQuIDS(const SQuIDS&)=delete; SQuIDS(SQuIDS&&); SQuIDS& operator=(SQuIDS&&); virtual ~SQuIDS();
  void ini(unsigned int,unsigned int,unsigned int,unsigned int,double ti=0);
  int Set_xrange(double,double,std::string); void Set_xrange(const std::vector<double>&); double Get_x(unsigned int) const; std::vector<double> GetXValues() const;
  virtual void PreDerive(double); virtual SU_vector H0(double x,unsigned int irho) const; virtual SU_vector HI(unsigned int ix,unsigned int irho,double t) const; virtual SU_vector GammaRho(unsigned int ix,unsigned int irho,double t) const; virtual SU_vector InteractionsRho(unsigned int ix,unsigned int irho,double t) const; virtual double GammaScalar(unsigned int ix,unsigned int is,double t) const; virtual double InteractionsScalar(unsigned int ix,unsigned int is,double t) const;
  double GetExpectationValue(SU_vector,unsigned int,unsigned int) const; double GetExpectationValue(SU_vector,unsigned int,unsigned int,double,std::vector<bool>&) const;
  double GetExpectationValueD(const SU_vector&,unsigned int,double) const; double GetExpectationValueD(const SU_vector&,unsigned int,double,double,std::vector<bool>&) const;
  struct expectationValueDBuffer{ SU_vector state,op; expectationValueDBuffer(unsigned int); };
  double GetExpectationValueD(const SU_vector&,unsigned int,double,expectationValueDBuffer&) const; double GetExpectationValueD(const SU_vector&,unsigned int,double,expectationValueDBuffer&,double,std::vector<bool>&) const;
  SU_vector GetIntermediateState(unsigned int,double) const;
  void Set_CoherentRhoTerms(bool); void Set_NonCoherentRhoTerms(bool); void Set_OtherRhoTerms(bool); void Set_GammaScalarTerms(bool); void Set_OtherScalarTerms(bool); void Set_AnyNumerics(bool); void Set_AdaptiveStep(bool);
  void Set_GSL_step(gsl_odeiv2_step_type const*); void Set_rel_error(double); void Set_abs_error(double); void Set_h(double); double Get_h() const; double Get_h_min() const; double Get_h_max() const; void Set_h_min(double); void Set_h_max(double); void Set_NumSteps(unsigned int);
  int Evolve(double); double Get_t() const; double Get_t_initial() const; void Set_t(double);
  const Const& GetParams() const; void SetSystem(double);
protected:
  Const params; double t; double t_ini; unsigned int nx; unsigned int nsun; unsigned int nrhos; unsigned int nscalars; unsigned int size_rho; unsigned int size_state; unsigned int index_rho; unsigned int index_scalar;
  std::vector<double> x;
  struct SU_state{ std::unique_ptr<SU_vector[]> rho; double* scalar; };
  std::unique_ptr<SU_state[]> state; SU_state* estate; bool is_init; bool adaptive_step; double rel_error,abs_error,h,h_min,h_max; int nsteps; gsl_odeiv2_step_type const* step;
};
}
#endif
