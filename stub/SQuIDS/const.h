// Declarations of the part of SQuIDS that nuSQuIDS uses: enough to compile the analysed sources, no behaviour.
#ifndef VP_SQUIDS_CONST_H
#define VP_SQUIDS_CONST_H
#include <memory>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_complex_math.h>
#include <gsl/gsl_matrix.h>
namespace squids{
class Const{
public:
  Const(); ~Const(); Const(const Const&); Const& operator=(const Const&);
  double GetEnergyDifference(unsigned int upperState) const;
  void SetEnergyDifference(unsigned int upperState,double diff);
  double GetMixingAngle(unsigned int state1,unsigned int state2) const;
  void SetMixingAngle(unsigned int state1,unsigned int state2,double angle);
  double GetPhase(unsigned int state1,unsigned int state2) const;
  void SetPhase(unsigned int state1,unsigned int state2,double phase);
  std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> GetTransformationMatrix(size_t dim) const;
  double pi,piby2,sqrt2,ln2,degree,radian;
  double sec,hour,day,year;
  double TeV,GeV,MeV,keV,eV,Joule;
  double meter,cm,km,fermi,angstrom,AU,parsec;
  double kg,gr,atm,Pa,Kelvin,dyne;
  double GF,Na,sw_sq,G,alpha,e_charge,proton_mass,neutron_mass,electron_mass,muon_mass,tau_mass,muon_lifetime,tau_lifetime;
  double GeVkm2,kmtoeV,barn;
};
}
#endif
