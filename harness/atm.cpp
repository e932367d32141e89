// every member of the atmospheric propagator, for the propagator the library provides
#include <nuSQuIDS/nuSQuIDS.h>
template class nusquids::nuSQUIDSAtm<nusquids::nuSQUIDS>;
