// Stand-in used only when the integrator sources are compiled: the right-hand side's parameter type is opaque to them.
#ifndef VF_SHIM_ORBIT_INTEGRATION_HPP
#define VF_SHIM_ORBIT_INTEGRATION_HPP
#include "eigen3/Eigen/Eigen"
namespace dso { struct IntegrationParameters { int unused{0}; }; }
#endif
