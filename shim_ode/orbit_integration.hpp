// Stand-in used only for the stand-alone integrator driver (the integrator just
// passes the parameters through).
#ifndef VF_SHIM_ODE_ORBIT
#define VF_SHIM_ODE_ORBIT
namespace dso { struct IntegrationParameters { void *p = nullptr; }; }
#endif
