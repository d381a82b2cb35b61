#ifndef VF_SHIM_IERS2010_HPP
#define VF_SHIM_IERS2010_HPP
#include "iers2010/iau.hpp"
#include "iers2010/iersc.hpp"
#include <algorithm>
namespace iers2010 {
// recording/deterministic stand-ins; see drivers/eop.cpp for the models used by the monitors
int rg_zont2(double t, double &dut, double &dlod, double &domega) noexcept;
namespace interp {
int lagint(const double *x, const double *y, int n, double xint, double &yout, int &idx, int order = 4) noexcept;
int pmut1_oceans(double t, double &cor_x, double &cor_y, double &cor_ut1, double &cor_lod) noexcept;
int pm_gravi(double t, double &cor_x, double &cor_y) noexcept;
} // namespace interp
} // namespace iers2010
#endif
