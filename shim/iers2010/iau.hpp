// Stand-in for the external iers2010 library: fundamental arguments and the
// rotation builders (published IAU 2000/2006 expressions; short series where
// the full one is irrelevant to the code under test).
#ifndef VF_SHIM_IAU_HPP
#define VF_SHIM_IAU_HPP
#include "eigen3/Eigen/Eigen"
#include "eigen3/Eigen/Geometry"
#include "iers2010/iersc.hpp"
#include "matvec/matvec.hpp"
#include <cmath>
namespace iers2010 {
namespace sofa {
inline double fal03(double t) noexcept { return std::fmod(485868.249036 + t * (1717915923.2178 + t * (31.8792 + t * (0.051635 + t * (-0.00024470)))), TURNAS) * DAS2R; }
inline double falp03(double t) noexcept { return std::fmod(1287104.793048 + t * (129596581.0481 + t * (-0.5532 + t * (0.000136 + t * (-0.00001149)))), TURNAS) * DAS2R; }
inline double faf03(double t) noexcept { return std::fmod(335779.526232 + t * (1739527262.8478 + t * (-12.7512 + t * (-0.001037 + t * 0.00000417))), TURNAS) * DAS2R; }
inline double fad03(double t) noexcept { return std::fmod(1072260.703692 + t * (1602961601.2090 + t * (-6.3706 + t * (0.006593 + t * (-0.00003169)))), TURNAS) * DAS2R; }
inline double faom03(double t) noexcept { return std::fmod(450160.398036 + t * (-6962890.5431 + t * (7.4722 + t * (0.007702 + t * (-0.00005939)))), TURNAS) * DAS2R; }
inline double era00(double d1, double d2) noexcept {
  double a = d1 < d2 ? d1 : d2, b = d1 < d2 ? d2 : d1, t = a + (b - 2451545.0);
  double f = std::fmod(a, 1.0) + std::fmod(b, 1.0);
  double e = std::fmod(D2PI * (f + 0.7790572732640 + 0.00273781191135448 * t), D2PI);
  return e < 0 ? e + D2PI : e;
}
inline double sp00(double d1, double d2) noexcept { return -47e-6 * ((d1 - 2451545.0) + d2) / 36525.0 * DAS2R; }
// polynomial part and the leading nutation terms
inline void xy06(double d1, double d2, double &x, double &y) noexcept {
  double t = ((d1 - 2451545.0) + d2) / 36525.0, om = faom03(t), F = faf03(t), D = fad03(t);
  x = (-0.016617 + t * (2004.191898 + t * (-0.4297829 + t * -0.19861834)) - 6.844318 * std::sin(om) - 0.523908 * std::sin(2 * (F - D + om))) * DAS2R;
  y = (-0.006951 + t * (-0.025896 + t * (-22.4072747 + t * 0.00190059)) + 9.205236 * std::cos(om) + 0.573033 * std::cos(2 * (F - D + om))) * DAS2R;
}
inline double s06(double d1, double d2, double x, double y) noexcept {
  double t = ((d1 - 2451545.0) + d2) / 36525.0;
  return (94e-6 + t * (3808.65e-6 + t * (-122.68e-6 + t * -72574.11e-6)) - 2640.73e-6 * std::sin(faom03(t))) * DAS2R - x * y / 2.0;
}
inline Eigen::Matrix3d vf_r(int axis, double a) noexcept { // frame rotation
  Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
  int i = (axis + 1) % 3, j = (axis + 2) % 3;
  m(i, i) = m(j, j) = std::cos(a); m(i, j) = std::sin(a); m(j, i) = -std::sin(a);
  return m;
}
inline Eigen::Matrix3d c2ixys_e(double x, double y, double s) noexcept {
  double r2 = x * x + y * y, e = r2 > 0 ? std::atan2(y, x) : 0, d = std::atan(std::sqrt(r2 / (1.0 - r2)));
  return vf_r(2, -(e + s)) * vf_r(1, d) * vf_r(2, e);
}
inline Eigen::Matrix3d pom00_e(double xp, double yp, double sp) noexcept { return vf_r(0, -yp) * vf_r(1, -xp) * vf_r(2, sp); }
} // namespace sofa
namespace iau { using namespace sofa; }
} // namespace iers2010
#endif
