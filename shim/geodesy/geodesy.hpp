// Stand-in for the external ggeodesy library: geodetic coordinates.
#ifndef VF_SHIM_GEODESY_HPP
#define VF_SHIM_GEODESY_HPP
#include "eigen3/Eigen/Eigen"
#include "geodesy/ellipsoid.hpp"
#include "geodesy/units.hpp"
namespace dso {
// (longitude, latitude, height) [rad, rad, m]
template <ellipsoid E> Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &r) noexcept {
  const double a = ellipsoid_traits<E>::a, e2 = eccentricity_squared<E>(), p = std::hypot(r(0), r(1));
  double lat = std::atan2(r(2), p * (1 - e2)), h = 0;
  for (int i = 0; i < 12; i++) {
    double s = std::sin(lat), N = a / std::sqrt(1 - e2 * s * s);
    h = p * std::cos(lat) + r(2) * s - a * std::sqrt(1 - e2 * s * s);
    lat = std::atan2(r(2), p * (1 - e2 * N / (N + h)));
  }
  Eigen::Matrix<double, 3, 1> o;
  o << std::atan2(r(1), r(0)), lat, h;
  return o;
}
template <ellipsoid E> Eigen::Matrix<double, 3, 1> ell2car(const Eigen::Matrix<double, 3, 1> &l) noexcept {
  const double a = ellipsoid_traits<E>::a, e2 = eccentricity_squared<E>(), s = std::sin(l(1)), c = std::cos(l(1)), N = a / std::sqrt(1 - e2 * s * s);
  Eigen::Matrix<double, 3, 1> o;
  o << (N + l(2)) * c * std::cos(l(0)), (N + l(2)) * c * std::sin(l(0)), (N * (1 - e2) + l(2)) * s;
  return o;
}
} // namespace dso
#endif
