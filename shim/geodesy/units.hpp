#ifndef VF_SHIM_UNITS_HPP
#define VF_SHIM_UNITS_HPP
#include <cmath>
#include <type_traits>
namespace dso {
constexpr double DPI = 3.14159265358979323846264338327950288e0;
constexpr double D2PI = 2e0 * DPI;
enum class AngleUnit : char { Radians, Degrees, Seconds };
template <typename T> constexpr T deg2rad(T d) noexcept { return d * (T)(DPI / 180e0); }
template <typename T> constexpr T rad2deg(T d) noexcept { return d * (T)(180e0 / DPI); }
template <typename T> constexpr T arcsec2rad(T d) noexcept { return d * (T)(DPI / 180e0 / 3600e0); }
template <typename T> constexpr T rad2arcsec(T d) noexcept { return d * (T)(180e0 * 3600e0 / DPI); }
template <typename T, AngleUnit U> T norm_angle(T a) noexcept {
  const T full = U == AngleUnit::Radians ? (T)D2PI : U == AngleUnit::Degrees ? (T)360 : (T)1296000;
  T w = std::fmod(a, full);
  return w < 0 ? w + full : w;
}
} // namespace dso
#endif
