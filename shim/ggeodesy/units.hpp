#ifndef VF_SHIM_GGEODESY_UNITS_HPP
#define VF_SHIM_GGEODESY_UNITS_HPP
namespace ngpt {
constexpr double DPI = 3.14159265358979323846;
template <typename T> constexpr T rad2deg(T x) noexcept { return x * static_cast<T>(180e0 / DPI); }
template <typename T> constexpr T deg2rad(T x) noexcept { return x * static_cast<T>(DPI / 180e0); }
} // namespace ngpt
#endif
