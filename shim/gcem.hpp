// Stand-in for gcem: the compiler's constant-evaluated builtins.
#ifndef VF_SHIM_GCEM_HPP
#define VF_SHIM_GCEM_HPP
#include <cmath>
namespace gcem {
#define VF_GCEM1(f) constexpr double f(double x) noexcept { return __builtin_##f(x); }
VF_GCEM1(cos) VF_GCEM1(sin) VF_GCEM1(tan) VF_GCEM1(acos) VF_GCEM1(asin) VF_GCEM1(atan)
VF_GCEM1(sqrt) VF_GCEM1(exp) VF_GCEM1(log) VF_GCEM1(log2) VF_GCEM1(log10) VF_GCEM1(floor)
VF_GCEM1(ceil) VF_GCEM1(round) VF_GCEM1(trunc) VF_GCEM1(cosh) VF_GCEM1(sinh) VF_GCEM1(tanh)
#undef VF_GCEM1
constexpr double abs(double x) noexcept { return __builtin_fabs(x); }
constexpr double pow(double x, double y) noexcept { return __builtin_pow(x, y); }
constexpr double atan2(double x, double y) noexcept { return __builtin_atan2(x, y); }
constexpr double fmod(double x, double y) noexcept { return __builtin_fmod(x, y); }
constexpr double hypot(double x, double y) noexcept { return __builtin_hypot(x, y); }
} // namespace gcem
#endif
