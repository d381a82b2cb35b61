// Stand-in for the external iers2010 library: constants.
#ifndef VF_SHIM_IERSC_HPP
#define VF_SHIM_IERSC_HPP
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643e0, D2PI = 6.283185307179586476925287e0;
constexpr double DAS2R = 4.848136811095359935899141e-6, DMAS2R = DAS2R / 1e3, DR2AS = 206264.8062470963551564734e0;
constexpr double TURNAS = 1296000e0, D2R = DPI / 180e0;
constexpr double C = 299792458e0, AU = 1.49597870700e11, GMe = 3.986004418e14, Re = 6378136.6e0, J2 = 1.0826359e-3;
constexpr double OmegaEarth = 7.292115e-5, GMs = 1.32712442076e20, GMm = 4.9028e12, Rs = 696000e3;
} // namespace iers2010
#endif
