// C18: antenna phase variations, shared by src/antenna_pcv.hpp and var/antenna/phselaw.cc
#include "vf.hpp"
namespace {
using LD = long double;
const double TABA[] = {0.00, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, 0.41, -3.93};
const double TABS[] = {0.00, 0.06, -0.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -0.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
} // namespace
// ---- C18
template <dso::GroundAntennaType T, int F> void pcv_case(vf::Ctx &c, const double *tab, double up, const char *nm) {
  using A = dso::AntennaOffset<T, F>; const double H = 1.57079632679489661923;
  c.check(A::dup() == up && A::deast() == 0 && A::dnorth() == 0, "pco_components", "%s: %g %g %g", nm, A::deast(), A::dnorth(), A::dup());
#ifndef PHSELAW
  auto pc = A::pco(); c.check(pc(0) == 0 && pc(1) == 0 && pc(2) == up, "pco_vector", "%s: %g %g %g", nm, pc(0), pc(1), pc(2));
#endif
  auto get = [&](double z, bool in, double want, double tol, const char *key) {
    int o = -77; double v = A::pcv(z, o); bool out = o != 0; c.check(o != -77, "pcv_flag_unset", "%s z=%.17g", nm, z);
    c.check(out == !in, in ? "pcv_flagged_inside" : "pcv_not_flagged_outside", "%s zenith %.17g rad: flag %d", nm, z, o);
    if (in) c.near(v, want, tol, key, vf::fmt("%s zenith %.17g rad", nm, z)); else c.check(v == 0, "pcv_outside_value", "%s zenith %.17g rad: %g", nm, z, v);
    c.event(in ? "angles_inside" : "angles_outside"); c.distinct(vf::fmt("%s %d %d", nm, in, in ? (int)(z * 2000) : 0));
  };
  auto val = [&](LD deg) { if (!tab) return 0.0; int i = (int)std::floor(deg / 5.0L); if (i < 0) i = 0; if (i > 17) i = 17; return (double)(tab[i] + (deg - 5.0L * i) * ((LD)tab[i + 1] - tab[i]) / 5.0L); };
  const LD R2D = 57.295779513082320876798154814105L;
  for (int k = 0; k <= 18; k++) { double z = k * 5.0 * (2 * H / 180.0); if (k == 18) z = H; get(z, true, tab ? tab[k] : 0, 1e-10, "pcv_node");
    for (int s = 0; s < 2; s++) { double q = std::nextafter(z, s ? 10.0 : -10.0); if (q >= 0 && q <= H) get(q, true, tab ? tab[k] : 0, 1e-10, "pcv_continuity"); q = z + (s ? 1e-9 : -1e-9); if (q >= 0 && q <= H) get(q, true, tab ? tab[k] : 0, 5e-7, "pcv_continuity"); } }
  for (int k = 0; k < 40; k++) { double z = c.r.p(0.2) ? (k % 18 + 0.5) * H / 18 : c.r.u() * H; get(z, true, val((LD)z * R2D), 1e-10, "pcv_between"); }
  get(-0.0, true, 0, 1e-10, "pcv_node"); get(5e-324, true, 0, 1e-10, "pcv_node");
  double outs[] = {-1e-300, -1e-9, -c.r.u(), -H, -2 * H, -1e18, -1e308, H + 1e-12, H + 1e-6, H + c.r.u() * 3, 2 * H, 4 * H + 0.3, 1e3, 1e10, 1e18, 1e300, INFINITY, -INFINITY, NAN, 45.0, 90.0};
  for (double z : outs) get(z, false, 0, 0, "");
}
VF_GROUP(pcv, 40, 20000) {
  using G = dso::GroundAntennaType;
  pcv_case<G::Alcatel, 1>(c, TABA, 510, "Alcatel 2GHz"); pcv_case<G::Alcatel, 2>(c, nullptr, 335, "Alcatel 400MHz");
  pcv_case<G::Starec_B, 1>(c, TABS, 487, "Starec B 2GHz"); pcv_case<G::Starec_B, 2>(c, nullptr, 0, "Starec B 400MHz");
  pcv_case<G::Starec_C, 1>(c, TABS, 487, "Starec C 2GHz"); pcv_case<G::Starec_C, 2>(c, nullptr, 0, "Starec C 400MHz");
}
