// C30: stand-alone prototypes: Cartesian-to-Keplerian variants, associated Legendre functions,
// Saastamoinen delays, the Runge-Kutta listing of the notes.
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vf.hpp"
namespace ck {
namespace ngpt { constexpr double GM = 3.9860044e14, DPI = 3.14159265358979323846, D2PI = 2 * DPI; inline double rad2deg(double r) { return r * 180e0 / DPI; } }
inline void cross_product(const double *a, const double *b, double *c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; }
inline double dot_product(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
#define main ck_main
#include "var/cartesian2keplerian/cartesian2keplerian.cc"
#undef main
}
namespace lg {
namespace ngpt { constexpr double DPI = 3.14159265358979323846, D2PI = 2 * DPI; }
#include "var/legendre.cc"
}
namespace sa {
#include "var/saastamoinen.cc"
}
namespace rk {
#define main rk_main
#include "doc/PhD-notes/source/rk4.cpp"
#undef main
}

namespace {
using LD = long double;
const LD PI = 3.14159265358979323846264338327950288L;
// what a function writes to standard output
std::string captured(const std::function<void()> &f) {
  static int mem = memfd_create("out", MFD_CLOEXEC); fflush(stdout); (void)!ftruncate(mem, 0); lseek(mem, 0, SEEK_SET); int old = dup(1); dup2(mem, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  std::string s((size_t)lseek(mem, 0, SEEK_END), 0); lseek(mem, 0, SEEK_SET); (void)!read(mem, &s[0], s.size()); return s;
}
std::map<std::string, double> fields(const std::string &s) {
  std::map<std::string, double> m; std::istringstream i(s); std::string l; while (std::getline(i, l)) { size_t p = l.find('='); if (p == std::string::npos) continue; std::string k = l.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); m[k] = atof(l.c_str() + p + 1); } return m;
}
double circ(double a, double b, double per) { double d = std::fmod(a - b, per); if (d < -per / 2) d += per; if (d > per / 2) d -= per; return std::fabs(d); }
} // namespace

VF_GROUP(element_variants, 600, 40000) {
  vf::Rng &r = c.r; LD GM = 3.9860044e14L; LD e = r.p(.3) ? r.u(.01, .05) : r.u(.01, .9), inc = r.u(1, 179) * PI / 180, Om = (r.p(.1) ? r.i(-2, 2) * 90. : r.u(-180, 180)) * PI / 180, om = (r.p(.1) ? r.i(-2, 2) * 90. : r.u(-180, 180)) * PI / 180, E = (r.p(.15) ? r.i(-1, 2) * 90. : r.u(-180, 180)) * PI / 180, a = r.logu(6.6e6, 5e7);
  LD cE = cosl(E), sE = sinl(E), n = sqrtl(GM / (a * a * a)), q = sqrtl(1 - e * e), P[3], Q[3];
  P[0] = cosl(Om) * cosl(om) - sinl(Om) * sinl(om) * cosl(inc); P[1] = sinl(Om) * cosl(om) + cosl(Om) * sinl(om) * cosl(inc); P[2] = sinl(om) * sinl(inc);
  Q[0] = -cosl(Om) * sinl(om) - sinl(Om) * cosl(om) * cosl(inc); Q[1] = -sinl(Om) * sinl(om) + cosl(Om) * cosl(om) * cosl(inc); Q[2] = cosl(om) * sinl(inc);
  double x[3], v[3]; LD rr = a * (1 - e * cE); for (int k = 0; k < 3; k++) { x[k] = (double)(a * (cE - e) * P[k] + a * q * sE * Q[k]); v[k] = (double)(n * a * a / rr * (-sE * P[k] + q * cE * Q[k])); }
  double M = (double)((E - e * sE) * 180 / PI), T = r.p(.5) ? 0. : r.u(-1e5, 1e5), per = (double)(2 * PI / n), dg = 180 / (double)PI;
  const char *names[] = {"Schwarz", "Beutler", "Bernese", "Tapley"};
  for (int w = 0; w < 4; w++) {
    auto m = fields(captured([&] { switch (w) { case 0: ck::cartesian2keplerian_schwarz(x, v); break; case 1: ck::cartesian2keplerian_beutler(x, v, T); break; case 2: ck::cartesian2keplerian_bernese(x, v, T); break; default: ck::cartesian2keplerian_tapley(x, v); } }));
    auto ctx = [&](const char *k, double want) { return vf::fmt("%s: %s for a=%.9g e=%.6f i=%.4f Om=%.4f om=%.4f E=%.4f (want %.12g)", names[w], k, (double)a, (double)e, (double)inc * dg, (double)Om * dg, (double)om * dg, (double)E * dg, want); };
    bool all = m.count("a") && m.count("e") && m.count("ω") && m.count("Ω") && m.count("i") && (m.count("M") || m.count("T0")); c.check(all, "elements_returned", "%s", names[w]); if (!all) continue;
    double ec = 3e-14 / (double)(e * (1 - e)); // rounding of the state seen through small eccentricities
    c.near(m["a"], (double)a, 1e-6 + 4e-14 * (double)(a / (1 - e) / (1 - e)), "semi_major_axis", ctx("a", (double)a)); c.near(m["e"], (double)e, 2e-13 + ec, "eccentricity", ctx("e", (double)e));
    auto tol = [&](LD th) { double s = std::fabs((double)sinl(th)); return dg * (ec + (w == 0 ? std::min(ec / std::max(s, 1e-300), std::sqrt(4 * ec)) : 0)) + 2e-12; }; // arc cosines lose digits at their ends
    LD nu = 2 * atan2l(sqrtl(1 + e) * sinl(E / 2), sqrtl(1 - e) * cosl(E / 2));
    double si = (double)sinl(inc), tO = w == 0 ? tol(Om) / si : dg * 4e-15 / si + 2e-12;
    c.near(circ(m["Ω"], (double)(Om * dg), 360), 0, tO, "ascending_node", ctx("Om", (double)Om * dg)); c.near(m["i"], (double)inc * dg, dg * 4e-15 / si + 2e-12, "inclination", ctx("i", (double)inc * dg));
    c.near(circ(m["ω"], (double)(om * dg), 360), 0, (tol(om) + tol(nu)) / si, "argument_of_perigee", ctx("om", (double)om * dg));
    double ta = tol(nu) / (double)powl(1 - e, 1.5L);
    if (m.count("M")) c.near(circ(m["M"], M, 360), 0, ta, "mean_anomaly", ctx("M", M)); else c.near(circ(m["T0"], T - M / 360 * per, per), 0, ta / 360 * per + 1e-14 * std::fabs(T) + 2e-12, "perigee_passing", ctx("T0", T - M / 360 * per));
    c.event("element sets compared");
  }
  c.distinct(vf::fmt("%d %d %d %d", (int)(e * 20), (int)((double)inc * dg / 10), (int)floor((double)om * dg / 30), (int)floor((double)E * dg / 30)));
}
VF_GROUP(legendre, 300, 20000) {
  vf::Rng &r = c.r; int m = r.p(.2) ? 0 : (int)r.i(0, 60), l = m + (r.p(.3) ? (int)r.i(0, 1) : (int)r.i(0, 80)); double x = r.p(.1) ? r.pick({-1., 0., 1.}) : r.u(-1, 1);
  double v = lg::plegendre(l, m, x); LD w = std::sph_legendrel((unsigned)l, (unsigned)m, acosl((LD)x)); // sqrt((2l+1)/4pi (l-m)!/(l+m)!) P_lm
  LD sg = (m & 1) ? -1 : 1;
  c.near(std::fabs(v), (double)fabsl(w), 1e-13 * (1 + l) * (1 + std::fabs((double)w)), "renormalised_value", vf::fmt("l=%d m=%d x=%.17g", l, m, x));
  // sign of P_lm with the Condon-Shortley phase: (-1)^m near x=1
  LD near1 = lg::plegendre(l, m, .999999999); c.check(near1 * sg >= 0, "condon_shortley_phase", "l=%d m=%d", l, m);
  LD p = lg::plegendre(l, m, -x); c.near((double)p, v * (((l + m) & 1) ? -1 : 1), 1e-13 * (1 + l) * (1 + std::fabs(v)), "parity", vf::fmt("l=%d m=%d x=%.17g", l, m, x));
  c.event("Legendre values"); c.distinct(vf::fmt("%d %d %d", l, m, (int)floor(x * 20)));
}
// orthonormality over the sphere settles signs and norms together
VF_GROUP(legendre_norm, 60, 1500) {
  vf::Rng &r = c.r; int m = (int)r.i(0, 20), l1 = m + (int)r.i(0, 15), l2 = r.p(.5) ? l1 : m + (int)r.i(0, 15); int N = 60; LD sum = 0;
  for (int k = 1; k <= N; k++) { LD t = cosl(PI * (k - .25L) / (N + .5L)), d = 0; for (int it = 0; it < 60; it++) { LD p0 = 1, p1 = t; for (int n = 2; n <= N; n++) { LD p2 = ((2 * n - 1) * t * p1 - (n - 1) * p0) / n; p0 = p1; p1 = p2; } d = N * (t * p1 - p0) / (t * t - 1); LD s = p1 / d; t -= s; if (fabsl(s) < 1e-19L) break; } sum += 2 / ((1 - t * t) * d * d) * (LD)lg::plegendre(l1, m, (double)t) * lg::plegendre(l2, m, (double)t); }
  c.near((double)(2 * PI * sum), l1 == l2, 1e-11, "orthonormal", vf::fmt("l=%d and %d, m=%d", l1, l2, m)); c.event("orthonormality integrals"); c.distinct(vf::fmt("%d %d %d", l1, l2, m));
}
VF_GROUP(saastamoinen, 200, 20000) {
  vf::Rng &r = c.r; for (int q = 0; q < 20; q++) { double lat = r.p(.1) ? r.pick({-(double)PI / 2, 0., (double)PI / 2, (double)PI / 4}) : r.u(-1.5707, 1.5707), H = r.p(.1) ? 0 : r.u(-420, 8900), P = r.u(300, 1090), e0 = r.p(.1) ? 0 : r.u(0, 60), T = r.u(210, 325);
    LD f = 1 - .00266L * cosl(2 * (LD)lat) - .00000028L * H, w = .0022768L * P / f, ww = .0022768L * (1255 / (LD)T + .053L) * e0; // IERS Conventions 2010, 9.4 and 9.11; Davis et al.
    c.near(sa::fs_phiH(lat, H), (double)f, 1e-15, "gravity_term", vf::fmt("lat=%.6f H=%.3f", lat, H)); c.near(sa::saastamoinen_hz(lat, H, P), (double)w, 2e-15 * (double)w, "hydrostatic_delay", vf::fmt("lat=%.6f H=%.3f P=%.3f", lat, H, P)); c.near(sa::saastamoinen_wet(e0, T), (double)ww, 4e-15 * (double)ww, "wet_delay", vf::fmt("e=%.3f T=%.3f", e0, T)); c.event("delays"); c.distinct(vf::fmt("%d %d %d", (int)(lat * 20), (int)(H / 200), (int)(P / 20))); }
}
VF_GROUP(rk4_listing, 100, 4000) {
  vf::Rng &r = c.r; double e = r.u(0, .5), t1 = r.u(1, 12), t0 = r.u(-5, 5); int n = (int)r.i(200, 500); double y0[4] = {1 - e, 0, 0, std::sqrt((1 + e) / (1 - e))}, y[4], z[4];
  double ta = rk::rk4(t0, t1 / n, n, y0, y), tb = rk::rk4(t0, t1 / (2 * n), 2 * n, y0, z); c.near(ta, t0 + t1, 1e-12, "final_time", ""); c.near(tb, t0 + t1, 1e-12, "final_time", "");
  LD M = t1, E = M; for (int k = 0; k < 100; k++) E -= (E - e * sinl(E) - M) / (1 - e * cosl(E)); LD q = sqrtl(1 - (LD)e * e), d = 1 - e * cosl(E), w[4] = {cosl(E) - e, q * sinl(E), -sinl(E) / d, q * cosl(E) / d}; double ea = 0, eb = 0;
  for (int k = 0; k < 4; k++) ea = std::max(ea, std::fabs((double)(y[k] - w[k]))), eb = std::max(eb, std::fabs((double)(z[k] - w[k])));
  double h = t1 / n, bound = 300 * std::pow(h, 4) * t1 / std::pow(1 - e, 6); c.check(ea < bound + 1e-11, "fourth_order_accuracy", "e=%.3f t=%.3f n=%d: error %.3g, bound %.3g", e, t1, n, ea, bound);
  if (ea > 1e-9) c.check(eb < ea / 6, "fourth_order_convergence", "e=%.3f t=%.3f n=%d: %.3g with half the step, %.3g before", e, t1, n, eb, ea);
  c.event("orbits integrated"); c.distinct(vf::fmt("%d %d", (int)(e * 40), (int)(t1 * 4)));
}
