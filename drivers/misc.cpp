// C21: exponential atmosphere; C27: flag sets and packed measurements; C28: table interpolators.
#include <bits/stdc++.h>
#include "atmosphere.hpp"
#include "enum_bitset.hpp"
#include "vf.hpp"
namespace fl {
#define main flags_main
#include "flags.cc"
#undef main
} // namespace fl
namespace cm {
#define main compound_main
#include "compound_measurement.cc"
#undef main
} // namespace cm
namespace ip {
#define main intrp_main
#include "intrp.cc"
#undef main
} // namespace ip

namespace {
using LD = long double;
struct Quiet { std::streambuf *b; struct N : std::streambuf { int overflow(int ch) override { return ch; } } n; Quiet() : b(std::cout.rdbuf(&n)) {} ~Quiet() { std::cout.rdbuf(b); } };
// Vallado, Fundamentals of Astrodynamics, table 8-4: base altitude [km], density [kg/m3], scale height [km]
const double VAL[28][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549},
  {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523},
  {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828},
  {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.00}};
int band(double h) { int k = 27; while (k > 0 && h < VAL[k][0]) k--; return k; }
double rho(double h) { return dso::air_density_models::exponential::density(h); }
} // namespace

// ---- C21
VF_GROUP(exp_density, 400, 50000) {
  for (int q = 0; q < 40; q++) {
    int k = (int)c.r.i(0, 27); double lo = VAL[k][0], hi = k < 27 ? VAL[k + 1][0] : 2000, h = lo;
    switch (c.r.i(0, 5)) { case 0: h = lo; break; case 1: h = std::nextafter(hi, 0.0); break; case 2: h = lo + (hi - lo) * 1e-6 * c.r.u(); break; case 3: h = k == 27 ? c.r.logu(1000, 60000) : std::floor(lo + (hi - lo) * c.r.u()); break; default: h = lo + (hi - lo) * c.r.u(); }
    double v = rho(h); int b = band(h); LD w = VAL[b][1] * std::exp(-((LD)h - VAL[b][0]) / VAL[b][2]);
    c.near(v, (double)w, 1e-13 * (double)w, "exp_value", vf::fmt("h=%.17g km", h));
    c.check(v > 0 && std::isfinite(v), "exp_positive", "h=%.17g: %g", h, v);
    double h2 = std::min(h + c.r.u() * (hi - h), std::nextafter(hi, 0.0)); if (h2 > h + 1e-6 && band(h2) == b) { double v2 = rho(h2); c.check(v2 < v, "exp_decreasing", "rho(%.17g)=%.17g rho(%.17g)=%.17g", h, v, h2, v2); }
    if (k < 27) { double a = rho(std::nextafter(hi, 0.0)), z = rho(hi); c.near(a / z, 1.0, 0.03, "exp_continuous", vf::fmt("boundary %g km: %g below, %g at", hi, a, z)); }
    c.event("altitudes"); c.distinct(vf::fmt("%d/%d", b, (int)(20 * (h - lo) / (hi - lo))));
  }
}
VF_GROUP(exp_extreme, 1, 1) {
  for (double h : {0.0, -0.0, 5e-324, 24.999999999999996, 1499.0, 1e5, 2147483647.0, 2147483648.0, 1e10, 1e300}) {
    double v = rho(h); int b = band(h); LD w = VAL[b][1] * std::exp(-((LD)h - VAL[b][0]) / VAL[b][2]);
    c.near(v, (double)w, 1e-12 * (double)w, "exp_value", vf::fmt("h=%.17g km", h)); c.event("altitudes"); c.distinct(vf::fmt("%g", h)); }
}

// ---- C27
namespace {
enum class E8 : uint8_t { a = 1, b = 2, c = 4, d = 8, e = 16, f = 32, g = 64, h = 128 };
enum class EC : char { a = 1, b = 2, c = 4, d = 8, e = 16, f = 32, g = 64 };
enum class EI : int {}; enum class EU : unsigned {}; enum class EL : uint64_t {}; enum class ES : int16_t {};
template <class E> void bitset_case(vf::Ctx &c, int nbits, const char *nm) {
  using U = std::underlying_type_t<E>; auto m = [](int k) { return static_cast<E>((U)((uint64_t)1 << k)); };
  std::set<int> sh; dso::EnumBitset<E> f; std::string ops;
  c.check(f.is_clean(), "bitset_fresh", "%s", nm);
  { dso::EnumBitset<E> g(std::initializer_list<E>{}); c.check(g.is_clean() && g == f, "bitset_fresh", "%s from an empty list", nm); }
  auto verify = [&](const dso::EnumBitset<E> &x, const std::set<int> &s) {
    for (int k = 0; k < nbits; k++) if (x.check(m(k)) != (s.count(k) > 0)) { c.viol("bitset_member", vf::fmt("%s member %d is %d, expected %d after %s", nm, k, x.check(m(k)), (int)s.count(k), ops.c_str())); return; }
    c.check(x.is_clean() == s.empty(), "bitset_clean", "%s is_clean=%d with %zu members after %s", nm, x.is_clean(), s.size(), ops.c_str());
  };
  for (int q = 0, n = (int)c.r.i(5, 40); q < n; q++) {
    int k = (int)c.r.i(0, nbits - 1), k2 = (int)c.r.i(0, nbits - 1), k3 = (int)c.r.i(0, nbits - 1);
    switch (c.r.i(0, 7)) {
    case 0: case 1: f.set(m(k)); sh.insert(k); ops += vf::fmt(" set%d", k); break;
    case 2: f.clear(m(k)); sh.erase(k); ops += vf::fmt(" clear%d", k); break;
    case 3: if (c.r.p(0.3)) { f.clear(); sh.clear(); ops += " clear"; } break;
    case 4: { dso::EnumBitset<E> g({m(k), m(k2), m(k3)}); verify(g, {k, k2, k3}); if (c.r.p(0.3)) { f = g; sh = {k, k2, k3}; ops += vf::fmt(" list%d,%d,%d", k, k2, k3); } break; }
    case 5: { dso::EnumBitset<E> g(m(k)); verify(g, {k}); break; }
    case 6: f.set(m(k)).set(m(k2)).clear(m(k3)); sh.insert(k); sh.insert(k2); sh.erase(k3); ops += vf::fmt(" chain%d,%d,-%d", k, k2, k3); break;
    default: { dso::EnumBitset<E> g(f); verify(g, sh); c.check(g == f && !(g != f), "bitset_equal", "%s copy differs after %s", nm, ops.c_str()); auto s2 = sh; if (s2.count(k)) { s2.erase(k); g.clear(m(k)); } else { s2.insert(k); g.set(m(k)); } c.check(g != f && !(g == f), "bitset_differs", "%s member %d after %s", nm, k, ops.c_str()); verify(g, s2); break; }
    }
    verify(f, sh); c.event("set_operations");
  }
  c.distinct(nm + ops);
}
} // namespace
VF_GROUP(bitset, 300, 20000) {
  bitset_case<E8>(c, 8, "uint8"); bitset_case<EC>(c, 8, "char"); bitset_case<EI>(c, 32, "int"); bitset_case<EU>(c, 32, "unsigned"); bitset_case<EL>(c, 64, "uint64"); bitset_case<ES>(c, 16, "int16");
}
VF_GROUP(sp3flag, 400, 40000) {
  using fl::Sp3Event; using fl::operator|; constexpr int N = 12; auto e = [](int k) { return static_cast<Sp3Event>(k); }; Quiet quiet;
  const Sp3Event all[N] = {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event, Sp3Event::clock_prediction, Sp3Event::maneuver, Sp3Event::orbit_prediction, Sp3Event::has_pos_stddev, Sp3Event::has_clk_stddev, Sp3Event::bad_abscent_velocity, Sp3Event::bad_abscent_clock_rate, Sp3Event::has_vel_stddev, Sp3Event::has_clk_rate_stdev};
  (void)e; fl::Sp3Flag f; std::set<int> sh; std::string ops; c.check(f.is_clean(), "sp3_fresh", "fresh flag not clean");
  for (int q = 0, n = (int)c.r.i(3, 40); q < n; q++) {
    int k[5]; for (int &x : k) x = (int)c.r.i(0, N - 1); Sp3Event a = all[k[0]], b = all[k[1]], d = all[k[2]], g = all[k[3]], h = all[k[4]];
    switch (c.r.i(0, 7)) {
    case 0: case 1: f.set(a); sh.insert(k[0]); ops += vf::fmt(" set%d", k[0]); break;
    case 2: f.clear(a); sh.erase(k[0]); ops += vf::fmt(" clear%d", k[0]); break;
    case 3: if (c.r.p(0.3)) { f.reset(); sh.clear(); ops += " reset"; } break;
    case 4: f.set(a | b); sh.insert({k[0], k[1]}); ops += vf::fmt(" or%d|%d", k[0], k[1]); break;
    case 5: f.set(a | b | d); sh.insert({k[0], k[1], k[2]}); ops += vf::fmt(" or%d|%d|%d", k[0], k[1], k[2]); break;
    case 6: f.set(a | b | d | g | h); sh.insert(k, k + 5); ops += vf::fmt(" or%d|%d|%d|%d|%d", k[0], k[1], k[2], k[3], k[4]); break;
    default: { fl::Sp3Flag f2 = f; f2.reset(); c.check(f2.is_clean(), "sp3_reset", "not clean after reset"); f2.set(a | b); for (int x = 0; x < N; x++) c.check(f2.is_set(all[x]) == (x == k[0] || x == k[1]), "sp3_member", "member %d after reset, %d|%d", x, k[0], k[1]); }
    }
    for (int x = 0; x < N; x++) if (f.is_set(all[x]) != (sh.count(x) > 0)) { c.viol("sp3_member", vf::fmt("member %d is %d, expected %d after %s", x, f.is_set(all[x]), (int)sh.count(x), ops.c_str())); break; }
    c.check(f.is_clean() == sh.empty(), "sp3_clean", "is_clean=%d with %zu members after %s", f.is_clean(), sh.size(), ops.c_str()); c.event("set_operations");
  }
  c.distinct("sp3" + ops);
}
VF_GROUP(compound, 300, 40000) {
  cm::Measurement3 m; m.val_ = c.r.n() * c.r.logu(1e-3, 1e9); double keep = m.val_; int s1 = 0, s2 = 0, s3 = 0; std::string ops;
  c.check(m.flag_.get_flag1() == 0 && m.flag_.get_flag2() == 0 && m.flag_.get_missing() == 0, "packed_fresh", "fresh flags not zero");
  for (int q = 0, n = (int)c.r.i(5, 60); q < n; q++) {
    int v = c.r.p(0.3) ? c.r.pick({0, 1, 127, 128, 255}) : (int)c.r.i(0, 255);
    switch (c.r.i(0, 2)) { case 0: m.flag_.set_flag1((uint8_t)v); s1 = v; ops += vf::fmt(" 1=%d", v); break; case 1: m.flag_.set_flag2((uint8_t)v); s2 = v; ops += vf::fmt(" 2=%d", v); break; default: m.flag_.set_missing((uint8_t)v); s3 = v; ops += vf::fmt(" m=%d", v); }
    c.check(m.flag_.get_flag1() == s1 && m.flag_.get_flag2() == s2 && m.flag_.get_missing() == s3 && m.val_ == keep, "packed_members", "flags %d %d %d, expected %d %d %d after %s", (int)m.flag_.get_flag1(), (int)m.flag_.get_flag2(), (int)m.flag_.get_missing(), s1, s2, s3, ops.c_str());
    double w = s3 ? -999.99 : s1 > 16 ? keep + 1e3 : s2 < 16 ? keep - 1e-3 : keep / 1e3; c.check(cm::foo1(m) == w, "packed_value", "%.17g, expected %.17g", cm::foo1(m), w);
    if (s1 < 128 && s2 < 128) { // the three representations of one measurement agree
      cm::Measurement1 a; a.val_ = keep; a.missing_ = s3 != 0; a.flagm1_ = (int_fast8_t)s1; a.flagm2_ = (int_fast8_t)s2; cm::Measurement2 b; b.val_ = s3 ? cm::MISSING : keep; b.flagm1_ = (int_fast8_t)s1; b.flagm2_ = (int_fast8_t)s2;
      c.check(cm::foo1(a) == w && cm::foo1(b) == w, "packed_representations", "%.17g %.17g, expected %.17g", cm::foo1(a), cm::foo1(b), w); }
    c.event("packed_operations");
  }
  c.distinct("cm" + ops);
}

// ---- C28
namespace {
struct Table { std::unique_ptr<double[]> x, y; int n; };
Table table(vf::Rng &r, int n, int deg, std::vector<double> &co) { // exactly sized arrays; deg < 0: random values
  Table t; t.n = n; t.x = std::make_unique<double[]>(n); t.y = std::make_unique<double[]>(n); double at = r.p(0.3) ? 0 : r.n() * 50; bool even = r.p(0.5); double st = r.logu(0.1, 20);
  for (int k = 0; k < n; k++) { t.x[k] = at; at += even ? st : r.logu(0.05, 10); }
  co.assign(std::max(deg, 0) + 1, 0); for (double &v : co) v = r.n() * 3;
  for (int k = 0; k < n; k++) { if (deg < 0) t.y[k] = r.n() * 10; else { LD s = 0, u = t.x[k] - t.x[0]; for (int q = deg; q >= 0; q--) s = s * u + co[q]; t.y[k] = (double)s; } }
  return t;
}
double argument(vf::Rng &r, const Table &t, int &kind) {
  int k = (int)r.i(0, t.n - 1); double w = t.n > 1 ? t.x[t.n - 1] - t.x[0] : 1; kind = (int)r.i(0, 7);
  switch (kind) { case 0: case 1: return t.x[k]; case 2: return std::nextafter(t.x[k], r.p(0.5) ? 1e9 : -1e9); case 3: return t.x[0] - r.u() * w - 1e-9; case 4: return t.x[t.n - 1] + r.u() * w + 1e-9; case 5: return r.p(0.5) ? t.x[t.n - 1] : t.x[0]; case 6: return t.n > 1 ? (k ? (t.x[k] + t.x[k - 1]) / 2 : (t.x[0] + t.x[1]) / 2) : t.x[0]; default: return t.x[0] + r.u() * w; }
}
LD lag3(const Table &t, int a, int b, int d, LD x) { LD x0 = t.x[a], x1 = t.x[b], x2 = t.x[d]; return t.y[a] * ((x - x1) * (x - x2)) / ((x0 - x1) * (x0 - x2)) + t.y[b] * ((x - x0) * (x - x2)) / ((x1 - x0) * (x1 - x2)) + t.y[d] * ((x - x0) * (x - x1)) / ((x2 - x0) * (x2 - x1)); }
} // namespace
VF_GROUP(interpolate, 2500, 200000) {
  int n = c.r.p(0.3) ? (int)c.r.i(1, 3) : (int)c.r.i(1, 40), deg = (int)c.r.i(-1, 2); std::vector<double> co; Table t = table(c.r, n, deg, co);
  ip::NearestNeighborInterpolator N(t.x.get(), t.y.get(), n); ip::LinearInterpolator L(t.x.get(), t.y.get(), n); ip::QuadraticInterpolator Q(t.x.get(), t.y.get(), n);
  double ys = 1e-12; for (int k = 0; k < n; k++) ys = std::max(ys, std::fabs(t.y[k]));
  for (int q = 0; q < 12; q++) {
    int kind; double x = argument(c.r, t, kind); int want = x < t.x[0] ? 1 : x > t.x[n - 1] ? 2 : 0, s[3] = {77, 77, 77}; double v[3] = {N.value_at(x, s[0]), L.value_at(x, s[1]), Q.value_at(x, s[2])};
    const char *nm[3] = {"nearest", "linear", "quadratic"}; std::string show = vf::fmt("n=%d deg=%d x=%.17g in [%.17g,%.17g]", n, deg, x, t.x[0], t.x[n - 1]);
    for (int k = 0; k < 3; k++) c.check(s[k] == want, "intrp_status", "%s: status %d, expected %d; %s", nm[k], s[k], want, show.c_str());
    if (want) { for (int k = 0; k < 3; k++) c.check(v[k] == t.y[want == 1 ? 0 : n - 1], "intrp_outside_value", "%s: %.17g; %s", nm[k], v[k], show.c_str()); c.event("outside"); continue; }
    int i = 0; while (i + 1 < n - 1 && x >= t.x[i + 1]) i++; // x in [x_i, x_i+1]
    bool node = false; for (int k = 0; k < n; k++) if (x == t.x[k]) { node = true; for (int j = 0; j < 3; j++) c.near(v[j], t.y[k], j ? 1e-13 * ys : 0, "intrp_node", vf::fmt("%s node %d; ", nm[j], k) + show); }
    if (!node) { LD a = (LD)x - t.x[i], b = (LD)t.x[i + 1] - x; bool tie = std::fabs((double)(a - b)) <= 1e-13 * (std::fabs(x) + std::fabs(t.x[i + 1]));
      c.check(tie ? v[0] == t.y[i] || v[0] == t.y[i + 1] : v[0] == t.y[a < b ? i : i + 1], "intrp_nearest", "%.17g, nodes %.17g %.17g; %s", v[0], t.y[i], t.y[i + 1], show.c_str());
      LD w = t.y[i] + ((LD)t.y[i + 1] - t.y[i]) * a / (a + b); double cond = 1e-12 * ys * (1 + std::fabs(x) / (double)(a + b)); c.near(v[1], (double)w, cond, "intrp_linear", show);
      if (n == 2) c.near(v[2], (double)w, cond, "intrp_quadratic", show);
      else { bool l = i > 0, r = i + 2 < n; LD A = l ? lag3(t, i, i + 1, i - 1, x) : 0, B = r ? lag3(t, i, i + 1, i + 2, x) : 0; double hmin = (double)(a + b); if (l) hmin = std::min(hmin, t.x[i] - t.x[i - 1]); if (r) hmin = std::min(hmin, t.x[i + 2] - t.x[i + 1]);
        double tol = 1e-11 * ys * (1 + (std::fabs(x) + (double)(a + b)) / hmin) * std::max(1.0, (double)(a + b) / hmin);
        if (l && r && deg < 0) { LD dl = x - (LD)t.x[i - 1], dr = (LD)t.x[i + 2] - x; if (std::fabs((double)(dl - dr)) > 1e-9 * hmin) { if (dl < dr) r = false; else l = false; } }
        c.check((l && std::fabs((double)(v[2] - A)) <= tol) || (r && std::fabs((double)(v[2] - B)) <= tol), "intrp_quadratic", "%.17g, expected %.17Lg or %.17Lg (%d %d); %s", v[2], A, B, l, r, show.c_str());
        if (deg >= 0) { LD u = x - (LD)t.x[0], P = 0; for (int k = deg; k >= 0; k--) P = P * u + co[k]; c.near(v[2], (double)P, tol, "intrp_exact", vf::fmt("degree %d; ", deg) + show); } }
      if (deg == 0 || deg == 1) { LD u = x - (LD)t.x[0], P = co[0] + (deg ? co[1] * u : 0); c.near(v[1], (double)P, cond, "intrp_exact", vf::fmt("linear, degree %d; ", deg) + show); } }
    c.event(node ? "at_nodes" : "between"); c.distinct(vf::fmt("%d/%d/%d/%d", n, deg, i, node));
  }
  if (c.r.p(0.2)) { int s1 = 0, s2 = 0, s3 = 0; N.value_at(NAN, s1); L.value_at(NAN, s2); Q.value_at(NAN, s3); c.check(s1 && s2 && s3, "intrp_nan", "statuses %d %d %d", s1, s2, s3); }
}
