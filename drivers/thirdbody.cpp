// C05: third-body attraction, analytic Sun/Moon, ephemeris wrapper.
#include "vf.hpp"
#include "egravity.hpp"
#include "planetpos.hpp"
#include "orbit_integration.hpp"
#include "iers2010/iau.hpp"
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> V3;
static const ld PI = 3.141592653589793238462643383279502884L;
static ld d2r(ld x) { return x * PI / 180; }

// ------------------------------------------------ recording SPICE stand-in
namespace pool {
struct K { std::string name, kind; };
std::vector<K> loaded;
std::vector<std::string> furnished;
double gmsun = 1.32712440018e11, gmmoon = 4902.8;
int nsun = 1, nmoon = 1;
struct Call { int t, o; double et; std::string ref, ab; };
std::vector<Call> calls;
std::string kind_of(const std::string &n) {
  auto p = n.rfind('.'); std::string e = p == std::string::npos ? "" : n.substr(p + 1);
  if (e == "bsp") return "SPK";
  if (e == "bpc") return "PCK";
  return "TEXT";
}
std::string up(const char *s) { std::string r; for (; *s; s++) r += (char)toupper(*s); return r; }
void reset() { loaded.clear(); furnished.clear(); calls.clear(); nsun = nmoon = 1; }
// any smooth, body dependent function will do
void state(int t, int o, double et, double *p) {
  double a = 1e-7 * et * (t + 1) + o * 0.01;
  p[0] = t * 1e5 * std::cos(a) + o; p[1] = t * 1e5 * std::sin(a) - o; p[2] = 1e3 * t * std::cos(2 * a);
}
double et_of(double jd) { return (jd - 2451545.0) * 86400.0; }
} // namespace pool
extern "C" {
void furnsh_c(const char *f) { pool::furnished.push_back(f); pool::loaded.push_back({f, pool::kind_of(f)}); }
void ktotal_c(const char *k, int *n) { *n = 0; for (auto &x : pool::loaded) if (x.kind == pool::up(k) || pool::up(k) == "ALL") ++*n; }
static void put(char *d, int len, const std::string &s) { size_t n = std::min((size_t)len - 1, s.size()); memcpy(d, s.data(), n); d[n] = 0; }
void kdata_c(int which, const char *k, int fl, int tl, int sl, char *file, char *typ, char *src, int *h, int *found) {
  *found = 0; int i = 0;
  for (auto &x : pool::loaded)
    if (x.kind == pool::up(k) || pool::up(k) == "ALL") {
      if (i++ == which) { put(file, fl, x.name); put(typ, tl, x.kind); put(src, sl, ""); *h = x.kind == "TEXT" ? 0 : which + 1; *found = 1; return; }
    }
}
void bodvrd_c(const char *b, const char *, int maxn, int *dim, double *v) {
  bool sun = pool::up(b) == "SUN", moon = pool::up(b) == "MOON"; int n = sun ? pool::nsun : moon ? pool::nmoon : 0;
  if (n <= 0) return; // SPICE leaves its outputs alone when it fails
  *dim = n; if (maxn >= 1) *v = sun ? pool::gmsun : pool::gmmoon;
}
double unitim_c(double e, const char *in, const char *out) {
  if (pool::up(in) == "JDTDT" && pool::up(out) == "ET") return pool::et_of(e);
  return NAN;
}
void spkezp_c(int t, double et, const char *ref, const char *ab, int o, double *p, double *lt) { pool::calls.push_back({t, o, et, ref, ab}); pool::state(t, o, et, p); *lt = 1; }
}

// ------------------------------------------------------------ third body
struct PM { ld a[3], P[3][3], mag, pmag; };
static PM ref_pm(ld GM, const double *r, const double *s) {
  PM o; ld d[3], d2 = 0, s2 = 0;
  for (int i = 0; i < 3; i++) { d[i] = (ld)s[i] - r[i]; d2 += d[i] * d[i]; s2 += (ld)s[i] * s[i]; }
  ld dn = sqrtl(d2), sn = sqrtl(s2);
  o.mag = GM * (1 / d2 + 1 / s2); o.pmag = GM / (d2 * dn);
  for (int i = 0; i < 3; i++) {
    o.a[i] = GM * (d[i] / (dn * d2) - s[i] / (sn * s2));
    for (int j = 0; j < 3; j++) o.P[i][j] = GM * (3 * d[i] * d[j] / (d2 * d2 * dn) - (i == j ? 1 / (d2 * dn) : 0));
  }
  return o;
}
static V3 rnd_dir(vf::Rng &r) { V3 v(r.n(), r.n(), r.n()); return v / v.norm(); }

VF_GROUP(third_body, 4000, 60000) {
  V3 r, s; double GM; int kind = (int)(c.idx % 6);
  switch (kind) {
  case 0: GM = 1.32712440018e20; r = rnd_dir(c.r) * c.r.u(6.6e6, 4e7); s = rnd_dir(c.r) * c.r.u(1.45e11, 1.53e11); break;
  case 1: GM = 4.9028e12; r = rnd_dir(c.r) * c.r.u(6.6e6, 4e7); s = rnd_dir(c.r) * c.r.u(3.5e8, 4.1e8); break;
  case 2: GM = 4902.8; r = rnd_dir(c.r) * c.r.u(6.6e3, 4e4); s = rnd_dir(c.r) * c.r.u(3.5e5, 4.1e5); break;
  case 3: GM = c.r.logu(1e-3, 1e20); s = rnd_dir(c.r) * c.r.logu(1, 1e12); r = s + rnd_dir(c.r) * (s.norm() * c.r.logu(1e-3, 1)); break; // close to the body
  case 4: GM = c.r.logu(1, 1e20); r = rnd_dir(c.r) * c.r.logu(1, 1e9); s = rnd_dir(c.r) * (r.norm() * c.r.logu(1e-2, 1e2)); break;
  default: GM = c.r.logu(1, 1e20); s = V3(0, 0, 0); s(c.r.i(0, 2)) = c.r.sgn() * c.r.logu(1e5, 1e11); r = V3(0, 0, 0); r(c.r.i(0, 2)) = c.r.sgn() * s.norm() * c.r.u(0.01, 0.5); // axis aligned
  }
  if ((r - s).norm() < 1e-4 * s.norm()) return;
  PM o = ref_pm(GM, r.data(), s.data());
  ld amp = (ld)std::max(r.norm(), s.norm()) / (r - s).norm(); // error of the difference r-s
  double ta = (double)(o.mag * 1e-15L * (8 + 8 * amp)), tp = (double)(o.pmag * 1e-15L * (16 + 16 * amp));
  V3 a1 = dso::point_mass_accel(GM, r, s);
  Eigen::Matrix<double, 3, 3> P; P.setConstant(NAN);
  V3 a2 = dso::point_mass_accel(GM, r, s, P);
  dso::Vector3 rv, sv; for (int i = 0; i < 3; i++) { rv(i) = r(i); sv(i) = s(i); }
  dso::Vector3 a3 = dso::point_mass_accel(rv, sv, GM);
  for (int i = 0; i < 3; i++) {
    std::string w = vf::fmt("kind %d axis %d GM %g", kind, i, GM);
    c.near(a1(i), (double)o.a[i], ta, "accel", w);
    c.near(a2(i), (double)o.a[i], ta, "accel_with_partials", w);
    c.near(a3(i), (double)o.a[i], ta, "accel_vector3", w);
    for (int j = 0; j < 3; j++) c.near(P(i, j), (double)o.P[i][j], tp, "partials", w + vf::fmt(" col %d", j));
  }
  c.distinct(vf::fmt("%d %d %d", kind, (int)std::log2(r.norm()), (int)std::log2(s.norm() / (r - s).norm() + 1e-9)));
  if (c.idx < 2) c.sample(vf::fmt("GM=%g r=(%g,%g,%g) s=(%g,%g,%g) a=(%g,%g,%g)", GM, r(0), r(1), r(2), s(0), s(1), s(2), a1(0), a1(1), a1(2)));
}

// --------------------------------------------------- published Sun series
struct P3 { ld x[3]; };
static P3 ecl(ld lon, ld lat, ld r, ld eps) {
  ld X = r * cosl(lon) * cosl(lat), Y = r * sinl(lon) * cosl(lat), Z = r * sinl(lat);
  return {{X, cosl(eps) * Y - sinl(eps) * Z, sinl(eps) * Y + cosl(eps) * Z}};
}
static const ld AUK = 149597870.7L;
static P3 sun_mg(ld T) {
  ld M = 2 * PI * fmodl(0.9931267L + 99.9973583L * T, 1);
  ld L = 2 * PI * fmodl(0.7859444L + M / (2 * PI) + (6892 * sinl(M) + 72 * sinl(2 * M)) / 1296e3L, 1);
  return ecl(L, 0, (149.619L - 2.499L * cosl(M) - 0.021L * cosl(2 * M)) * 1e6L, d2r(23.43929111L));
}
static P3 sun_vallado(ld T) {
  ld M = d2r(fmodl(357.5291092L + 35999.50534L * T, 360));
  ld l = fmodl(280.460L + 36000.771L * T, 360) + 1.914666471L * sinl(M) + 0.019994643L * sinl(2 * M);
  return ecl(d2r(l), 0, (1.000140612L - 0.016708617L * cosl(M) - 0.000139589L * cosl(2 * M)) * AUK, d2r(23.439291L - 0.0130042L * T));
}
static P3 sun_curtis(ld n) {
  ld M = d2r(fmodl(357.529L + 0.98560023L * n, 360));
  ld l = fmodl(280.459L + 0.98564736L * n, 360) + 1.915L * sinl(M) + 0.02L * sinl(2 * M);
  return ecl(d2r(l), 0, (1.00014L - 0.01671L * cosl(M) - 0.00014L * cosl(2 * M)) * AUK, d2r(23.439L - 3.56e-7L * n));
}
// Meeus, chapter 25 (mean equinox of date)
static void meeus_sun(ld T, ld &lon, ld &R, ld &eps) {
  ld L0 = 280.46646L + 36000.76983L * T + 0.0003032L * T * T, M = d2r(357.52911L + 35999.05029L * T - 0.0001537L * T * T);
  ld e = 0.016708634L - 0.000042037L * T - 0.0000001267L * T * T;
  ld C = (1.914602L - 0.004817L * T - 0.000014L * T * T) * sinl(M) + (0.019993L - 0.000101L * T) * sinl(2 * M) + 0.000289L * sinl(3 * M);
  R = 1.000001018L * (1 - e * e) / (1 + e * cosl(M + d2r(C))) * AUK;
  lon = d2r(fmodl(L0 + C, 360)); eps = d2r(23.4392911L - 0.0130042L * T);
}
static ld angle(const ld *a, const ld *b) {
  ld d = 0, na = 0, nb = 0, c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, cn = 0;
  for (int i = 0; i < 3; i++) { d += a[i] * b[i]; na += a[i] * a[i]; nb += b[i] * b[i]; cn += c[i] * c[i]; }
  (void)na; (void)nb;
  return atan2l(sqrtl(cn), d);
}
static ld nrm(const ld *a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static double epoch_T(vf::Rng &r, long idx) { // 1950..2050, J2000 and its neighbourhood included
  if (idx % 16 == 0) return 0; if (idx % 16 == 1) return r.sgn() * r.logu(1e-9, 1e-2);
  return r.u(-0.5, 0.5);
}
template <class F> static void vs_series(vf::Ctx &c, const char *key, const char *skey, F f, double arg, P3 ref, double tolkm, double maxstep, double dt) {
  double p[3] = {NAN, NAN, NAN}, q[3];
  int st = f(arg, p);
  c.check(st == 0, "status", "%s status %d", key, st);
  for (int i = 0; i < 3; i++) c.near(p[i], (double)ref.x[i], tolkm, key, vf::fmt("arg %.12g axis %d", arg, i));
  f(arg + dt, q); // smoothness across every wrap of the arguments
  ld d[3] = {q[0] - (ld)p[0], q[1] - (ld)p[1], q[2] - (ld)p[2]};
  c.check(nrm(d) <= maxstep, skey, "arg %.12g moves %Lg km in one step", arg, nrm(d));
}
static int (*S_MG)(double, double *) noexcept = dso::sun_vector_montenbruck;
static int (*S_VA)(double, double *) noexcept = dso::sun_vector_vallado;
static int (*S_CU)(double, double *) noexcept = dso::sun_vector_curtis;
static int (*M_AP)(double, double *) noexcept = dso::moon_vector_approx;
static int (*M_VA)(double, double *) noexcept = dso::moon_vector_vallado;
static int (*SM_)(double, double *) noexcept = nullptr;

VF_GROUP(sun_series, 3000, 60000) {
  double T = epoch_T(c.r, c.idx), n = T * 36525;
  const double minute = 1.0 / 1440 / 36525;
  vs_series(c, "sun_montenbruck", "sun_smooth", S_MG, T, sun_mg(T), 1.0, 2000, minute);
  vs_series(c, "sun_vallado", "sun_smooth", S_VA, T, sun_vallado(T), 1.0, 2000, minute);
  vs_series(c, "sun_curtis", "sun_smooth", S_CU, n, sun_curtis(n), 1.0, 2000, minute * 36525);
#ifdef DEBUG
  SM_ = dso::sun_vector_approx21;
  vs_series(c, "sun_approx21", "sun_smooth", SM_, T, sun_vallado(T), 1.0, 2000, minute);
#endif
  // accuracy against an independent theory
  ld lon, R, eps; meeus_sun(T, lon, R, eps);
  ld T_ = T, prec = d2r(1.396971L * T_ + 0.0003086L * T_ * T_); // general precession in longitude
  P3 j = ecl(lon - prec, 0, R, d2r(23.4392911L)), od = ecl(lon, 0, R, eps);
  struct { const char *k; int (*f)(double, double *) noexcept; double arg; P3 &ref; double deg, km; } tb[] = {
      {"sun_accuracy_montenbruck", S_MG, T, j, 0.2, 60000}, {"sun_accuracy_vallado", S_VA, T, od, 0.02, 30000}, {"sun_accuracy_curtis", S_CU, n, od, 0.03, 30000}};
  for (auto &t : tb) {
    double p[3]; t.f(t.arg, p); ld q[3] = {p[0], p[1], p[2]};
    c.near((double)(angle(q, t.ref.x) * 180 / PI), 0, t.deg, t.k, vf::fmt("T=%.9g direction [deg]", T));
    c.near((double)nrm(q), (double)nrm(t.ref.x), t.km, t.k, vf::fmt("T=%.9g distance [km]", T));
  }
  c.distinct(vf::fmt("%ld", (long)std::floor(T * 36525)));
}

// -------------------------------------------------- published Moon series
static P3 moon_mg(ld t) {
  using namespace iers2010::sofa;
  ld l = fal03((double)t), lp = falp03((double)t), F = faf03((double)t), D = fad03((double)t);
  ld L0 = fmodl(0.606433L + 1336.851344L * t, 1) * 1296000;
  struct { int a, l, lp, F, D; } T[] = {{22640, 1, 0, 0, 0}, {769, 2, 0, 0, 0}, {-4586, 1, 0, 0, -2}, {2370, 0, 0, 0, 2}, {-668, 0, 1, 0, 0}, {-412, 0, 0, 2, 0}, {-212, 2, 0, 0, -2}, {-206, 1, 1, 0, -2}, {192, 1, 0, 0, 2}, {-165, 0, 1, 0, -2}, {148, 1, -1, 0, 0}, {-125, 0, 0, 0, 1}, {-110, 1, 1, 0, 0}, {-55, 0, 0, 2, -2}};
  ld dl = 0;
  for (auto &k : T) dl += k.a * sinl(k.l * l + k.lp * lp + k.F * F + k.D * D);
  const ld as = PI / 648000;
  ld lon = (L0 + dl) * as;
  struct { int a, l, lp, F, D; } B[] = {{-526, 0, 0, 1, -2}, {44, 1, 0, 1, -2}, {-31, -1, 0, 1, -2}, {-25, -2, 0, 1, 0}, {-23, 0, 1, 1, -2}, {21, -1, 0, 1, 0}, {11, 0, -1, 1, -2}};
  ld b = 18520 * sinl(F + (dl + 412 * sinl(2 * F) + 541 * sinl(lp)) * as);
  for (auto &k : B) b += k.a * sinl(k.l * l + k.lp * lp + k.F * F + k.D * D);
  struct { int a, l, lp, D; } R[] = {{385000, 0, 0, 0}, {-20905, 1, 0, 0}, {-3699, -1, 0, 2}, {-2956, 0, 0, 2}, {-570, 2, 0, 0}, {246, 2, 0, -2}, {-205, 0, 1, -2}, {-171, 1, 0, 2}, {-152, 1, 1, -2}};
  ld r = 0;
  for (auto &k : R) r += k.a * cosl(k.l * l + k.lp * lp + k.D * D);
  return ecl(lon, b * as, r, d2r(23.43929111L));
}
static P3 moon_va(ld t) {
  auto S = [&](ld a, ld r) { return sinl(d2r(a + r * t)); };
  auto C = [&](ld a, ld r) { return cosl(d2r(a + r * t)); };
  ld lon = 218.32L + 481267.8813L * t + 6.29L * S(134.9L, 477198.85L) - 1.27L * S(259.2L, -413335.38L) + 0.66L * S(235.7L, 890534.23L) + 0.21L * S(269.9L, 954397.70L) - 0.19L * S(357.5L, 35999.05L) - 0.11L * S(186.6L, 966404.05L);
  ld lat = 5.13L * S(93.3L, 483202.03L) + 0.28L * S(228.2L, 960400.87L) - 0.28L * S(318.3L, 6003.18L) - 0.17L * S(217.6L, -407332.20L);
  ld par = 0.9508L + 0.0518L * C(134.9L, 477198.85L) + 0.0095L * C(259.2L, -413335.38L) + 0.0078L * C(235.7L, 890534.23L) + 0.0028L * C(269.9L, 954397.70L);
  return ecl(d2r(lon), d2r(lat), 6378.1366L / sinl(d2r(par)), d2r(23.439291L - 0.0130042L * t));
}
// Meeus chapter 47, leading terms (mean equinox of date)
static void meeus_moon(ld T, ld &lon, ld &lat, ld &R) {
  ld Lp = 218.3164477L + 481267.88123421L * T - 0.0015786L * T * T, D = d2r(297.8501921L + 445267.1114034L * T - 0.0018819L * T * T), M = d2r(357.5291092L + 35999.0502909L * T), Mp = d2r(134.9633964L + 477198.8675055L * T + 0.0087414L * T * T), F = d2r(93.2720950L + 483202.0175233L * T - 0.0036539L * T * T);
  struct { int d, m, mp, f, l, r; } A[] = {{0, 0, 1, 0, 6288774, -20905355}, {2, 0, -1, 0, 1274027, -3699111}, {2, 0, 0, 0, 658314, -2955968}, {0, 0, 2, 0, 213618, -569925}, {0, 1, 0, 0, -185116, 48888}, {0, 0, 0, 2, -114332, -3149}, {2, 0, -2, 0, 58793, 246158}, {2, -1, -1, 0, 57066, -152138}, {2, 0, 1, 0, 53322, -170733}, {2, -1, 0, 0, 45758, -204586}, {0, 1, -1, 0, -40923, -129620}, {1, 0, 0, 0, -34720, 108743}, {0, 1, 1, 0, -30383, 104755}, {2, 0, 0, -2, 15327, 10321}, {0, 0, 1, 2, -12528, 0}, {0, 0, 1, -2, 10980, 79661}, {4, 0, -1, 0, 10675, -34782}, {0, 0, 3, 0, 10034, -23210}, {4, 0, -2, 0, 8548, -21636}};
  ld l = 0, r = 0, b = 0;
  for (auto &k : A) { ld a = k.d * D + k.m * M + k.mp * Mp + k.f * F; l += k.l * sinl(a); r += k.r * cosl(a); }
  struct { int d, m, mp, f, b; } B[] = {{0, 0, 0, 1, 5128122}, {0, 0, 1, 1, 280602}, {0, 0, 1, -1, 277693}, {2, 0, 0, -1, 173237}, {2, 0, -1, 1, 55413}, {2, 0, -1, -1, 46271}, {2, 0, 0, 1, 32573}, {0, 0, 2, 1, 17198}};
  for (auto &k : B) b += k.b * sinl(k.d * D + k.m * M + k.mp * Mp + k.f * F);
  lon = d2r(fmodl(Lp + l * 1e-6L, 360)); lat = d2r(b * 1e-6L); R = 385000.56L + r * 1e-3L;
}
VF_GROUP(moon_series, 3000, 60000) {
  double T = epoch_T(c.r, c.idx);
  const double minute = 1.0 / 1440 / 36525;
  vs_series(c, "moon_approx", "moon_smooth", M_AP, T, moon_mg(T), 0.5, 90, minute);
  vs_series(c, "moon_vallado", "moon_smooth", M_VA, T, moon_va(T), 0.5, 90, minute);
  ld lon, lat, R; meeus_moon(T, lon, lat, R);
  ld prec = d2r(1.396971L * T + 0.0003086L * T * T);
  P3 j = ecl(lon - prec, lat, R, d2r(23.4392911L)), od = ecl(lon, lat, R, d2r(23.4392911L - 0.0130042L * T));
  struct { const char *k; int (*f)(double, double *) noexcept; P3 &ref; double deg, km; } tb[] = {{"moon_accuracy_approx", M_AP, j, 0.1, 900}, {"moon_accuracy_vallado", M_VA, od, 0.6, 2500}};
  for (auto &t : tb) {
    double p[3]; t.f(T, p); ld q[3] = {p[0], p[1], p[2]};
    c.near((double)(angle(q, t.ref.x) * 180 / PI), 0, t.deg, t.k, vf::fmt("T=%.9g direction [deg]", T));
    c.near((double)nrm(q), (double)nrm(t.ref.x), t.km, t.k, vf::fmt("T=%.9g distance [km]", T));
  }
  c.distinct(vf::fmt("%ld", (long)std::floor(T * 36525)));
}

// date overloads, ephemeris wrappers, SunMoon()
VF_GROUP(ephemeris, 2000, 20000) {
  pool::reset();
  long mjd = c.r.i(33282, 69806), ns = (long)(c.r.u() * 86400e9);
  dso::datetime<dso::nanoseconds> t{dso::modified_julian_day(mjd), dso::nanoseconds(ns)};
  double T = t.jcenturies_sinceJ2000(), a[3], b[3];
  auto same = [&](const char *k, double tol) { for (int i = 0; i < 3; i++) c.near(a[i], b[i], tol, k, vf::fmt("mjd %ld", mjd)); };
  dso::sun_vector_montenbruck(t, a); S_MG(T, b); same("date_overload", 1e-3);
  dso::sun_vector_vallado(t, a); S_VA(T, b); same("date_overload", 1e-3);
  dso::sun_vector_curtis(t, a); S_CU(T * 36525, b); same("date_overload", 0.5);
  dso::moon_vector_approx(t, a); M_AP(T, b); same("date_overload", 1e-3);
  dso::moon_vector_vallado(t, a); M_VA(T, b); same("date_overload", 1e-3);
  double jd = 2400000.5 + mjd + ns / 86400e9, et = pool::et_of(jd);
  auto last = [&](int body, const char *w) {
    auto &k = pool::calls.back();
    c.check(k.t == body && k.o == 399 && k.ref == "J2000" && k.ab == "NONE" && std::fabs(k.et - et) < 2e-4, "ephemeris_request", "%s asked for body %d from %d in %s/%s at %.6f instead of %.6f", w, k.t, k.o, k.ref.c_str(), k.ab.c_str(), k.et, et);
    pool::state(body, 399, k.et, b);
  };
  dso::sun_vector_cspice(t, a); last(10, "sun"); same("ephemeris_value", 0);
  dso::moon_vector_cspice(t, a); last(301, "moon"); same("ephemeris_value", 0);
  int tgt = (int)c.r.pick({1, 2, 10, 301, 399, 599}), obs = (int)c.r.pick({0, 399, 301});
  double e2 = c.r.u(-1e9, 1e9); dso::cspice::j2planet_pos_from(e2, tgt, obs, a);
  c.check(pool::calls.back().t == tgt && pool::calls.back().o == obs && pool::calls.back().et == e2, "ephemeris_request", "j2planet_pos_from(%d,%d)", tgt, obs);
  pool::state(tgt, obs, e2, b); same("ephemeris_value", 0);
  // SunMoon: TAI in, km ephemeris, metres out; a few epochs in a row that lie
  // close together, as an integrator asks for them
  double tai = mjd + c.r.u();
  for (int step = 0, steps = (int)c.r.i(1, 4); step < steps; step++) {
    if (step) { tai += c.r.sgn() * c.r.logu(1e-7, 1e-2); c.event("sunmoon-close-epochs"); }
  V3 r = rnd_dir(c.r) * c.r.u(6.6e6, 4e7), sa, ma, sp; Eigen::Matrix3d mp;
  sa.setConstant(NAN); ma = sp = sa; mp.setConstant(NAN);
  double gs = 1.32712440018e11 * c.r.u(0.9, 1.1), gm = 4902.8 * c.r.u(0.9, 1.1);
  size_t k0 = pool::calls.size();
  dso::SunMoon(tai, r, gs, gm, sa, ma, sp, mp);
  double want = pool::et_of(tai + 32.184 / 86400 + 2400000.5);
  double s[3], m[3]; bool gots = false, gotm = false;
  for (size_t k = k0; k < pool::calls.size(); k++) {
    auto &q = pool::calls[k];
    c.check(std::fabs(q.et - want) < 2e-4 && q.o == 399, "sunmoon_epoch", "TAI %.9f asked at ET %.6f, expected %.6f", tai, q.et, want);
    double *d = q.t == 10 ? s : q.t == 301 ? m : nullptr;
    if (d) { pool::state(q.t, 399, q.et, d); (q.t == 10 ? gots : gotm) = true; for (int i = 0; i < 3; i++) d[i] *= 1e3; }
  }
  if (!c.check(gots && gotm, "sunmoon_bodies", "SunMoon did not ask for both bodies")) return;
  PM ps = ref_pm((ld)gs * 1e9L, r.data(), s), pm = ref_pm((ld)gm * 1e9L, r.data(), m);
  for (int i = 0; i < 3; i++) {
    c.near(sp(i), s[i], std::fabs(s[i]) * 1e-14 + 1e-6, "sunmoon_sunpos");
    c.near(sa(i), (double)ps.a[i], (double)ps.mag * 1e-13, "sunmoon_sun_acc");
    c.near(ma(i), (double)pm.a[i], (double)pm.mag * 1e-13, "sunmoon_moon_acc");
    for (int j = 0; j < 3; j++) c.near(mp(i, j), (double)pm.P[i][j], (double)pm.pmag * 1e-12, "sunmoon_moon_partials");
  }
  }
  c.distinct(vf::fmt("%ld", mjd));
}

VF_GROUP(kernels, 1000, 20000) {
  pool::reset();
  // names that are prefixes of each other, text and binary kinds, long paths
  std::string base = c.r.p(0.3) ? std::string((size_t)c.r.i(100, 230), 'd') + "/" : c.r.p(0.5) ? "k/" : "";
  std::vector<std::string> spk = {base + "de4.bsp", base + "de440.bsp", base + "de440", base + "de440.bsp.bsp", "x" + base + "de440.bsp"};
  std::vector<std::string> pck = {base + "gm.tpc", base + "gm.bpc", base + "gm", base + "gm_de431.tpc", base + "gm.tpc.1"};
  std::vector<std::string> lsk = {base + "naif0012.tls", base + "naif", base + "naif0012.tls.pc"};
  std::string hist;
  auto in_pool = [&](const std::string &n) { for (auto &k : pool::loaded) if (k.name == n) return true; return false; };
  int n = (int)c.r.i(1, 14);
  for (int k = 0; k < n; k++) {
    int w = (int)c.r.i(0, 4); std::string name; int st = 0; bool mayreload = false, force = false;
    size_t f0 = pool::furnished.size();
    bool had;
    double g1 = -1, g2 = -2;
    switch (w) {
    case 0: name = c.r.pick(spk); if (pool::kind_of(name) != "SPK") name += ".bsp"; had = in_pool(name); st = dso::cspice::load_if_unloaded_spk(name.c_str()); break;
    case 1: name = c.r.pick(pck); had = in_pool(name); st = dso::cspice::load_if_unloaded_pck(name.c_str()); break;
    case 2: name = c.r.pick(lsk); had = in_pool(name); st = dso::cspice::load_if_unloaded_lsk(name.c_str()); break;
    case 3: name = c.r.pick(c.r.p(0.5) ? spk : pck); had = false; force = true; st = dso::cspice::load_kernel(name.c_str()); break;
    default: {
      bool null = c.r.p(0.3); name = c.r.pick(pck); had = null || in_pool(name);
      pool::nsun = c.r.p(0.25) ? 0 : 1; pool::nmoon = c.r.p(0.25) ? 0 : 1;
      pool::gmsun = c.r.u(1e11, 2e11); pool::gmmoon = c.r.u(4e3, 5e3);
      st = dso::get_sun_moon_GM(null ? nullptr : name.c_str(), g1, g2);
      bool ok = pool::nsun && pool::nmoon;
      c.check((st == 0) == ok, "gm_status", "kernel gives sun %d moon %d value(s), status %d", pool::nsun, pool::nmoon, st);
      if (ok) c.check(g1 == pool::gmsun && g2 == pool::gmmoon, "gm_value", "GM %g %g instead of %g %g", g1, g2, pool::gmsun, pool::gmmoon);
      st = 0; c.event(ok ? "gm_ok" : "gm_missing");
    }
    }
    (void)mayreload;
    size_t got = pool::furnished.size() - f0, want = had ? 0 : 1;
    c.check(st == 0, "load_status", "status %d", st);
    c.check(got == want && (got == 0 || pool::furnished.back() == name), force ? "load_kernel" : had ? "no_reload" : "load_missing",
            "op %d '%s' (%s): %zu load(s), expected %zu", w, name.c_str(), had ? "already loaded" : "not loaded", got, want);
    c.event(had ? "already_loaded" : "loaded");
    hist += vf::fmt("%d%d%zu;", w, had, name.size());
  }
  c.distinct(hist);
}
