// C06: orbital elements, Kepler's equation, two-body propagation and partials.
// Oracle: two-body motion by Lagrange coefficients in the eccentric anomaly
// difference (no singularity at e=0 or i=0), in long double.
#include "vf.hpp"
#include "astrodynamics.hpp"
#include "geodesy/units.hpp"
typedef long double ld;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<ld, 6, 1> L6;
typedef Eigen::Matrix<ld, 3, 1> L3;
static const ld PI = 3.141592653589793238462643383279502884L;

static ld solve_kepler(ld e, ld M) { // bisection safeguarded Newton
  M = fmodl(M, 2 * PI); if (M < 0) M += 2 * PI;
  ld lo = M - e, hi = M + e, E = M + e * sinl(M);
  for (int k = 0; k < 200; k++) {
    ld f = E - e * sinl(E) - M;
    if (f > 0) hi = E; else lo = E;
    ld n = E - f / (1 - e * cosl(E));
    if (!(n > lo && n < hi)) n = (lo + hi) / 2;
    if (n == E) break;
    E = n;
  }
  return E;
}
struct Ele { ld a, e, i, O, w, M; };
static void pqw(ld O, ld i, ld w, ld T[3][3]) {
  ld cO = cosl(O), sO = sinl(O), co = cosl(w), so = sinl(w), ci = cosl(i), si = sinl(i);
  ld m[3][3] = {{cO * co - sO * so * ci, -cO * so - sO * co * ci, sO * si}, {sO * co + cO * so * ci, -sO * so + cO * co * ci, -cO * si}, {so * si, co * si, ci}};
  memcpy(T, m, sizeof m);
}
static L6 rot(const ld T[3][3], const L6 &p) {
  L6 o;
  for (int b = 0; b < 2; b++) for (int k = 0; k < 3; k++) o(3 * b + k) = T[k][0] * p(3 * b) + T[k][1] * p(3 * b + 1) + T[k][2] * p(3 * b + 2);
  return o;
}
static L6 perif(const Ele &q, ld GM, ld dt) {
  ld n = sqrtl(GM / (q.a * q.a * q.a)), E = solve_kepler(q.e, q.M + n * dt), f = sqrtl((1 - q.e) * (1 + q.e)), r = q.a * (1 - q.e * cosl(E)), v = sqrtl(GM * q.a) / r;
  L6 p; p << q.a * (cosl(E) - q.e), q.a * f * sinl(E), 0, -v * sinl(E), v * f * cosl(E), 0;
  return p;
}
static L6 to_state(const Ele &q, ld GM, ld dt = 0) { ld T[3][3]; pqw(q.O, q.i, q.w, T); return rot(T, perif(q, GM, dt)); }
// from (h, i, Omega, e, omega, theta)
static L6 from_kep(const double *k, ld GM) {
  ld h = k[0], e = k[3], th = k[5], r = h * h / GM / (1 + e * cosl(th));
  L6 p; p << r * cosl(th), r * sinl(th), 0, -GM / h * sinl(th), GM / h * (e + cosl(th)), 0;
  ld T[3][3]; pqw(k[2], k[1], k[4], T);
  return rot(T, p);
}
static L6 propagate(const L6 &Y, ld GM, ld dt) {
  L3 r = Y.head<3>(), v = Y.tail<3>();
  ld r0 = r.norm(), a = 1 / (2 / r0 - v.squaredNorm() / GM), n = sqrtl(GM / (a * a * a)), s = r.dot(v) / sqrtl(GM * a), c = 1 - r0 / a;
  // M(x) = x - c sin x + s (1 - cos x) = n dt ; monotone
  ld m = n * dt, k = floorl(m / (2 * PI)); m -= k * 2 * PI;
  ld lo = -3, hi = 2 * PI + 3, x = m;
  auto F = [&](ld z) { return z - c * sinl(z) + s * (1 - cosl(z)) - m; };
  for (int q = 0; q < 300; q++) {
    ld f = F(x); if (f > 0) hi = x; else lo = x;
    ld nx = x - f / (1 - c * cosl(x) + s * sinl(x));
    if (!(nx > lo && nx < hi)) nx = (lo + hi) / 2;
    if (nx == x) break;
    x = nx;
  }
  ld f = 1 - a / r0 * (1 - cosl(x)), tg = m / n, g = tg - (x - sinl(x)) / n;
  L3 R = f * r + g * v; ld rn = R.norm();
  ld fd = -sqrtl(GM * a) / (rn * r0) * sinl(x), gd = 1 - a / rn * (1 - cosl(x));
  L3 V = fd * r + gd * v;
  L6 o; o << R, V; return o;
}
static V6 dbl(const L6 &x) { V6 y; for (int k = 0; k < 6; k++) y(k) = (double)x(k); return y; }
static L6 lng(const V6 &x) { L6 y; for (int k = 0; k < 6; k++) y(k) = x(k); return y; }

struct Orbit { dso::OrbitalElements q; double GM; Ele l; double rp, vp; std::string tag; };
static Orbit gen(vf::Rng &r, long idx, bool regular = false) {
  Orbit o; auto &q = o.q;
  bool km = idx % 11 == 0; // km/s units are allowed too
  o.GM = km ? 398600.4418 : r.p(0.2) ? 398600.4418e9 * r.logu(1e-3, 1e6) : 3.986004418e14;
  q.semimajor() = r.logu(6.6e6, 5e7) * (km ? 1e-3 : 1);
  static const double es[] = {0, 1e-15, 1e-12, 1e-8, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 0.79999, 0.8, 0.9, 0.97, 0.99};
  int ke = regular ? (int)r.i(5, 13) : (int)(idx % 16);
  q.eccentricity() = r.p(0.5) ? es[ke] : ke == 0 ? 0 : es[ke] * r.u(0.5, 1);
  int ki = regular ? 6 : (int)((idx / 16) % 8);
  const double inc[] = {0, M_PI, M_PI / 2, 1e-12, M_PI - 1e-9, 1e-5, r.u(0.05, 3.09), r.u(0.05, 3.09)};
  q.inclination() = inc[ki];
  auto ang = [&]() { int k = (int)r.i(0, 11); return k < 4 ? k * M_PI / 2 : k == 4 ? 6.283185307179586 : k == 5 ? r.logu(1e-14, 1e-3) : k == 6 ? 6.283185307 - r.logu(1e-10, 1e-3) : r.u(0, 6.283185307); };
  q.Omega() = ang(); q.omega() = ang(); q.mean_anomaly() = ang();
  o.l = {q.semimajor(), q.eccentricity(), q.inclination(), q.Omega(), q.omega(), q.mean_anomaly()};
  o.rp = q.semimajor() * (1 + q.eccentricity());
  o.vp = std::sqrt(o.GM / q.semimajor() * (1 + q.eccentricity()) / (1 - q.eccentricity()));
  o.tag = vf::fmt("a=%.6g e=%.17g i=%.17g O=%.17g w=%.17g M=%.17g GM=%g", q.semimajor(), q.eccentricity(), q.inclination(), q.Omega(), q.omega(), q.mean_anomaly(), o.GM);
  return o;
}
static bool cmp(vf::Ctx &c, const V6 &got, const L6 &want, double rs, double vs, double rel, const char *key, const std::string &tag) {
  bool ok = true;
  for (int k = 0; k < 6; k++) ok = c.near(got(k), (double)want(k), (k < 3 ? rs : vs) * rel, key, tag + vf::fmt(" comp %d", k)) && ok;
  return ok;
}
static double cond(double e) { return 1 / ((1 - e) * (1 - e)); } // velocity error near pericentre for an error in E

VF_GROUP(elements_to_state, 4000, 80000) {
  Orbit o = gen(c.r, c.idx); double e = o.q.eccentricity();
  double n = std::sqrt(o.GM / std::pow(o.q.semimajor(), 3)), P = 2 * M_PI / n;
  double dt = c.r.p(0.3) ? 0 : c.r.p(0.5) ? c.r.u(-2, 2) * P : c.r.sgn() * c.r.logu(1, 1e3) * P;
  double rel = 1e-14 * (1 + std::fabs(n * dt)) * cond(e);
  L6 w = to_state(o.l, o.GM, dt), p = perif(o.l, o.GM, dt);
  std::string tag = o.tag + vf::fmt(" dt=%.9g", dt);
  dso::Vector3 r, v; int st = dso::elements2state(o.q, dt, r, v, o.GM);
  V6 Y; Y << r(0), r(1), r(2), v(0), v(1), v(2);
#ifdef COUNT_KEPLER_ITERATIONS
  c.check(st >= 0, "status", "%s: %d", tag.c_str(), st);
#else
  c.check(st == 0, "status", "%s: %d", tag.c_str(), st);
#endif
  cmp(c, Y, w, o.rp, o.vp, rel, "elements2state_vector3", tag);
  int err = -7; V6 E = dso::elements2state(o.GM, dt, o.q, err);
  c.check(err >= 0 && err == st, "status", "%s: Eigen overload status %d", tag.c_str(), err);
  cmp(c, E, w, o.rp, o.vp, rel, "elements2state_eigen", tag);
  cmp(c, dso::propagate_state(o.GM, o.q, dt), w, o.rp, o.vp, rel, "propagate_elements", tag);
  V6 pf = dso::elements2perifocal(o.GM, o.q, dt), pf0 = dso::elements2perifocal(o.GM, o.q);
  cmp(c, pf, p, o.rp, o.vp, rel, "elements2perifocal", tag);
  cmp(c, pf0, perif(o.l, o.GM, 0), o.rp, o.vp, 1e-14 * 8 * cond(e), "elements2perifocal0", tag);
  c.check(pf(2) == 0 && pf(5) == 0, "perifocal_plane", "%s: %g %g", tag.c_str(), pf(2), pf(5));
  cmp(c, dso::perifocal2equatorial(o.q, pf), w, o.rp, o.vp, rel + 1e-14, "perifocal2equatorial", tag);
  cmp(c, dso::equatorial2perifocal(o.q, E), p, o.rp, o.vp, 2 * rel + 1e-14, "equatorial2perifocal", tag);
  dso::Vector3 rp, vp, re, ve;
  for (int k = 0; k < 3; k++) { rp(k) = pf(k); vp(k) = pf(k + 3); }
  dso::perifocal2equatorial(o.q, rp, vp, re, ve); V6 y2; y2 << re(0), re(1), re(2), ve(0), ve(1), ve(2);
  cmp(c, y2, w, o.rp, o.vp, rel + 1e-14, "perifocal2equatorial", tag);
  dso::equatorial2perifocal(o.q, re, ve, rp, vp); y2 << rp(0), rp(1), rp(2), vp(0), vp(1), vp(2);
  cmp(c, y2, p, o.rp, o.vp, 2 * rel + 1e-14, "equatorial2perifocal", tag);
  // rotation matrix: the documented one and orthonormal, for any angles
  double O = c.r.u(-7, 7), om = c.r.u(-7, 7), ii = c.r.u(-4, 4);
  dso::Mat3x3 T = dso::perifocal2equatorial_matrix(O, om, ii); ld R[3][3]; pqw(O, ii, om, R);
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) {
      c.near(T(a, b), (double)R[a][b], 4e-15, "rotation_matrix", vf::fmt("O=%g w=%g i=%g (%d,%d)", O, om, ii, a, b));
      double d = 0; for (int k = 0; k < 3; k++) d += T(k, a) * T(k, b);
      c.near(d, a == b, 4e-15, "rotation_orthonormal", vf::fmt("(%d,%d)", a, b));
    }
  c.distinct(vf::fmt("%.3g %.3g %d %d %d", e, o.q.inclination(), (int)(o.q.Omega() * 4), (int)(o.q.omega() * 4), (int)(o.q.mean_anomaly() * 4)));
  if (c.idx < 2) c.sample(tag);
}

static ld angdiff(ld a, ld b) { ld d = fmodl(a - b, 2 * PI); if (d > PI) d -= 2 * PI; if (d < -PI) d += 2 * PI; return d; }

VF_GROUP(state_to_elements, 5000, 100000) {
  Orbit o = gen(c.r, c.idx);
  V6 Y = dbl(to_state(o.l, o.GM));
  std::string tag = o.tag;
  if (c.idx % 7 == 0) { // axis-aligned states as users type them; circular ones exactly or nearly so
    double R = o.q.semimajor(), V = std::sqrt(o.GM / R); static const int ax[6][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}};
    int k = (int)c.r.i(0, 5); double ecc = c.r.pick({1.0, 1.0, 1.05, 0.9, 1.2});
    Y.setZero(); Y(ax[k][0]) = c.r.sgn() * R; Y(3 + ax[k][1]) = c.r.sgn() * V * ecc;
    if (c.r.p(0.3)) Y(3 + ax[k][0]) = c.r.u(-0.3, 0.3) * V;
    if (c.r.p(0.3)) { Y(c.r.i(0, 2)) += 0.0; Y = -1.0 * Y; } // signed zeros
    tag = vf::fmt("axis %d%d R=%g Vfac=%g", ax[k][0], ax[k][1], R, ecc);
  }
  L3 rl = lng(Y).head<3>(), vl = lng(Y).tail<3>();
  ld al = 1 / (2 / rl.norm() - vl.squaredNorm() / o.GM); L3 hl = rl.cross(vl);
  L3 el = vl.cross(hl) / o.GM - rl / rl.norm();
  double e = (double)el.norm(), si = (double)(hypotl(hl(0), hl(1)) / hl.norm()), a = (double)al;
  double rs = a * (1 + e), vs = std::sqrt(o.GM / a * (1 + e) / (1 - e)), rel = 4e-14 * cond(e) / (1 - e);
  // rounding of v^2 and 2/r near pericentre spoils a by about eps (1+e)/(1-e): contained in rel
  L6 w = lng(Y);
  dso::Vector3 r, v; for (int k = 0; k < 3; k++) { r(k) = Y(k); v(k) = Y(k + 3); }
  auto range = [&](const dso::OrbitalElements &q, const char *nm) {
    const double tp = 6.283185307179587;
    c.check(q.inclination() >= 0 && q.inclination() <= M_PI && q.Omega() >= 0 && q.Omega() <= tp && q.omega() >= 0 && q.omega() <= tp && q.mean_anomaly() >= 0 && q.mean_anomaly() <= tp && q.eccentricity() >= 0,
            "range", "%s %s: %g %g %g %g %g %g", nm, tag.c_str(), q.semimajor(), q.eccentricity(), q.inclination(), q.Omega(), q.omega(), q.mean_anomaly());
    L6 b = to_state(Ele{q.semimajor(), q.eccentricity(), q.inclination(), q.Omega(), q.omega(), q.mean_anomaly()}, o.GM);
    for (int k = 0; k < 6; k++) c.near((double)b(k), Y(k), (k < 3 ? rs : vs) * rel, nm, tag + vf::fmt(" rebuilt comp %d", k));
    c.near(q.semimajor(), a, a * 2e-14 * (1 + e) / (1 - e), "semimajor", tag);
    c.near(q.eccentricity(), e, 2e-14 / (1 - e), "eccentricity", tag);
    c.near(q.inclination(), (double)atan2l(hypotl(hl(0), hl(1)), hl(2)), 4e-15, "inclination", tag);
    if (si > 0) c.near((double)angdiff(q.Omega(), atan2l(hl(0), -hl(1))), 0, 1e-14 / si, "Omega", tag);
  };
  dso::OrbitalElements q1, q2;
  int st = dso::state2elements(r, v, q1, o.GM);
  c.check(st == 0, "status", "state2elements %d", st);
  range(q1, "state2elements_vector3");
  q2 = dso::state2elements(o.GM, Y);
  range(q2, "state2elements_eigen");
  // and through the library itself
  int err; V6 back = dso::elements2state(o.GM, 0, q2, err);
  cmp(c, back, w, rs, vs, 2 * rel, "roundtrip_library", tag);
  struct { const char *nm; int (*f)(const double *, double *, double) noexcept; } conv[] = {{"state2kepler", dso::state2kepler}, {"state2kepler_vallado", dso::alternatives::state2kepler_vallado}, {"state2kepler_montenbruck", dso::alternatives::state2kepler_montenbruck}};
  double ref[6]; for (auto &f : conv) {
    double k[6] = {NAN, NAN, NAN, NAN, NAN, NAN}, s[6]; memcpy(s, Y.data(), sizeof s);
    st = f.f(s, k, o.GM);
    c.check(st == 0, "status", "%s %d", f.nm, st);
    L6 b = from_kep(k, o.GM);
    for (int m = 0; m < 6; m++) c.near((double)b(m), Y(m), (m < 3 ? rs : vs) * rel, f.nm, tag + vf::fmt(" rebuilt comp %d", m));
    c.near(k[0], (double)hl.norm(), (double)hl.norm() * 4e-15 * (1 + e) / (1 - e), "angular_momentum", std::string(f.nm) + " " + tag);
    c.near(k[3], e, 4e-14 / (1 - e), "eccentricity", std::string(f.nm) + " " + tag);
    c.near(k[1], (double)atan2l(hypotl(hl(0), hl(1)), hl(2)), 4e-15, "inclination", std::string(f.nm) + " " + tag);
    if (&f == conv) memcpy(ref, k, sizeof ref);
    if (f.f != conv[2].f) { const double tp = 6.283185307179587; c.check(k[1] >= 0 && k[1] <= M_PI && k[2] >= 0 && k[2] <= tp && k[4] >= 0 && k[4] <= tp && k[5] >= 0 && k[5] <= tp, "range", "%s %s: %g %g %g %g", f.nm, tag.c_str(), k[1], k[2], k[4], k[5]); }
    if (e > 1e-3 && si > 1e-3) // every converter gives the same angles
      for (int m : {2, 4, 5}) {
        double t = 4e-13 / e / si / (1 - e) / (1 - e);
        c.near((double)angdiff(k[m], ref[m]), 0, t, "converters_agree", std::string(f.nm) + vf::fmt(" element %d ", m) + tag);
        if (m < 5) c.near((double)angdiff(k[m], m == 2 ? q1.Omega() : q1.omega()), 0, t, "converters_agree", std::string(f.nm) + vf::fmt(" vs elements %d ", m) + tag);
      }
  }
  // default GM
  if (o.GM == 3.986004418e14) { double k[6], s[6]; memcpy(s, Y.data(), sizeof s); dso::state2kepler(s, k); c.check(!memcmp(k, ref, sizeof k), "default_GM", "%s", tag.c_str()); }
  c.distinct(vf::fmt("%.2g %.2g %ld", e, si, c.idx % 7));
}

VF_GROUP(kepler, 20000, 400000) {
  static const double es[] = {0, 1e-16, 1e-8, 1e-3, 0.1, 0.5, 0.7, 0.79999999, 0.8, 0.9, 0.97, 0.99, 0.999, 0.9999, 0.999999, 0.999999999};
  double e = c.r.p(0.5) ? c.r.pick(es) : c.r.p(0.5) ? c.r.u(0, 0.999) : 1 - c.r.logu(1e-12, 1);
  int km = (int)c.r.i(0, 7);
  double M = km == 0 ? c.r.i(-8, 8) * M_PI / 2 : km == 1 ? c.r.sgn() * c.r.logu(1e-18, 1) : km == 2 ? 6.283185307179586 - c.r.logu(1e-16, 1) : km == 3 ? M_PI + c.r.sgn() * c.r.logu(1e-16, 1) : km == 4 ? c.r.u(-1e4, 1e4) : c.r.u(-7, 14);
  double tol = c.r.p(0.6) ? -1 : c.r.logu(1e-14, 1e-3);
  for (int w = 0; w < 2; w++) {
    int st = -99;
    double E = w == 0 ? (tol < 0 ? dso::kepler(e, M, st) : dso::kepler(e, M, st, tol)) : (tol < 0 ? dso::kepler_vallado(e, M, st) : dso::kepler_vallado(e, M, st, tol));
    double t = tol < 0 ? 2.3e-14 : tol;
    std::string tag = vf::fmt("%s e=%.17g M=%.17g tol=%g -> E=%.17g status %d", w ? "vallado" : "newton", e, M, tol, E, st);
    c.check(st != -99, "status_set", "%s", tag.c_str());
#ifdef COUNT_KEPLER_ITERATIONS
    bool ok = st >= 0;
#else
    bool ok = st == 0;
#endif
    if (e <= 0.999 && (tol < 0 || tol >= 2.3e-14)) c.check(ok, "kepler_converges", "%s", tag.c_str());
    if (ok) {
      ld Er = solve_kepler(e, M);
      ld res = (ld)E - (ld)e * sinl(E) - M; res = fabsl(angdiff(res, 0));
      // residual within tolerance (one more Newton step is taken after the test) plus rounding
      c.near((double)res, 0, (w == 0 ? t : 2 * t) + 4e-16 * (8 + std::fabs(M)), "kepler_residual", tag);
      c.near((double)angdiff(E, Er), 0, (2 * t + 4e-16 * (8 + std::fabs(M))) / (1 - e) , "kepler_anomaly", tag);
      if (tol < 0) c.near((double)res, 0, 4e-15 + 4e-16 * std::fabs(M), "kepler_full_precision", tag);
    } else c.event("kepler_failure_reported");
  }
  c.distinct(vf::fmt("%.3g %d %d", e, km, (int)(M * 8)));
}

VF_GROUP(propagation, 3000, 60000) {
  Orbit o = gen(c.r, c.idx);
  double e = o.q.eccentricity(), a = o.q.semimajor(), n = std::sqrt(o.GM / (a * a * a)), P = 2 * M_PI / n;
  V6 Y = dbl(to_state(o.l, o.GM));
  double t1 = c.r.u(-3, 3) * P, t2 = c.r.u(-3, 3) * P;
  double rel = 3e-14 * (2 + std::fabs(n * t1) + std::fabs(n * t2)) * cond(e) / (1 - e);
  std::string tag = o.tag + vf::fmt(" t1=%.9g t2=%.9g", t1, t2);
  V6 A = dso::propagate_state(o.GM, Y, t1);
  cmp(c, A, propagate(lng(Y), o.GM, t1), o.rp, o.vp, rel, "propagate_state", tag);
  V6 B = dso::propagate_state(o.GM, A, t2), C = dso::propagate_state(o.GM, Y, t1 + t2);
  cmp(c, B, lng(C), o.rp, o.vp, 4 * rel / (1 - e), "composition", tag);
  cmp(c, dso::propagate_state(o.GM, A, -t1), lng(Y), o.rp, o.vp, 4 * rel / (1 - e), "reversal", tag);
  double sma = 1 / (2 / Y.head<3>().norm() - Y.tail<3>().squaredNorm() / o.GM);
  cmp(c, dso::propagate_state(o.GM, Y, 2 * M_PI * std::sqrt(sma * sma * sma / o.GM)), lng(Y), o.rp, o.vp, 3e-13 * cond(e) / (1 - e), "period", tag);
  cmp(c, dso::propagate_state(o.GM, Y, 0), lng(Y), o.rp, o.vp, 4e-14 * cond(e) / (1 - e), "zero_interval", tag);
  ld e0 = lng(Y).tail<3>().squaredNorm() / 2 - o.GM / lng(Y).head<3>().norm(), e1 = lng(A).tail<3>().squaredNorm() / 2 - o.GM / lng(A).head<3>().norm();
  c.near((double)(e1 / e0), 1, 4e-14 * cond(e), "energy", tag);
  L3 h0 = L3(lng(Y).head<3>()).cross(L3(lng(Y).tail<3>())), h1 = L3(lng(A).head<3>()).cross(L3(lng(A).tail<3>()));
  for (int k = 0; k < 3; k++) c.near((double)h1(k), (double)h0(k), (double)h0.norm() * 4e-14 * cond(e), "angular_momentum_conserved", tag);
  c.distinct(vf::fmt("%.3g %.3g %d %d", e, o.q.inclination(), (int)(t1 / P * 4), (int)(t2 / P * 4)));
}

static void stm_check(vf::Ctx &c, const Orbit &o, double dt, double scale, const char *key) {
  double e = o.q.eccentricity(); (void)e;
  V6 Y = dbl(to_state(o.l, o.GM)); M6 Phi; Phi.setConstant(NAN);
  V6 Yt = dso::propagate_state(o.GM, Y, dt, Phi);
  std::string tag = o.tag + vf::fmt(" dt=%.9g", dt);
  double R = o.q.semimajor(), V = std::sqrt(o.GM / R);
  cmp(c, Yt, propagate(lng(Y), o.GM, dt), o.rp, o.vp, 1e-9 * scale, "stm_state", tag);
  L6 y0 = lng(Y);
  double mx = 0; Eigen::Matrix<double, 6, 6> N;
  for (int j = 0; j < 6; j++) {
    ld h = (j < 3 ? R : V) * 1e-7L; L6 p = y0, m = y0, p2 = y0, m2 = y0; p(j) += h; m(j) -= h; p2(j) += 2 * h; m2(j) -= 2 * h;
    L6 d = (8 * (propagate(p, o.GM, dt) - propagate(m, o.GM, dt)) - (propagate(p2, o.GM, dt) - propagate(m2, o.GM, dt))) / (12 * h);
    for (int k = 0; k < 6; k++) { // dimensionless
      N(k, j) = (double)(d(k) * (j < 3 ? R : V) / (k < 3 ? R : V)); mx = std::max(mx, std::fabs(N(k, j)));
    }
  }
  for (int k = 0; k < 6; k++)
    for (int j = 0; j < 6; j++) c.near(Phi(k, j) * (j < 3 ? R : V) / (k < 3 ? R : V), N(k, j), 1e-9 * scale * (1 + mx), key, tag + vf::fmt(" (%d,%d)", k, j));
}
VF_GROUP(transition_matrix, 1500, 30000) {
  Orbit o = gen(c.r, c.idx, true); double e = o.q.eccentricity(), P = 2 * M_PI * std::sqrt(std::pow(o.q.semimajor(), 3) / o.GM);
  double dt = c.idx % 5 == 0 ? 0 : c.r.u(-2, 2) * P;
  double si = std::sin(o.q.inclination());
  stm_check(c, o, dt, 1e-3 / e / si * cond(e) * cond(e) + 1, "state_transition_matrix");
  c.distinct(vf::fmt("%.3g %.2g %d", e, si, (int)(dt / P * 8)));
}
VF_GROUP(transition_singular, 48, 48) { // circular and equatorial orbits
  Orbit o = gen(c.r, c.idx, true);
  if (c.idx % 3 != 1) o.q.eccentricity() = 0;
  if (c.idx % 3 != 0) o.q.inclination() = 0;
  o.l.e = o.q.eccentricity(); o.l.i = o.q.inclination(); o.rp = o.q.semimajor() * (1 + o.l.e); o.vp = std::sqrt(o.GM / o.q.semimajor() * (1 + o.l.e) / (1 - o.l.e));
  double P = 2 * M_PI * std::sqrt(std::pow(o.q.semimajor(), 3) / o.GM), dt = c.r.u(-2, 2) * P;
  V6 Y = dbl(to_state(o.l, o.GM)); M6 Phi; V6 Yt = dso::propagate_state(o.GM, Y, dt, Phi);
  cmp(c, Yt, propagate(lng(Y), o.GM, dt), o.rp, o.vp, 1e-9, "stm_state", o.tag);
  c.check(Phi.allFinite(), "stm_circular_or_equatorial_not_finite", "e=%g i=%g", o.q.eccentricity(), o.q.inclination());
  c.distinct(vf::fmt("%ld", c.idx));
}
VF_GROUP(state_partials, 1500, 30000) {
  Orbit o = gen(c.r, c.idx, c.idx % 3 != 0); double e = o.q.eccentricity();
  double n = std::sqrt(o.GM / std::pow(o.q.semimajor(), 3)), P = 2 * M_PI / n, dt = c.idx % 5 == 0 ? 0 : c.r.u(-2, 2) * P;
  M6 D = dso::state_partials(o.GM, o.q, dt);
  ld *f = &o.l.a; double R = o.q.semimajor(), V = std::sqrt(o.GM / R); (void)f;
  M6 N; double mx = 0;
  for (int j = 0; j < 6; j++) {
    ld h = j == 0 ? R * 1e-6L : 1e-6L;
    // one-sided where e - h < 0 would leave the domain
    auto at = [&](ld s) { Ele q = o.l; ld *p[6] = {&q.a, &q.e, &q.i, &q.O, &q.w, &q.M}; *p[j] += s * h; return to_state(q, o.GM, dt); };
    if (j == 1 && e > 0.9) h *= (1 - e);
    L6 d;
    if (j == 1 && e < 3e-6) d = (-11 * at(0) + 18 * at(1) - 9 * at(2) + 2 * at(3)) / (6 * h);
    else d = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
    for (int k = 0; k < 6; k++) { N(k, j) = (double)(d(k) * (j == 0 ? R : 1) / (k < 3 ? R : V)); mx = std::max(mx, std::fabs(N(k, j))); }
  }
  for (int k = 0; k < 6; k++)
    for (int j = 0; j < 6; j++) c.near(D(k, j) * (j == 0 ? R : 1) / (k < 3 ? R : V), N(k, j), 1e-11 * cond(e) * cond(e) * (1 + mx), "state_partials", o.tag + vf::fmt(" dt=%.9g (%d,%d)", dt, k, j));
  c.distinct(vf::fmt("%.3g %.2g %d", e, o.q.inclination(), (int)(dt / P * 8)));
}

VF_GROUP(right_ascension, 4000, 50000) {
  double x = c.r.n(), y = c.r.n(), z = c.r.n();
  int k = (int)(c.idx % 10);
  if (k == 0) x = 0; if (k == 1) y = 0; if (k == 2) z = 0; if (k == 3) x = y = 0;
  if (k == 4) { x *= 1e-9; y *= 1e-9; } if (k == 5) { x *= 1e-16; y *= 1e-16; } if (k == 6) { y = z = 0; } if (k == 7) { x = z = 0; }
  double s = c.r.logu(1e-3, 1e9); x *= s; y *= s; z *= s;
  if (x == 0 && y == 0 && z == 0) return;
  dso::Vector3 p; p(0) = x; p(1) = y; p(2) = z; double a = NAN, d = NAN;
  int st = dso::pos2ad(p, a, d);
  std::string tag = vf::fmt("(%.17g,%.17g,%.17g) -> %.17g %.17g", x, y, z, a, d);
  c.check(st == 0 && a >= 0 && a <= 6.283185307179587 && std::fabs(d) <= 1.5707963267948967, "range", "%s", tag.c_str());
  if (y == 0 && x > 0) c.check(a <= 1e-12, "range", "on the x axis: %s", tag.c_str()); // [0, 2 pi): a full turn is zero
  ld rho = hypotl(x, y), dl = atan2l(z, rho), cd = rho / hypotl(rho, z);
  c.near(d, (double)dl, std::min(4e-8, (double)(4e-16L / (cd > 1e-300L ? cd : 1e-300L)) + 4e-16), "declination", tag);
  if (rho > 0) c.near((double)angdiff(a, atan2l(y, x)), 0, 4e-15, "right_ascension", tag);
  c.distinct(vf::fmt("%d %d %d %d", k, (int)(a * 8), (int)(d * 8), (int)std::log10(s)));
}
