// C23: celestial/terrestrial frame chain. External SOFA routines are stand-ins
// (shim/iers2010/iau.hpp); the oracle composes the documented product in long double.
#include "orbit_integration.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iers2010.hpp"
#include "vf.hpp"
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> D3;
typedef Eigen::Matrix<double, 6, 1> D6;
typedef Eigen::Matrix<double, 3, 3> DM;
typedef Eigen::Matrix<ld, 3, 1> L3;
typedef Eigen::Matrix<ld, 3, 3> LM;

// ---- stand-ins for the external interpolation routines (as in drivers/eop.cpp)
int iers2010::rg_zont2(double, double &d, double &l, double &o) noexcept { d = l = o = 0; return 0; }
int iers2010::interp::pmut1_oceans(double t, double &x, double &y, double &u, double &l) noexcept { x = 3e-4 * std::sin(t * 36525 * 5.9); y = 2e-4 * std::cos(t * 36525 * 5.9); u = 5e-5 * std::sin(t * 36525 * 6.1); l = 6e-5 * std::cos(t * 36525 * 6.1); return 0; }
int iers2010::interp::pm_gravi(double, double &x, double &y) noexcept { x = 1.3e-5; y = -1.7e-5; return 0; }
int iers2010::interp::lagint(const double *x, const double *y, int n, double xi, double &out, int &idx, int order) noexcept {
  if (n < order + 1 || !(xi >= x[0] && xi <= x[n - 1])) return 1;
  int k = (int)(std::upper_bound(x, x + n, xi) - x) - 1; if (k > n - 2) k = n - 2;
  idx = k;
  int lo = k - (order - 1) / 2; if (lo < 0) lo = 0; if (lo + order + 1 > n) lo = n - order - 1;
  ld s = 0;
  for (int i = lo; i <= lo + order; i++) { ld t = y[i]; for (int j = lo; j <= lo + order; j++) if (j != i) t *= ((ld)xi - x[j]) / ((ld)x[i] - x[j]); s += t; }
  out = (double)s; return 0;
}
namespace {
LM R3(ld a) { LM m = LM::Identity(); m(0, 0) = m(1, 1) = cosl(a); m(0, 1) = sinl(a); m(1, 0) = -sinl(a); return m; }
DM rotation(vf::Rng &r, int k) {
  if (k == 0) return DM::Identity();
  Eigen::Quaterniond q(r.n(), r.n(), r.n(), r.n());
  if (k == 1) q = Eigen::Quaterniond(1, r.u(-1e-6, 1e-6), r.u(-1e-6, 1e-6), r.u(-1e-9, 1e-9));
  if (k == 2) q = Eigen::Quaterniond(1, r.u(-1e-3, 1e-3), r.u(-1e-3, 1e-3), r.u(-1e-2, 1e-2));
  return q.normalized().toRotationMatrix();
}
double omega(double lod) { return iers2010::OmegaEarth * (1 - lod / 86400); }
LM dR3(ld a) { LM m = LM::Zero(); m(0, 0) = m(1, 1) = -sinl(a); m(0, 1) = cosl(a); m(1, 0) = -cosl(a); return m; }
D3 vec(vf::Rng &r, double n) { D3 v(r.n(), r.n(), r.n()); return v * (n / v.norm()); }
} // namespace

// the vector transformations for every matrix/angle/rate combination
VF_GROUP(vectors, 6000, 150000) {
  vf::Rng &r = c.r;
  int k1 = (int)r.i(0, 3), k2 = (int)r.i(0, 3);
  DM Q = rotation(r, k1), W = rotation(r, k2);
  double era = r.p(0.1) ? r.pick({0.0, M_PI / 2, M_PI, 2 * M_PI, -M_PI / 2, 1e-12}) : r.u(-1, 7), lod = r.p(0.2) ? 0 : r.p(0.3) ? r.u(-2, 2) : r.u(-5e-3, 5e-3);
  c.distinct(vf::fmt("k%d%d e%d l%d i%d", k1, k2, (int)floor(era * 4), lod == 0 ? 0 : fabs(lod) > .01 ? 2 : 1, (int)r.i(0, 15)));
  LM U = W.cast<ld>() * R3(era) * Q.cast<ld>(), dU = W.cast<ld>() * dR3(era) * Q.cast<ld>() * (ld)omega(lod);
  D3 a = vec(r, r.logu(1, 1e9)), b = vec(r, r.logu(1, 1e9));
  if (r.p(0.05)) a.setZero();
  if (r.p(0.1)) { a.setZero(); a((int)r.i(0, 2)) = 7e6; }
  std::string tag = vf::fmt("kinds %d,%d era=%.17g lod=%g a=(%.17g,%.17g,%.17g)", k1, k2, era, lod, a(0), a(1), a(2));
  D3 at = dso::rcel2ter(a, Q, era, W), ac = dso::rter2cel(a, Q, era, W), bt = dso::rcel2ter(b, Q, era, W);
  L3 wt = U * a.cast<ld>(), wc = U.transpose() * a.cast<ld>();
  for (int k = 0; k < 3; k++) {
    c.near(at(k), (double)wt(k), 1e-14 * a.norm(), "celestial_to_terrestrial_product", tag);
    c.near(ac(k), (double)wc(k), 1e-14 * a.norm(), "terrestrial_to_celestial_product", tag);
  }
  c.near(at.norm(), a.norm(), 4e-15 * a.norm(), "norm_preserved", tag);
  c.near(ac.norm(), a.norm(), 4e-15 * a.norm(), "norm_preserved", tag);
  c.near(at.dot(bt), a.dot(b), 2e-14 * a.norm() * b.norm(), "angle_preserved", tag);
  c.check((dso::rter2cel(at, Q, era, W) - a).norm() <= 1e-14 * a.norm(), "round_trip_position", "%s", tag.c_str());
  c.check((dso::rcel2ter(ac, Q, era, W) - a).norm() <= 1e-14 * a.norm(), "round_trip_position", "%s", tag.c_str());
  // state vectors: velocity is the time derivative of the transformed position
  D3 v = vec(r, r.logu(1e-3, 1e6)); if (r.p(0.1)) v.setZero();
  D6 y; y << a, v;
  D6 yt = dso::ycel2ter(y, Q, era, lod, W), yc = dso::yter2cel(y, Q, era, lod, W);
  L3 vt = U * v.cast<ld>() + dU * a.cast<ld>(), vc = U.transpose() * v.cast<ld>() + dU.transpose() * a.cast<ld>();
  double sv = 2e-14 * (v.norm() + 1e-4 * a.norm());
  std::string t2 = tag + vf::fmt(" v=(%.17g,%.17g,%.17g)", v(0), v(1), v(2));
  for (int k = 0; k < 3; k++) {
    c.check(yt(k) == at(k) && yc(k) == ac(k), "state_position_equals_vector", "%s comp %d", t2.c_str(), k);
    c.near(yt(3 + k), (double)vt(k), sv, "velocity_celestial_to_terrestrial", t2 + vf::fmt(" comp %d", k));
    c.near(yc(3 + k), (double)vc(k), sv, "velocity_terrestrial_to_celestial", t2 + vf::fmt(" comp %d", k));
  }
  D6 back = dso::yter2cel(yt, Q, era, lod, W);
  c.check((back.head<3>() - a).norm() <= 1e-14 * a.norm(), "round_trip_state", "%s position", t2.c_str());
  c.check((back.tail<3>() - v).norm() <= 4 * sv, "round_trip_state", "%s velocity off by %g", t2.c_str(), (back.tail<3>() - v).norm());
  back = dso::ycel2ter(yc, Q, era, lod, W);
  c.check((back.tail<3>() - v).norm() <= 4 * sv, "round_trip_state", "%s velocity off by %g (reverse)", t2.c_str(), (back.tail<3>() - v).norm());
  c.event("vectors", 6);
}

namespace {
struct Table { dso::EopLookUpTable t; long first; int n; Table() : t(1) {} };
double tt(long m) { return (double)((ld)m + ((ld)dso::core::dat(m) + 32.184L) / 86400); }
void make(Table &T, vf::Rng &r, int kind) {
  T.n = (int)r.i(8, 20);
  long leap = r.pick({57204L, 57754L, 54832L, 53736L});
  T.first = kind == 3 ? leap - r.i(2, T.n - 3) : r.i(50000, 61000);
  T.t = dso::EopLookUpTable(T.n);
  double amp = kind == 0 ? 0 : kind == 2 ? 50 : 1, slope = kind == 3 ? 0 : r.u(-2e-3, 2e-3), u0 = r.u(-.9, .9);
  for (int i = 0; i < T.n; i++) {
    *T.t.mjd(i) = tt(T.first + i);
    *T.t.xp(i) = amp * r.u(-.5, .5); *T.t.yp(i) = amp * r.u(-.5, .5);
    *T.t.dut(i) = u0 + slope * i; *T.t.dx(i) = amp * r.u(-1e-3, 1e-3); *T.t.dy(i) = amp * r.u(-1e-3, 1e-3);
    *T.t.lod(i) = amp * r.u(-4e-3, 4e-3); *T.t.omega(i) = omega(*T.t.lod(i));
  }
}
} // namespace

// the full chain against the product of its documented stages
VF_GROUP(chain, 2500, 60000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 4);
  Table T; make(T, r, kind);
  long pday = 0; double psod = -1;
  for (int rep = 0; rep < 6; rep++) {
    long day = T.first + r.i(0, T.n - 2); if (kind == 3 && r.p(0.5)) day = T.first + 1 + r.i(0, T.n - 3);
    // TAI epochs: random, at midnight, just before/after midnight UTC and TAI
    double sod = r.pick({r.u(0, 86399), 0.0, r.u(0, 40), r.u(86300, 86399), 43200.0, (double)r.i(0, 86399)});
    if (psod >= 0 && r.p(0.4)) { day = pday; sod = std::min(86399.0, std::max(0.0, psod + r.sgn() * r.logu(1e-2, 600))); c.event("close epochs"); } // epochs close together
    pday = day; psod = sod;
    int dat0 = dso::core::dat(day), dat1 = dso::core::dat(day - 1);
    if (dat0 != dat1 && sod < dat0 + 1 && sod > dat1 - 1) sod += 5; // the leap second itself is ambiguous
    double mjd = (double)((ld)day + (ld)sod / 86400);
    ld tai = mjd, ttx = tai + 32.184L / 86400;
    dso::EopRecord e;
    int want = T.t.interpolate((double)ttx, e);
    DM Q = DM::Constant(NAN), W = DM::Constant(NAN); double era = NAN, lod = NAN;
    if (fabs((double)ttx - *T.t.mjd(0)) < 1e-9 || fabs((double)ttx - *T.t.mjd(T.n - 1)) < 1e-9) continue; // either side of the edge
    int got = dso::gcrs2itrs(mjd, T.t, Q, era, W, lod);
    std::string tag = vf::fmt("kind %d mjd_tai=%.12f", kind, mjd);
    c.distinct(vf::fmt("%d %ld %d", kind, day, (int)(sod / 600)));
    c.check((got == 0) == (want == 0), "status", "%s: table %s the epoch, status %d", tag.c_str(), want ? "does not cover" : "covers", got);
    if (want || got) { c.event("epochs outside the table"); continue; }
    c.event("epochs");
    c.near(lod, e.lod, 1e-7, "length_of_day", tag);
    // UT1 from TAI: TAI - (TAI-UTC) + (UT1-UTC), with the leap seconds of the UTC day
    ld utc = tai - (ld)dat0 / 86400; if (utc < day) utc = tai - (ld)dat1 / 86400;
    ld ut1 = utc + (ld)e.dut / 86400, Tu = ut1 - 51544.5L, f = ut1 - floorl(ut1);
    ld w = 2 * M_PIl * (fmodl(0.7790572732640L + 0.00273781191135448L * Tu + f + 0.5L, 1.0L));
    ld d = fmodl((ld)era - w, 2 * M_PIl); if (d > M_PIl) d -= 2 * M_PIl; if (d < -M_PIl) d += 2 * M_PIl;
    c.check(fabsl(d) <= 4e-10L, "earth_rotation_angle", "%s: ERA %.12f, expected %.12Lf (difference %.3Le rad)", tag.c_str(), era, w, d);
    // celestial-to-intermediate and polar motion
    double X, Y; iers2010::sofa::xy06(dso::mjd0_jd, (double)ttx, X, Y);
    double s = iers2010::sofa::s06(dso::mjd0_jd, (double)ttx, X, Y), as = M_PI / 648000;
    DM Qw = iers2010::sofa::c2ixys_e(X + e.dx * as, Y + e.dy * as, s);
    double sp = iers2010::sofa::sp00(dso::mjd0_jd, (double)ttx);
    DM Ww = iers2010::sofa::pom00_e(e.xp * as, e.yp * as, sp);
    c.check((Q - Qw).cwiseAbs().maxCoeff() <= 2e-13, "celestial_to_intermediate", "%s: off by %g", tag.c_str(), (Q - Qw).cwiseAbs().maxCoeff());
    c.check((W - Ww).cwiseAbs().maxCoeff() <= (kind == 2 ? 1e-11 : 2e-12), "polar_motion", "%s: off by %g", tag.c_str(), (W - Ww).cwiseAbs().maxCoeff());
    // proper rotations
    for (const DM &M : {Q, W}) {
      c.check((M * M.transpose() - DM::Identity()).cwiseAbs().maxCoeff() <= 3e-15, "orthogonal", "%s", tag.c_str());
      c.near(M.determinant(), 1, 3e-15, "proper_rotation", tag);
    }
    // velocity of an Earth-fixed point against the motion of its celestial position
    double h = 8.0 / 86400; DM Q1, W1, Q2, W2; double e1, e2, l1, l2;
    if (!dso::gcrs2itrs(mjd - h, T.t, Q1, e1, W1, l1) && !dso::gcrs2itrs(mjd + h, T.t, Q2, e2, W2, l2) && kind != 2 && !(dat0 != dat1 && sod < 120)) {
      D3 p = vec(r, 6.4e6); D6 y; y << p, D3::Zero();
      D6 yc = dso::yter2cel(y, Q, era, lod, W);
      D3 num = (dso::rter2cel(p, Q2, e2, W2) - dso::rter2cel(p, Q1, e1, W1)) / 16.0;
      // precession, polar motion (random from day to day here), UT1 drift and tides are held fixed by the library: below 0.02 m/s of 465 m/s
      c.check((num - yc.tail<3>()).norm() <= 0.02, "velocity_is_derivative_of_position", "%s: velocity %g m/s off", tag.c_str(), (num - yc.tail<3>()).norm());
      D6 back = dso::ycel2ter(yc, Q, era, lod, W);
      c.check(back.tail<3>().norm() <= 1e-10, "round_trip_state", "%s: a station at rest moves at %g m/s", tag.c_str(), back.tail<3>().norm());
    }
  }
}
