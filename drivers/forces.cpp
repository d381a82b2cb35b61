// C08: drag and solar radiation pressure with partials; long-double formulas.
#include "vf.hpp"
#include "astrodynamics.hpp"
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> D3;
typedef Eigen::Matrix<double, 3, 3> DM;
typedef Eigen::Matrix<ld, 3, 1> L3;
typedef Eigen::Matrix<ld, 3, 3> LM;
static const ld W = iers2010::OmegaEarth;
static L3 l(const D3 &x) { return L3(x(0), x(1), x(2)); }
static L3 acc(const L3 &r, const L3 &v, ld A, ld C, ld m, ld rho) {
  L3 vr(v(0) + W * r(1), v(1) - W * r(0), v(2));
  return -(C * A / m / 2) * rho * vr.norm() * vr;
}
static DM rotation(vf::Rng &r, int k) {
  if (k == 0) return DM::Identity();
  Eigen::Quaterniond q(r.n(), r.n(), r.n(), r.n()); q.normalize();
  if (k == 1) q = Eigen::Quaterniond(1, r.u(-1e-3, 1e-3), r.u(-1e-3, 1e-3), r.u(-1e-2, 1e-2)).normalized();
  return q.toRotationMatrix();
}
static void cmp3(vf::Ctx &c, const D3 &g, const L3 &w, ld scale, const char *key, const std::string &tag) {
  for (int k = 0; k < 3; k++) c.near(g(k), (double)w(k), (double)scale, key, tag + vf::fmt(" comp %d", k));
}
VF_GROUP(drag, 8000, 160000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 8);
  D3 pos(r.n(), r.n(), r.n()); pos *= r.logu(6.4e6, 5e7) / pos.norm();
  D3 vel(r.n(), r.n(), r.n()); vel *= r.logu(1, 1.2e4) / vel.norm();
  double A = r.logu(1e-2, 1e2), C = r.p(0.2) ? -r.u(0, 3) : r.u(0.1, 4), m = r.logu(1, 1e4), rho = r.logu(1e-17, 1);
  D3 g(r.n(), r.n(), r.n()); g *= rho / 5e4;
  if (kind == 1) rho = 0; if (kind == 2) A = 0; if (kind == 3) C = 0;
  if (kind == 4) { pos(0) = 0; pos(1) = 0; }                              // polar axis
  if (kind == 5) { vel.setZero(); if (r.p(0.5)) pos(0) = pos(1) = 0; }     // momentarily at rest; on the axis: no air flow
  if (kind == 6) vel = D3(-iers2010::OmegaEarth * pos(1), iers2010::OmegaEarth * pos(0), 0); // rides with the atmosphere
  if (kind == 7) { pos(2) = 0; vel(2) = 0; }
  std::string tag = vf::fmt("r=(%.9g,%.9g,%.9g) v=(%.9g,%.9g,%.9g) A=%g C=%g m=%g rho=%g", pos(0), pos(1), pos(2), vel(0), vel(1), vel(2), A, C, m, rho);
  L3 R = l(pos), Vl = l(vel), vr(Vl(0) + W * R(1), Vl(1) - W * R(0), Vl(2));
  ld f = fabsl((ld)C * A / m / 2 * rho), big = Vl.norm() + W * R.norm(), s = f * vr.norm() * big * 1e-15L * 4 + f * big * big * 1e-31L;
  L3 w = acc(R, Vl, A, C, m, rho);
  D3 a = dso::drag_accel(pos, vel, A, C, m, rho);
  cmp3(c, a, w, s, "drag", tag);
  int rk = (int)r.i(0, 2); DM M = rotation(r, rk); LM Ml = M.cast<ld>();
  D3 b = dso::drag_accel(pos, vel, M, A, C, m, rho);
  L3 wr = Ml.transpose() * acc(Ml * R, Ml * Vl, A, C, m, rho);
  L3 Rr = Ml * R, Vr = Ml * Vl; ld nr = L3(Vr(0) + W * Rr(1), Vr(1) - W * Rr(0), Vr(2)).norm();
  cmp3(c, b, wr, f * nr * big * 8e-15L + f * big * big * 1e-30L, "drag_true_of_date", tag);
  DM dr, dv; D3 dC; dr.setConstant(NAN); dv.setConstant(NAN); dC.setConstant(NAN);
  D3 a2 = dso::drag_accel(pos, vel, A, C, m, rho, g, dr, dv, dC);
  c.check(a2 == a || (a2 - a).norm() <= (double)s, "drag_same_with_partials", "%s", tag.c_str());
  c.check(dr.allFinite() && dv.allFinite() && dC.allFinite(), "drag_partials_finite", "%s", tag.c_str());
  // closed-form derivatives of -1/2 C A/m rho |v| v with v = v_sat - w x r and rho(r)
  ld n = vr.norm(), k = -(ld)C * A / m / 2; LM J = LM::Zero();
  if (n > 0) J = k * (ld)rho * (n * LM::Identity() + vr * vr.transpose() / n);
  LM X; X << 0, -W, 0, W, 0, 0, 0, 0, 0;
  LM Dr = k * n * vr * l(g).transpose() - J * X;
  ld sv = f * big * 1e-14L;
  for (int p = 0; p < 3; p++)
    for (int q = 0; q < 3; q++) {
      c.near(dv(p, q), (double)J(p, q), (double)sv, "drag_partial_velocity", tag + vf::fmt(" (%d,%d)", p, q));
      c.near(dr(p, q), (double)Dr(p, q), (double)(sv * W + fabsl(k) * n * big * l(g).norm() * 1e-14L), "drag_partial_position", tag + vf::fmt(" (%d,%d)", p, q));
    }
  cmp3(c, dC, -(ld)A / m / 2 * rho * n * vr, (ld)A / m * rho * n * big * 1e-14L, "drag_partial_coefficient", tag);
  // physics, independent of the formula: opposes the air flow, zero without a driver, quadratic in speed
  if (rho == 0 || A == 0 || C == 0) c.check(a.isZero(0) && b.isZero(0), "drag_zero_without_driver", "%s", tag.c_str());
  else if (n > 1) c.check((double)(l(a).dot(vr)) * C < 0, "drag_opposes_flow", "%s", tag.c_str());
  // differences of the library's own acceleration (density linear in position)
  if (n > 1 && kind != 1 && kind != 2 && kind != 3)
    for (int j = 0; j < 3; j++) {
      double h = (double)n * 1e-4; D3 vp = vel, vm = vel; vp(j) += h; vm(j) -= h;
      D3 d = (dso::drag_accel(pos, vp, A, C, m, rho) - dso::drag_accel(pos, vm, A, C, m, rho)) / (vp(j) - vm(j));
      for (int p = 0; p < 3; p++) c.near(dv(p, j), d(p), (double)(f * n * 1e-6L + f * big * 1e-9L), "drag_partial_velocity_differences", tag);
      double hr = 50; D3 rp = pos, rm = pos; rp(j) += hr; rm(j) -= hr;
      d = (dso::drag_accel(rp, vel, A, C, m, rho + g(j) * hr) - dso::drag_accel(rm, vel, A, C, m, rho - g(j) * hr)) / (2 * hr);
      for (int p = 0; p < 3; p++) c.near(dr(p, j), d(p), (double)(fabsl(k) * n * big * (ld)g.norm() * 1e-5L + f * big * W * 1e-4L + f * big * big * 1e-13L / hr), "drag_partial_position_differences", tag);
    }
  c.distinct(vf::fmt("%d %d %.2g %.2g", kind, rk, (double)n, rho));
  if (c.idx < 2) c.sample(tag);
}
VF_GROUP(solar_pressure, 8000, 160000) {
  vf::Rng &r = c.r; const ld AU = iers2010::AU;
  int kind = (int)(c.idx % 5);
  D3 sun(r.n(), r.n(), r.n()); sun *= (double)AU * r.u(0.98, 1.02) / sun.norm();
  if (kind == 4) { sun.setZero(); sun((int)r.i(0, 2)) = r.sgn() * (double)AU; }
  D3 pos(r.n(), r.n(), r.n()); pos *= (r.p(0.3) ? r.logu(1e8, 1e12) : r.logu(6.4e6, 5e7)) / pos.norm();
  if (kind == 3) pos = sun * r.u(-1e-3, 1e-3);
  double A = r.logu(1e-2, 1e2), C = r.p(0.2) ? -r.u(0, 2) : r.u(0.1, 2), m = r.logu(1, 1e4);
  if (kind == 1) A = 0; if (kind == 2) C = 0;
  std::string tag = vf::fmt("r=(%.9g,%.9g,%.9g) sun=(%.9g,%.9g,%.9g) A=%g C=%g m=%g", pos(0), pos(1), pos(2), sun(0), sun(1), sun(2), A, C, m);
  L3 d = l(pos) - l(sun); ld D = d.norm(), P0 = 4.56316e-6L;
  ld k = (ld)A / m * P0 * AU * AU / (D * D * D);
  D3 a = dso::solar_radiation_acceleration(pos, sun, A, m, C);
  DM dr; D3 dC; dr.setConstant(NAN); dC.setConstant(NAN);
  D3 b = dso::solar_radiation_acceleration(pos, sun, A, m, C, dr, dC);
  ld s = k * D * 4e-15L;
  cmp3(c, a, C * k * d, fabsl(C) * s, "srp", tag);
  cmp3(c, b, C * k * d, fabsl(C) * s, "srp", tag);
  cmp3(c, dC, k * d, s, "srp_partial_coefficient", tag);
  c.near((double)(l(a).norm()), (double)(fabsl(C) * A / m * P0 * (AU / D) * (AU / D)), (double)(fabsl(C) * s), "srp_inverse_square", tag);
  if (C > 0 && A > 0) c.check((double)l(a).dot(d) > 0, "srp_points_away", "%s", tag.c_str());
  if (C == 0 || A == 0) c.check(a.isZero(0) && b.isZero(0), "srp_zero_without_driver", "%s", tag.c_str());
  LM J = C * k * (LM::Identity() - 3 * d * d.transpose() / (D * D));
  for (int p = 0; p < 3; p++)
    for (int q = 0; q < 3; q++) c.near(dr(p, q), (double)J(p, q), (double)(fabsl(C) * k * 8e-15L), "srp_partial_position", tag + vf::fmt(" (%d,%d)", p, q));
  c.distinct(vf::fmt("%d %.2g %.2g %.2g", kind, (double)(D / AU), A, C));
}
