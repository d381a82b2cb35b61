// C11: the Kalman filters against the batch least-squares estimate (long double, covariance form).
#include "filters/filters.hpp"
#include "vf.hpp"
#include <memory>

namespace {
using ld = long double;
using MX = Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic>;
using VX = Eigen::Matrix<ld, Eigen::Dynamic, 1>;
using NS = dso::nanoseconds;
using T = dso::datetime<NS>;

Eigen::MatrixXd ortho(vf::Rng &r, int n) {
  Eigen::MatrixXd a(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = r.n();
  Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(a).householderQ();
  return q;
}
Eigen::MatrixXd spd(vf::Rng &r, int n, double lo, double hi) {
  Eigen::MatrixXd q = ortho(r, n), d = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; i++) d(i, i) = r.logu(lo, hi);
  Eigen::MatrixXd p = q * d * q.transpose();
  return 0.5 * (p + p.transpose());
}
Eigen::VectorXd rvec(vf::Rng &r, int n) { Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v(i) = r.n(); return v; }
double mineig(const Eigen::MatrixXd &p) { return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(0.5 * (p + p.transpose()), Eigen::EigenvaluesOnly).eigenvalues().minCoeff(); }

// joint Gaussian over (x0, w1..wk); everything later is a linear map of it
struct Batch {
  VX m0; MX C;               // prior mean and covariance of the stacked vector
  MX L; VX l;                // state = L*theta + l
  std::vector<VX> rows; std::vector<ld> off, z, s2;
  void time(const MX &phi, const VX &shift, const MX *Q) {
    int n = (int)phi.rows(), k = (int)C.rows();
    L = (phi * L).eval(); l = (phi * l + shift).eval();
    if (Q) {
      MX c2 = MX::Zero(k + n, k + n); c2.topLeftCorner(k, k) = C; c2.bottomRightCorner(n, n) = *Q; C = c2;
      VX m2 = VX::Zero(k + n); m2.head(k) = m0; m0 = m2;
      MX l2 = MX::Zero(n, k + n); l2.leftCols(k) = L; l2.rightCols(n) = MX::Identity(n, n); L = l2;
      for (auto &r : rows) { VX r2 = VX::Zero(k + n); r2.head(k) = r; r = r2; }
    }
  }
  void obs(const VX &h, ld o, ld zz, ld sigma) { rows.push_back(L.transpose() * h); off.push_back(h.dot(l) + o); z.push_back(zz); s2.push_back(sigma * sigma); }
  void solve(VX &x, MX &P) const {
    int k = (int)rows.size();
    VX m = m0; MX c = C;
    if (k) {
      MX A(k, C.rows()); VX y(k); MX G;
      for (int i = 0; i < k; i++) { A.row(i) = rows[i].transpose(); y(i) = z[i] - off[i]; }
      G = A * C * A.transpose(); for (int i = 0; i < k; i++) G(i, i) += s2[i];
      Eigen::LDLT<MX> f(G);
      MX CA = C * A.transpose();
      VX res = y - A * m0; m = m0 + CA * f.solve(res);
      MX t = CA.transpose(); c = C - CA * f.solve(t);
    }
    x = L * m + l; P = L * c * L.transpose();
  }
};

template <class F> void cov_checks(vf::Ctx &c, const Eigen::MatrixXd &P, const char *k, const F &tag, double slack = 1e-12) {
  double top = P.cwiseAbs().maxCoeff();
  c.check(P.allFinite() && (P - P.transpose()).cwiseAbs().maxCoeff() <= 1e-11 * top, "covariance_symmetric", "%s %s", tag().c_str(), k);
  c.check(mineig(P) >= -slack * top * P.rows(), "covariance_positive_semidefinite", "%s %s: smallest eigenvalue %g of %g", tag().c_str(), k, mineig(P), top);
}
} // namespace

// random sequences of time and measurement updates against the batch solution
VF_GROUP(batch_equivalence, 600, 12000) {
  int n = c.r.p(0.1) ? 1 : (int)c.r.i(1, c.r.p(0.2) ? 20 : 9), steps = (int)c.r.i(1, 14);
  Eigen::VectorXd x0 = rvec(c.r, n) * c.r.logu(0.1, 1e3);
  Eigen::MatrixXd P0 = spd(c.r, n, 1e-2, 1e2);
  T t0(dso::modified_julian_day(59000), NS(c.r.i(0, 86399999999999L)));
  dso::ExtendedKalmanFilter<NS> f(t0, x0, P0);
  c.check(f.time() == t0 && f.state() == x0 && f.P == P0 && f.K.rows() == n, "constructed_as_given", "n=%d", n);
  Batch b; b.m0 = x0.cast<ld>(); b.C = P0.cast<ld>(); b.L = MX::Identity(n, n); b.l = VX::Zero(n);
  std::string hist; int nq = 0; double amp = x0.norm() + 1;
  auto tag = [&]() { return vf::fmt("n=%d %s", n, hist.c_str()); };
  T t = t0;
  for (int s = 0; s < steps; s++) {
    int op = (int)c.r.i(0, 4);
    if (op == 0 || (op == 1 && nq > 3)) {
      hist += "t"; Eigen::MatrixXd phi = ortho(c.r, n) * c.r.u(0.5, 1.5); Eigen::VectorXd sh = c.r.p(0.5) ? Eigen::VectorXd::Zero(n) : rvec(c.r, n);
      t.add_seconds(NS(c.r.p(0.2) ? -c.r.i(0, 1000000000000L) : c.r.i(1, 1000000000000L))); Eigen::VectorXd xk = phi * f.state() + sh; Eigen::MatrixXd Pb = f.P;
      f.time_update(t, xk, phi); MX p = phi.cast<ld>(); b.time(p, sh.cast<ld>(), nullptr);
      c.check(f.time() == t && f.state() == xk, "time_update_state", "%s", tag().c_str());
      MX e = p * Pb.cast<ld>() * p.transpose();
      c.check((f.P.cast<ld>() - e).cwiseAbs().maxCoeff() <= 1e-13 * n * (double)e.cwiseAbs().maxCoeff(), "time_update_covariance", "%s", tag().c_str());
    } else if (op == 1) {
      hist += "q"; nq++; Eigen::MatrixXd phi = ortho(c.r, n), Q = c.r.p(0.3) ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(n, n)) : spd(c.r, n, 1e-3, 1);
      t.add_seconds(NS(c.r.p(0.2) ? -c.r.i(0, 1000000000000L) : c.r.i(1, 1000000000000L))); Eigen::VectorXd xk = phi * f.state(); Eigen::MatrixXd Pb = f.P;
      f.time_update(t, xk, phi, Q); MX p = phi.cast<ld>(), q = Q.cast<ld>(); b.time(p, VX::Zero(n), &q);
      c.check(f.time() == t && f.state() == xk, "time_update_state", "%s", tag().c_str());
      MX e = p * Pb.cast<ld>() * p.transpose() + q;
      c.check((f.P.cast<ld>() - e).cwiseAbs().maxCoeff() <= 1e-13 * n * (double)e.cwiseAbs().maxCoeff(), "time_update_covariance", "%s", tag().c_str());
    } else {
      hist += "m"; Eigen::VectorXd h = rvec(c.r, n); if (c.r.p(0.2)) { int k = (int)c.r.i(0, n - 1); h.setZero(); h(k) = 1; } if (c.r.p(0.03)) h.setZero();
      double sg = c.r.logu(0.05, 10), off = c.r.p(0.5) ? 0 : c.r.n(), z = h.dot(x0) + c.r.n() * sg; Eigen::MatrixXd Pb = f.P;
      double g = h.dot(f.state()) + off; amp = std::max(amp, std::fabs(z) + std::fabs(g));
      f.observation_update(z, g, sg, h); b.obs(h.cast<ld>(), off, z, sg);
      c.check(mineig(Pb - f.P) >= -1e-12 * n * Pb.cwiseAbs().maxCoeff(), "measurement_never_grows_covariance", "%s", tag().c_str());
      // variance along the measured direction after the update is below the measurement's own
      c.check(h.dot(f.P * h) <= sg * sg * (1 + 1e-9) + 1e-12 * h.squaredNorm() * Pb.cwiseAbs().maxCoeff(), "measured_direction_variance", "%s", tag().c_str());
    }
    cov_checks(c, f.P, "", tag);
    VX x; MX P; b.solve(x, P);
    double ps = (double)P.cwiseAbs().maxCoeff(), tol = 1e-9;
    for (int i = 0; i < n; i++) {
      c.near(f.state()(i), (double)x(i), tol * (amp + (double)x.norm()), "state_equals_batch", tag());
      for (int j = 0; j < n; j++) c.near(f.P(i, j), (double)P(i, j), tol * ps, "covariance_equals_batch", tag());
    }
  }
  c.distinct(tag());
  if (c.idx < 4) c.sample(tag());
}
// constraints: observations without error (sigma zero) condition the estimate on the observed value
VF_GROUP(constraints, 300, 6000) {
  int n = (int)c.r.i(2, 9), m = (int)c.r.i(1, n - 1); Eigen::VectorXd x0 = rvec(c.r, n) * c.r.logu(0.1, 1e3); Eigen::MatrixXd P0 = spd(c.r, n, 0.1, 10), O = ortho(c.r, n);
  T t(dso::modified_julian_day(59000), NS(0)); dso::ExtendedKalmanFilter<NS> f(t, x0, P0);
  VX x = x0.cast<ld>(); MX P = P0.cast<ld>(); double amp = x0.norm() + 1; std::vector<int> done; std::vector<double> zs;
  auto tag = [&]() { return vf::fmt("n=%d after %zu constraints of %d", n, done.size(), m); };
  for (int q = 0; q < m; q++) {
    Eigen::VectorXd h = O.col(q); double z = h.dot(x0) + c.r.n() * c.r.logu(1e-3, 10), g = h.dot(f.state()); amp = std::max(amp, std::fabs(z));
    VX hl = h.cast<ld>(), Ph = P * hl; ld s = hl.dot(Ph); x = x + Ph * (((ld)z - hl.dot(x)) / s); P = P - Ph * Ph.transpose() / s;
    f.observation_update(z, g, 0e0, h); done.push_back(q); zs.push_back(z);
    for (size_t k = 0; k < done.size(); k++) {
      Eigen::VectorXd hk = O.col(done[k]); c.near(hk.dot(f.state()), zs[k], 1e-10 * amp, "constraint_is_met", tag()); c.near((f.P * hk).norm(), 0, 1e-10 * P0.cwiseAbs().maxCoeff(), "constrained_direction_is_known", tag());
    }
    for (int i = 0; i < n; i++) { c.near(f.state()(i), (double)x(i), 1e-10 * amp, "state_equals_conditional", tag()); for (int j = 0; j < n; j++) c.near(f.P(i, j), (double)P(i, j), 1e-10 * P0.cwiseAbs().maxCoeff(), "covariance_equals_conditional", tag()); }
    cov_checks(c, f.P, "constraint", tag);
  }
  c.event("constraints"); c.distinct(tag());
}
// measurements of single parameters, many orders of magnitude better than what was known: the
// parameters do not mix, so mean and variance are known in closed form
VF_GROUP(precise_measurements, 300, 6000) {
  int n = (int)c.r.i(1, 12), m = (int)c.r.i(1, 4 * n); Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd x = rvec(c.r, n) * c.r.logu(1e-3, 1e3);
  std::vector<ld> w(n), h(n); std::vector<double> big(n), lost(n, 0); // lost: (1-K)^2 P, where 1-K is as good as a rounding error
  for (int k = 0; k < n; k++) { double p = c.r.logu(1e-6, 1e14); P(k, k) = p; w[k] = 1 / (ld)p; h[k] = w[k] * x(k); big[k] = std::fabs(x(k)); }
  T t(dso::modified_julian_day(59000), NS(0)); dso::ExtendedKalmanFilter<NS> f(t, x, P); ld ratio = 1;
  auto tag = [&](int k) { return vf::fmt("n=%d updates %d parameter %d prior/measurement variance up to %.1Le", n, m, k, ratio); };
  for (int q = 0; q < m; q++) {
    int k = (int)c.r.i(0, n - 1); double s = c.r.logu(1e-7, 1e3), cf = c.r.p(0.5) ? 1 : c.r.p(0.5) ? -1 : c.r.logu(1e-3, 1e3), z = c.r.n() * c.r.logu(1e-3, 1e3); Eigen::VectorXd H = Eigen::VectorXd::Zero(n); H(k) = cf;
    ld wq = (ld)cf * cf / ((ld)s * s); ratio = std::max(ratio, wq / w[k]);
    lost[k] += 1e-30 * f.P(k, k); f.observation_update(z, cf * f.x(k), s, H); big[k] = std::max(big[k], std::fabs(z / cf)); w[k] += wq; h[k] += wq * ((ld)z / cf);
    for (int i = 0; i < n; i++) {
      ld p = 1 / w[i];
      if (!c.check(f.P(i, i) > 0 && std::fabs((double)(f.P(i, i) - p)) <= 1e-12 * (q + 1) * p + lost[i], "variance_of_precise_measurement", "%s: after update %d: %.17g expected %.17Lg", tag(i).c_str(), q, f.P(i, i), p)) return;
      if (!c.near(f.x(i), (double)(h[i] / w[i]), (1e-14 * (q + 2) + 10 * lost[i] / (double)p) * big[i], "mean_of_precise_measurement", tag(i))) return;
      for (int j = 0; j < i; j++) if (!c.check(f.P(i, j) == 0 && f.P(j, i) == 0, "uncorrelated_stays_uncorrelated", "%s: (%d,%d) %g %g", tag(i).c_str(), i, j, f.P(i, j), f.P(j, i))) return;
    }
    if (c.r.p(0.2)) { Eigen::VectorXd d(n); for (int i = 0; i < n; i++) d(i) = std::ldexp(1.0, (int)c.r.i(-2, 2)); Eigen::VectorXd xk = d.cwiseProduct(f.x); f.time_update(t, xk, d.asDiagonal().toDenseMatrix()); for (int i = 0; i < n; i++) { w[i] /= (ld)d(i) * d(i); h[i] /= d(i); big[i] *= d(i); lost[i] *= d(i) * d(i); } }
  }
  // one precise measurement among correlated parameters
  int N = (int)c.r.i(2, 8), k = (int)c.r.i(0, N - 1); Eigen::MatrixXd Q = spd(c.r, N, 1e-1, 1e3); double s = c.r.logu(1e-9, 1e-2), z = c.r.n(); Eigen::VectorXd y = rvec(c.r, N), H = Eigen::VectorXd::Zero(N); H(k) = 1;
  dso::ExtendedKalmanFilter<NS> g(t, y, Q); g.observation_update(z, y(k), s, H); double p = Q(k, k), e = (double)((ld)p * s * s / ((ld)p + (ld)s * s)), u = 1e-15 * N;
  // the variance of the measured parameter: (1-K)^2 P + K^2 s^2, where 1-K is a rounding error at worst
  c.check(g.P(k, k) > 0 && std::fabs(g.P(k, k) - e) <= 1e-9 * e + u * u * p, "variance_of_measured_parameter", "n=%d p=%g s=%g: %.17g expected %.17g", N, p, s, g.P(k, k), e);
  c.near(g.x(k), (double)((y(k) * (ld)s * s + z * (ld)p) / ((ld)s * s + p)), 1e-14 * (std::fabs(y(k)) + std::fabs(z)), "mean_of_measured_parameter", vf::fmt("p=%g s=%g", p, s));
  c.event("precise_updates", m + 1); c.distinct(vf::fmt("%d %d %.2Le", n, m, ratio)); if (c.idx < 3) c.sample(tag(0));
}
// very accurate measurements against a very loose prior: the covariance has to stay a covariance
VF_GROUP(extreme_weights, 300, 6000) {
  int n = (int)c.r.i(2, 8), m = (int)c.r.i(1, 3 * n);
  dso::ExtendedKalmanFilter<NS> f(T(dso::modified_julian_day(59000), NS(0)), rvec(c.r, n), spd(c.r, n, 1e2, c.r.p(0.5) ? 1e4 : 1e6));
  const double top0 = f.P.cwiseAbs().maxCoeff();
  auto tag = [&]() { return vf::fmt("n=%d m=%d", n, m); };
  for (int k = 0; k < m; k++) {
    double tr = f.P.trace(), sg = c.r.logu(1e-2, 1); Eigen::VectorXd h = rvec(c.r, n), h2 = h; Eigen::MatrixXd Pb = f.P;
    f.observation_update(c.r.n(), h.dot(f.x), sg, h2);
    c.check(f.P.diagonal().minCoeff() >= 0 && f.P.allFinite() && f.x.allFinite(), "variances_not_negative", "%s: after %d updates smallest variance %g", tag().c_str(), k + 1, f.P.diagonal().minCoeff());
    c.check(f.P.trace() <= tr + 1e-13 * n * top0, "trace_never_grows", "%s: %g to %g", tag().c_str(), tr, f.P.trace());
    double top = Pb.cwiseAbs().maxCoeff();
    c.check(mineig(f.P) >= -1e-13 * n * top0, "covariance_positive_semidefinite_extreme", "%s: %g of %g", tag().c_str(), mineig(f.P), top);
    c.check((f.P - f.P.transpose()).cwiseAbs().maxCoeff() <= 1e-10 * n * top0, "covariance_symmetric_extreme", "%s", tag().c_str());
  }
  c.distinct(vf::fmt("%d %d %ld", n, m, c.idx));
}

namespace {
template <int Np, dso::BeaconClockModel M> struct Layout {
  static constexpr bool lin = M == dso::BeaconClockModel::Linear;
  static constexpr int per = lin ? 3 : 2;
  static void run(vf::Ctx &c) {
    int n = c.r.p(0.2) ? 1 : (int)c.r.i(1, 60), N = 6 + Np + per * n;
    T ref(dso::modified_julian_day(59000), NS(c.r.i(0, 86399999999999L)));
    dso::EkfFilter<Np, M> f(n, ref);
    const dso::EkfFilter<Np, M> &cf = f;
    Eigen::VectorXd x = Eigen::VectorXd::Zero(N); Eigen::MatrixXd P = Eigen::MatrixXd::Identity(N, N);
    std::string hist = vf::fmt("Np=%d %s n=%d:", Np, lin ? "linear" : "none", n);
    if (!c.check((int)f.num_params() == N && f.estimates().rows() == N && f.estimates().cols() == 1 && f.P().rows() == N && f.P().cols() == N, "dimension", "%s: %d parameters", hist.c_str(), (int)f.num_params())) return;
    // every slot is somebody's, once
    std::vector<int> owner(N, 0);
    for (int k = 0; k < 6; k++) owner[k]++;
    for (int k = 0; k < Np; k++) owner[6 + k]++;
    for (int k = 0; k < n; k++) { owner.at(cf.tropo_index(k))++; owner.at(cf.rfoff_index(k))++; if (lin) owner.at(cf.rfoff_index(k) + 1)++; }
    bool once = true; for (int o : owner) once = once && o == 1;
    c.check(once, "slots_disjoint_and_complete", "%s", hist.c_str());
    c.check(cf.drag_coef_index() >= 6 && (int)cf.drag_coef_index() < 6 + Np, "drag_slot", "%s", hist.c_str());
    auto same = [&]() {
      bool ok = f.P() == P && Eigen::VectorXd(f.estimates().col(0)) == x;
      for (int k = 0; ok && k < n; k++) ok = cf.tropo_estimate(k) == x(cf.tropo_index(k));
      ok = ok && cf.drag_coef() == x(cf.drag_coef_index());
      return c.check(ok, "only_the_named_parameter_changes", "%s", hist.c_str());
    };
    if (!same()) return;
    int steps = (int)c.r.i(3, 20);
    for (int s = 0; s < steps; s++) {
      int op = (int)c.r.i(0, 8), b = c.r.p(0.3) ? -1 : (int)c.r.i(0, n - 1); double v = c.r.n(), w = c.r.n();
      hist += vf::fmt(" %d(%d)", op, b);
      auto each = [&](auto g) { for (int k = 0; k < n; k++) if (b < 0 || k == b) g(k); };
      switch (op) {
      case 0: f.set_tropo_apriori(v, b); each([&](int k) { x(cf.tropo_index(k)) = v; }); break;
      case 1: f.set_tropo_apriori_sigma(v, b); each([&](int k) { P(cf.tropo_index(k), cf.tropo_index(k)) = v; }); break;
      case 2:
        if constexpr (lin) f.set_rfoff_apriori(v, w, b); else f.set_rfoff_apriori(v, b);
        each([&](int k) { x(cf.rfoff_index(k)) = v; if (lin) x(cf.rfoff_index(k) + 1) = w; }); break;
      case 3:
        if constexpr (lin) f.set_rfoff_apriori_sigma(v, w, b); else f.set_rfoff_apriori_sigma(v, b);
        each([&](int k) { int i = (int)cf.rfoff_index(k); P(i, i) = v; if (lin) P(i + 1, i + 1) = w; }); break;
      case 4: f.set_drag_coef_apriori(v); x(cf.drag_coef_index()) = v; break;
      case 5: f.set_drag_coef_apriori_sigma(v); P(cf.drag_coef_index(), cf.drag_coef_index()) = v; break;
      case 6: if (b >= 0) { f.tropo_estimate(b) = v; x(cf.tropo_index(b)) = v; } else { f.drag_coef() = v; x(cf.drag_coef_index()) = v; } break;
      case 7:
        if (b >= 0) {
          if constexpr (lin) {
            T t = ref; t.add_seconds(NS(c.r.i(-86400000000000L, 86400000000000L)));
            double dt = t.delta_sec(ref).to_fractional_seconds(); int i = (int)cf.rfoff_index(b);
            c.near(cf.deltat(t), dt, 0, "seconds_from_reference");
            c.near(cf.rfoff_estimate(b, t), x(i) + dt * x(i + 1), 4e-16 * (std::fabs(x(i)) + std::fabs(dt * x(i + 1))), "clock_offset_of_beacon", hist);
          } else { f.rfoff_estimate(b) = v; x(cf.rfoff_index(b)) = v; c.check(cf.rfoff_estimate(b) == v, "clock_offset_of_beacon", "%s", hist.c_str()); }
        }
        break;
      case 8: { // an update through the wrapper equals the same update of the plain filter
        dso::ExtendedKalmanFilter<NS> g(ref, x, P); Eigen::MatrixXd Pn = P;
        for (int i = 0; i < N; i++) Pn(i, i) = std::fabs(Pn(i, i)) + 0.1;
        f.P() = Pn; g.P = Pn; Eigen::VectorXd h = rvec(c.r, N);
        if (c.r.p(0.5)) { f.observation_update(v, w, 0.7, h); g.observation_update(v, w, 0.7, h); }
        else { Eigen::MatrixXd phi = Eigen::MatrixXd::Identity(N, N); phi(0, N - 1) = v; f.time_update(ref, h, phi); g.time_update(ref, h, phi); }
        double sc = g.P.cwiseAbs().maxCoeff();
        c.check((f.P() - g.P).cwiseAbs().maxCoeff() <= 1e-14 * sc && (Eigen::VectorXd(f.estimates().col(0)) - g.x).norm() <= 1e-13 * (1 + g.x.norm()), "wrapper_updates_like_the_filter", "%s", hist.c_str());
        P = f.P(); x = f.estimates().col(0);
        break; }
      }
      if (!same()) return;
    }
    c.distinct(hist);
    if (c.idx < 4) c.sample(hist);
  }
};
} // namespace
VF_GROUP(parameter_layout, 800, 16000) {
  using B = dso::BeaconClockModel;
  switch (c.idx % 6) {
  case 0: Layout<1, B::None>::run(c); break;
  case 1: Layout<1, B::Linear>::run(c); break;
  case 2: Layout<2, B::None>::run(c); break;
  case 3: Layout<2, B::Linear>::run(c); break;
  case 4: Layout<4, B::Linear>::run(c); break;
  case 5: Layout<3, B::None>::run(c); break;
  }
}
