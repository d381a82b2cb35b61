// Reference solutions for the integrator drivers:
//  * problems in any scalar type, solved in long double by extrapolation (GBS);
//  * an independent transcription of Shampine & Gordon's DE/STEP/INTRP and of
//    RKF45 as published, used as a yardstick for work and error.
#ifndef VF_ODE_REF
#define VF_ODE_REF
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "vf.hpp"
typedef long double ld;
struct Problem {
  int kind = 0, n = 1; double c[80] = {0}; double span = 1; std::string tag;
  std::vector<double> y0; double t0 = 0;
  double forbid = INFINITY; int dir = 1; // beyond this (in direction dir) the derivative is garbage
  template <class T> void f(T t, const T *y, T *d) const {
    using std::cos; using std::sin; using std::sqrt; using std::pow;
    switch (kind) {
    case 0: for (int i = 0; i < n; i++) d[i] = (T)c[i] * y[i]; break;                       // scalar exponentials
    case 1: for (int i = 0; i + 1 < n; i += 2) { d[i] = (T)c[i] * y[i + 1]; d[i + 1] = -(T)c[i] * y[i]; } if (n & 1) d[n - 1] = 0; break; // oscillators
    case 2: { T r2 = y[0] * y[0] + y[1] * y[1], r3 = r2 * sqrt(r2); d[0] = y[2]; d[1] = y[3]; d[2] = -y[0] / r3; d[3] = -y[1] / r3; } break;
    case 3: d[0] = y[1] * y[2]; d[1] = -y[0] * y[2]; d[2] = -(T)c[0] * y[0] * y[1]; break;
    case 4: for (int i = 0; i < n; i++) d[i] = cos((T)c[i] * t) * y[i]; break;
    case 5: for (int i = 0; i < n; i++) { T s = 0; for (int k = 4; k >= 0; k--) s = s * (t - (T)t0) + (T)c[(i * 5 + k) % 80]; d[i] = s; } break;
    case 6: for (int i = 0; i < n; i++) { T s = -(T)c[79] * y[i]; for (int j = 0; j < n; j++) { T a = j > i ? (T)c[(i * 7 + j * 3) % 70] : j < i ? -(T)c[(j * 7 + i * 3) % 70] : 0; s += a * y[j]; } d[i] = s; } break;
    case 7: for (int i = 0; i < n; i++) d[i] = (T)c[i] * y[i] * (1 - y[i]); break;
    case 8: for (int i = 0; i < n; i++) d[i] = -2 * (t - (T)t0) * y[i] * y[i]; break;
    case 9: for (int i = 0; i < n; i++) d[i] = -(T)c[79] * (y[i] - cos(t + (T)c[i])); break; // stiff when c[79] is large
    case 10: for (int i = 0; i < n; i++) d[i] = (T)c[i] * (1 + y[i] * y[i]); break; // poles: tan
    case 11: for (int i = 0; i < n; i++) d[i] = (T)c[0] + ((t - (T)c[1]) * (T)c[3] >= 0 ? (T)c[2] : (T)0); break; // a jump in the derivative
    }
  }
};
inline Problem make_problem(vf::Rng &r, int kind) {
  Problem p; p.kind = kind;
  for (double &x : p.c) x = r.u(-1, 1);
  static const int ns[] = {1, 2, 3, 5, 6, 7, 12, 42};
  p.n = ns[r.i(0, 6)]; if (r.p(0.05)) p.n = 42;
  p.t0 = r.p(0.4) ? 0 : r.u(-20, 20);
  p.span = r.u(0.5, 12);
  switch (kind) {
  case 0: for (double &x : p.c) x = r.u(-0.5, 0.15); break;
  case 1: if (p.n < 2) p.n = 2; for (double &x : p.c) x = r.u(0.5, 2); break;
  case 2: p.n = 4; break;
  case 3: p.n = 3; p.c[0] = r.u(0.1, 0.9); break;
  case 4: for (double &x : p.c) x = r.u(0.5, 2); break;
  case 6: p.c[79] = r.u(0, 0.2); if (p.n > 12) p.n = 12; for (int k = 0; k < 70; k++) p.c[k] *= 1.5 / std::sqrt((double)p.n); break;
  case 7: for (double &x : p.c) x = r.u(0.2, 1); break;
  case 8: p.span = r.u(0.5, 6); break;
  case 9: p.c[79] = r.u(0.5, 3); break;
  }
  p.y0.resize(p.n);
  for (double &x : p.y0) x = kind == 7 ? r.u(0.05, 0.95) : kind == 8 ? r.u(0.5, 1) : r.sgn() * r.u(0.3, 1.5);
  if (kind == 2) { double e = r.u(0, 0.6); p.y0 = {1 - e, 0, 0, std::sqrt((1 + e) / (1 - e))}; }
  if (kind == 3) p.y0 = {0, 1, 1};
  p.tag = vf::fmt("problem %d n=%d t0=%.6g span=%.6g", kind, p.n, p.t0, p.span);
  return p;
}
// long double reference by Gragg extrapolation with fixed large order and halving checks
struct GBS {
  const Problem &p; GBS(const Problem &q) : p(q) {}
  void stage(ld t, const std::vector<ld> &y, ld H, int ns, std::vector<ld> &o) const {
    int n = p.n; std::vector<ld> a = y, b(n), d(n), tmp(n); ld h = H / ns;
    p.f<ld>(t, a.data(), d.data()); for (int i = 0; i < n; i++) b[i] = a[i] + h * d[i];
    for (int k = 1; k < ns; k++) { p.f<ld>(t + k * h, b.data(), d.data()); for (int i = 0; i < n; i++) { tmp[i] = a[i] + 2 * h * d[i]; } a.swap(b); b.swap(tmp); }
    p.f<ld>(t + H, b.data(), d.data()); o.resize(n); for (int i = 0; i < n; i++) o[i] = (a[i] + b[i] + h * d[i]) / 2;
  }
  std::vector<ld> to(ld t, std::vector<ld> y, ld T) const {
    ld H0 = p.kind == 9 ? 0.4L / std::fabs(p.c[79]) : p.kind == 2 ? 0.1L : 0.25L; int N = (int)ceill(fabsl(T - t) / H0); if (N < 1) N = 1;
    ld H = (T - t) / N; static const int seq[] = {2, 4, 6, 8, 10, 12, 14, 16}; const int K = 8;
    for (int s = 0; s < N; s++) {
      std::vector<std::vector<ld>> R(K);
      for (int k = 0; k < K; k++) {
        stage(t + s * H, y, H, seq[k], R[k]);
        for (int j = k - 1; j >= 0; j--) { ld q = (ld)seq[k] / seq[j]; q = q * q - 1; for (int i = 0; i < p.n; i++) R[j][i] = R[j + 1][i] + (R[j + 1][i] - R[j][i]) / q; }
      }
      y = R[0];
    }
    return y;
  }
};
// published DE/STEP/INTRP (Shampine & Gordon 1975), 1-based as in the book
struct RefDE {
  const Problem *P; int neqn; std::vector<double> yy, wt, p, yp, ypout; std::vector<std::vector<double>> phi;
  double alpha[15], beta[15], sig[16], v[15], w[15], g[16], psi[15], x = 0, h = 0, hold = 0, told = 0, delsgn = 0;
  bool phase1 = true, start = true, nornd = true; int ns = 0, k = 1, kold = 0, isnold = 1, iflag = 1; long nfe = 0;
  double relerr, abserr;
  RefDE(const Problem &q, double re, double ae) : P(&q), neqn(q.n), yy(q.n + 1), wt(q.n + 1), p(q.n + 1), yp(q.n + 1), ypout(q.n + 1), phi(17, std::vector<double>(q.n + 1)), relerr(re), abserr(ae) {}
  static constexpr double U = std::numeric_limits<double>::epsilon(), twou = 2 * U, fouru = 4 * U;
  void F(double t, const std::vector<double> &y, std::vector<double> &d) { nfe++; P->f<double>(t, y.data() + 1, d.data() + 1); }
  void step(double &eps, bool &crash) {
    static const double gstr[] = {0, 0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114, 0.00936, 0.00789, 0.00679, 0.00592, 0.00524, 0.00468};
    crash = true;
    if (!(std::fabs(h) >= fouru * std::fabs(x))) { h = std::copysign(fouru * std::fabs(x), h); return; }
    double p5eps = 0.5 * eps, round = 0;
    for (int l = 1; l <= neqn; l++) round += (yy[l] / wt[l]) * (yy[l] / wt[l]);
    round = twou * std::sqrt(round);
    if (p5eps < round) { eps = 2 * round * (1 + fouru); return; }
    crash = false; g[1] = 1; g[2] = 0.5; sig[1] = 1;
    if (start) {
      F(x, yy, yp); double sum = 0;
      for (int l = 1; l <= neqn; l++) { phi[1][l] = yp[l]; phi[2][l] = 0; sum += (yp[l] / wt[l]) * (yp[l] / wt[l]); }
      sum = std::sqrt(sum); double absh = std::fabs(h);
      if (eps < 16 * sum * h * h) absh = 0.25 * std::sqrt(eps / sum);
      h = std::copysign(std::max(absh, fouru * std::fabs(x)), h);
      hold = 0; k = 1; kold = 0; start = false; phase1 = true; nornd = true;
      if (p5eps <= 100 * round) { nornd = false; for (int l = 1; l <= neqn; l++) phi[15][l] = 0; }
    }
    int ifail = 0; double absh, erk, erkm1, erkm2, err; int kp1, kp2, km1, km2, knew;
    for (;;) {
      kp1 = k + 1; kp2 = k + 2; km1 = k - 1; km2 = k - 2;
      if (h != hold) ns = 0;
      if (ns <= kold) ns++;
      int nsp1 = ns + 1;
      if (k >= ns) {
        beta[ns] = 1; alpha[ns] = 1.0 / ns; double t1 = h * ns; sig[nsp1] = 1;
        for (int i = nsp1; i <= k; i++) { double t2 = psi[i - 1]; psi[i - 1] = t1; beta[i] = beta[i - 1] * psi[i - 1] / t2; t1 = t2 + h; alpha[i] = h / t1; sig[i + 1] = i * alpha[i] * sig[i]; }
        psi[k] = t1;
        if (ns <= 1) for (int q = 1; q <= k; q++) w[q] = v[q] = 1.0 / (q * (q + 1));
        else {
          if (k > kold) { v[k] = 1.0 / (k * kp1); for (int j = 1; j <= ns - 2; j++) { int i = k - j; v[i] -= alpha[j + 1] * v[i + 1]; } }
          for (int q = 1; q <= kp1 - ns; q++) { v[q] -= alpha[ns] * v[q + 1]; w[q] = v[q]; }
          g[nsp1] = w[1];
        }
        for (int i = ns + 2; i <= kp1; i++) { for (int q = 1; q <= kp2 - i; q++) w[q] -= alpha[i - 1] * w[q + 1]; g[i] = w[1]; }
      }
      for (int i = nsp1; i <= k; i++) for (int l = 1; l <= neqn; l++) phi[i][l] *= beta[i];
      for (int l = 1; l <= neqn; l++) { phi[kp2][l] = phi[kp1][l]; phi[kp1][l] = 0; p[l] = 0; }
      for (int i = k; i >= 1; i--) for (int l = 1; l <= neqn; l++) { p[l] += g[i] * phi[i][l]; phi[i][l] += phi[i + 1][l]; }
      for (int l = 1; l <= neqn; l++) {
        if (nornd) p[l] = yy[l] + h * p[l];
        else { double tau = h * p[l] - phi[15][l]; p[l] = yy[l] + tau; phi[16][l] = (p[l] - yy[l]) - tau; }
      }
      double xold = x; x += h; absh = std::fabs(h); F(x, p, yp);
      erk = erkm1 = erkm2 = 0;
      for (int l = 1; l <= neqn; l++) {
        double t3 = 1 / wt[l], t4 = yp[l] - phi[1][l];
        if (km2 > 0) erkm2 += std::pow((phi[km1][l] + t4) * t3, 2);
        if (km2 >= 0) erkm1 += std::pow((phi[k][l] + t4) * t3, 2);
        erk += std::pow(t4 * t3, 2);
      }
      if (km2 > 0) erkm2 = absh * sig[km1] * gstr[km2] * std::sqrt(erkm2);
      if (km2 >= 0) erkm1 = absh * sig[k] * gstr[km1] * std::sqrt(erkm1);
      double t5 = absh * std::sqrt(erk); err = t5 * (g[k] - g[kp1]); erk = t5 * sig[kp1] * gstr[k]; knew = k;
      if (km2 > 0) { if (std::max(erkm1, erkm2) <= erk) knew = km1; } else if (km2 == 0 && erkm1 <= 0.5 * erk) knew = km1;
      if (err <= eps) break;
      phase1 = false; x = xold;
      for (int i = 1; i <= k; i++) for (int l = 1; l <= neqn; l++) phi[i][l] = (phi[i][l] - phi[i + 1][l]) / beta[i];
      for (int i = 2; i <= k; i++) psi[i - 1] = psi[i] - h;
      ifail++; double t2 = 0.5;
      if (ifail > 3 && p5eps < 0.25 * erk) t2 = std::sqrt(p5eps / erk);
      if (ifail >= 3) knew = 1;
      h *= t2; k = knew;
      if (std::fabs(h) < fouru * std::fabs(x)) { crash = true; h = std::copysign(fouru * std::fabs(x), h); eps += eps; return; }
    }
    kold = k; hold = h; double t1 = h * g[kp1];
    for (int l = 1; l <= neqn; l++) {
      if (nornd) yy[l] = p[l] + t1 * (yp[l] - phi[1][l]);
      else { double rho = t1 * (yp[l] - phi[1][l]) - phi[16][l]; yy[l] = p[l] + rho; phi[15][l] = (yy[l] - p[l]) - rho; }
    }
    F(x, yy, yp);
    for (int l = 1; l <= neqn; l++) { phi[kp1][l] = yp[l] - phi[1][l]; phi[kp2][l] = phi[kp1][l] - phi[kp2][l]; }
    for (int i = 1; i <= k; i++) for (int l = 1; l <= neqn; l++) phi[i][l] += phi[kp1][l];
    double erkp1 = 0; int act = 0;
    if (knew == km1 || k == 12) phase1 = false;
    if (phase1) act = 1;
    else if (knew == km1) act = -1;
    else if (kp1 <= ns) {
      for (int l = 1; l <= neqn; l++) erkp1 += std::pow(phi[kp2][l] / wt[l], 2);
      erkp1 = absh * gstr[kp1] * std::sqrt(erkp1);
      if (k > 1) act = erkm1 <= std::min(erk, erkp1) ? -1 : (erkp1 >= erk || k == 12) ? 0 : 1;
      else act = erkp1 >= 0.5 * erk ? 0 : 1;
    }
    if (act == 1) { k = kp1; erk = erkp1; } else if (act == -1) { k = km1; erk = erkm1; }
    double hnew = h + h;
    if (!phase1 && p5eps < erk * std::pow(2.0, k + 1)) {
      hnew = h;
      if (p5eps < erk) { double r = std::pow(p5eps / erk, 1.0 / (k + 1)); hnew = absh * std::max(0.5, std::min(0.9, r)); hnew = std::copysign(std::max(hnew, fouru * std::fabs(x)), h); }
    }
    h = hnew;
  }
  void intrp(double xout, std::vector<double> &yo) {
    double G[16], R[16], W[16]; double hi = xout - x; int ki = kold + 1, kip1 = ki + 1;
    for (int i = 1; i <= ki; i++) W[i] = 1.0 / i;
    G[1] = R[1] = 1; double term = 0;
    for (int j = 2; j <= ki; j++) { double ps = psi[j - 1], gm = (hi + term) / ps, et = hi / ps; for (int i = 1; i <= kip1 - j; i++) W[i] = gm * W[i] - et * W[i + 1]; G[j] = W[1]; R[j] = gm * R[j - 1]; term = ps; }
    for (int l = 1; l <= neqn; l++) { double s = 0; for (int j = 1; j <= ki; j++) s += G[kip1 - j] * phi[kip1 - j][l]; yo[l - 1] = yy[l] + hi * s; }
  }
  int de(double &t, double tout, std::vector<double> &y) {
    double eps = std::max(relerr, abserr);
    int isn = iflag < 0 ? -1 : 1, fl = std::abs(iflag);
    if (t == tout || relerr < 0 || abserr < 0 || eps <= 0 || !iflag || fl > 5 || (fl != 1 && t != told)) { iflag = 6; return 6; }
    double del = tout - t, absdel = std::fabs(del), tend = isn < 0 ? tout : t + 10 * del; int nostep = 0, kle4 = 0; bool stiff = false;
    double releps = relerr / eps, abseps = abserr / eps;
    if (fl == 1 || isnold < 0 || delsgn * del <= 0) { start = true; x = t; for (int l = 1; l <= neqn; l++) yy[l] = y[l - 1]; delsgn = std::copysign(1.0, del); h = std::copysign(std::max(std::fabs(tout - x), fouru * std::fabs(x)), tout - x); }
    auto out = [&](int f) { for (int l = 1; l <= neqn; l++) y[l - 1] = yy[l]; t = x; told = t; isnold = 1; iflag = isn * f; return f; };
    for (;;) {
      if (std::fabs(x - t) >= absdel) { intrp(tout, y); iflag = 2; t = told = tout; isnold = isn; return 2; }
      if (isn < 0 && std::fabs(tout - x) < fouru * std::fabs(x)) { h = tout - x; F(x, yy, yp); for (int l = 1; l <= neqn; l++) y[l - 1] = yy[l] + h * yp[l]; iflag = 2; t = told = tout; isnold = isn; return 2; }
      if (nostep >= 500) return out(stiff ? 5 : 4);
      h = std::copysign(std::min(std::fabs(h), std::fabs(tend - x)), h);
      for (int l = 1; l <= neqn; l++) wt[l] = releps * std::fabs(yy[l]) + abseps;
      bool crash; step(eps, crash);
      if (crash) { relerr = eps * releps; abserr = eps * abseps; return out(3); }
      nostep++; kle4++; if (kold > 4) kle4 = 0; if (kle4 >= 50) stiff = true;
    }
  }
};
// published RKF45 (Watts & Shampine), every call started afresh
struct RefRKF {
  const Problem *P; int n; double relerr, abserr; int nfe = 0; long total = 0;
  std::vector<double> yp, f1, f2, f3, f4, f5;
  RefRKF(const Problem &q, double re, double ae) : P(&q), n(q.n), relerr(re), abserr(ae), yp(n), f1(n), f2(n), f3(n), f4(n), f5(n) {}
  void F(double t, const std::vector<double> &y, std::vector<double> &d) { nfe++; total++; P->f<double>(t, y.data(), d.data()); }
  int solve(double &t, double tout, std::vector<double> &y) {
    const double eps = std::numeric_limits<double>::epsilon(), u26 = 26 * eps, rer = 2 * eps + 1e-12;
    if (relerr < rer) { relerr = rer; return 3; }
    double dt = tout - t; nfe = 0; F(t, y, yp);
    double h = std::fabs(dt), toln = 0;
    for (int k = 0; k < n; k++) { double tol = relerr * std::fabs(y[k]) + abserr; if (tol > 0) { toln = tol; double a = std::fabs(yp[k]); if (a * std::pow(h, 5) > tol) h = std::pow(tol / a, 0.2); } }
    if (toln <= 0) h = 0;
    h = std::max(h, u26 * std::max(std::fabs(t), std::fabs(dt))); h = std::copysign(h, dt);
    if (std::fabs(dt) <= u26 * std::fabs(t)) { for (int k = 0; k < n; k++) y[k] += dt * yp[k]; t = tout; return 2; }
    bool output = false; double scale = 2 / relerr, ae = scale * abserr;
    for (;;) {
      bool fail = false; double hmin = u26 * std::fabs(t); dt = tout - t;
      if (std::fabs(dt) < 2 * std::fabs(h)) { if (std::fabs(dt) > std::fabs(h)) h = dt / 2; else { output = true; h = dt; } }
      double est;
      for (;;) {
        if (nfe > 3000) return 4;
        auto st = [&](double fr, auto comb, std::vector<double> &d) { std::vector<double> z(n); for (int k = 0; k < n; k++) z[k] = y[k] + h * comb(k); F(t + fr * h, z, d); };
        st(0.25, [&](int k) { return yp[k] / 4; }, f1);
        st(0.375, [&](int k) { return 3.0 / 32 * yp[k] + 9.0 / 32 * f1[k]; }, f2);
        st(12.0 / 13, [&](int k) { return (1932 * yp[k] - 7200 * f1[k] + 7296 * f2[k]) / 2197; }, f3);
        st(1, [&](int k) { return 439.0 / 216 * yp[k] - 8 * f1[k] + 3680.0 / 513 * f2[k] - 845.0 / 4104 * f3[k]; }, f4);
        st(0.5, [&](int k) { return -8.0 / 27 * yp[k] + 2 * f1[k] - 3544.0 / 2565 * f2[k] + 1859.0 / 4104 * f3[k] - 11.0 / 40 * f4[k]; }, f5);
        std::vector<double> s(n); double ee = 0;
        for (int k = 0; k < n; k++) {
          s[k] = y[k] + h * (16.0 / 135 * yp[k] + 6656.0 / 12825 * f2[k] + 28561.0 / 56430 * f3[k] - 9.0 / 50 * f4[k] + 2.0 / 55 * f5[k]);
          double et = std::fabs(y[k]) + std::fabs(s[k]) + ae; if (et <= 0) return 5;
          ee = std::max(ee, std::fabs(yp[k] / 360 - 128.0 / 4275 * f2[k] - 2197.0 / 75240 * f3[k] + f4[k] / 50 + 2.0 / 55 * f5[k]) / et);
        }
        est = std::fabs(h) * ee * scale;
        if (est <= 1) { f1 = s; break; }
        fail = true; output = false; h *= est < 59049 ? 0.9 / std::pow(est, 0.2) : 0.1;
        if (std::fabs(h) <= hmin) return 6;
      }
      t += h; y = f1; F(t, y, yp);
      double s = est > 1.889568e-4 ? 0.9 / std::pow(est, 0.2) : 5; if (fail) s = std::min(s, 1.0);
      h = std::copysign(std::max(s * std::fabs(h), hmin), h);
      if (output) { t = tout; return 2; }
    }
  }
};
#endif
