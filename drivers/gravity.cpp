// C04: gravity acceleration and partials against an independent potential
// (Pines/Helmholtz form differentiated with second order jets, long double).
#include "vf.hpp"
#ifdef VARIANT_SRC
#include "egravity.hpp"
#include "harmonic_coeffs.hpp"
#include "cmat2d.hpp"
#else
#include "egravity.hpp"
#include "harmonic_coeffs.hpp"
#include "compact2dmat.hpp"
#endif
using Trap = dso::Mat2D<dso::MatrixStorageType::Trapezoid>;
typedef long double ld;

struct Jet { // value, gradient, hessian (xx xy xz yy yz zz)
  ld v; ld g[3]; ld h[6];
  Jet(ld c = 0) : v(c), g{0, 0, 0}, h{0, 0, 0, 0, 0, 0} {}
};
static const int HI[6] = {0, 0, 0, 1, 1, 2}, HJ[6] = {0, 1, 2, 1, 2, 2};
static Jet operator+(const Jet &a, const Jet &b) { Jet r; r.v = a.v + b.v; for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i]; for (int i = 0; i < 6; i++) r.h[i] = a.h[i] + b.h[i]; return r; }
static Jet operator-(const Jet &a, const Jet &b) { Jet r; r.v = a.v - b.v; for (int i = 0; i < 3; i++) r.g[i] = a.g[i] - b.g[i]; for (int i = 0; i < 6; i++) r.h[i] = a.h[i] - b.h[i]; return r; }
static Jet operator*(ld s, const Jet &b) { Jet r; r.v = s * b.v; for (int i = 0; i < 3; i++) r.g[i] = s * b.g[i]; for (int i = 0; i < 6; i++) r.h[i] = s * b.h[i]; return r; }
static Jet operator*(const Jet &a, const Jet &b) {
  Jet r; r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] * b.v + a.v * b.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = a.h[k] * b.v + a.v * b.h[k] + a.g[HI[k]] * b.g[HJ[k]] + a.g[HJ[k]] * b.g[HI[k]];
  return r;
}
static Jet chain(const Jet &a, ld f, ld f1, ld f2) {
  Jet r; r.v = f;
  for (int i = 0; i < 3; i++) r.g[i] = f1 * a.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = f1 * a.h[k] + f2 * a.g[HI[k]] * a.g[HJ[k]];
  return r;
}

struct Solid { // V(n,m), W(n,m): (R/r)^(n+1) P_nm(sin phi) {cos,sin}(m lambda), as jets in the scaled position
  int N; std::vector<Jet> V, W;
  Jet &v(int n, int m) { return V[(size_t)n * (N + 1) + m]; }
  Jet &w(int n, int m) { return W[(size_t)n * (N + 1) + m]; }
  Solid(const ld *q, int N_) : N(N_), V((size_t)(N_ + 1) * (N_ + 1)), W((size_t)(N_ + 1) * (N_ + 1)) {
    // q = position / R
    Jet x(q[0]), y(q[1]), z(q[2]);
    x.g[0] = y.g[1] = z.g[2] = 1;
    Jet r2 = x * x + y * y + z * z;
    ld r = sqrtl(r2.v);
    Jet ri = chain(r2, 1 / r, -0.5L / (r * r2.v), 0.75L / (r * r2.v * r2.v)); // 1/r
    Jet s = x * ri, t = y * ri, u = z * ri;
    std::vector<Jet> rp(N + 2);
    rp[0] = Jet(1);
    for (int n = 1; n <= N + 1; n++) rp[n] = rp[n - 1] * ri;
    Jet a(1), b(0); // Re, Im of (s+it)^m
    ld dfac = 1;
    for (int m = 0; m <= N; m++) {
      if (m) { Jet a2 = s * a - t * b, b2 = s * b + t * a; a = a2; b = b2; dfac *= (2 * m - 1); }
      // H_nm = d^m P_n / du^m
      Jet h0, h1(dfac);
      for (int n = m; n <= N; n++) {
        if (n > m) {
          Jet h2 = ((ld)(2 * n - 1) / (n - m)) * (u * h1);
          if (n > m + 1) h2 = h2 - ((ld)(n + m - 1) / (n - m)) * h0;
          h0 = h1; h1 = h2;
        }
        Jet f = rp[n + 1] * h1;
        v(n, m) = f * a; w(n, m) = f * b;
      }
    }
  }
};

struct Ref { ld a[3], p[6], sa, sp; };
template <class CF> static Ref reference(const ld *pos, ld R, ld GM, int deg, int ord, CF cs) {
  ld q[3] = {pos[0] / R, pos[1] / R, pos[2] / R};
  Solid S(q, deg);
  Ref r; memset(&r, 0, sizeof r);
  ld ra = sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
  for (int n = 0; n <= deg; n++) for (int m = 0; m <= std::min(n, ord); m++) {
    ld C, Sx; cs(n, m, C, Sx);
    if (C == 0 && Sx == 0) continue;
    Jet &v = S.v(n, m), &w = S.w(n, m);
    ld ga = 0, ha = 0;
    for (int i = 0; i < 3; i++) { r.a[i] += C * v.g[i] + Sx * w.g[i]; ga += fabsl(C * v.g[i]) + fabsl(Sx * w.g[i]); }
    for (int k = 0; k < 6; k++) { r.p[k] += C * v.h[k] + Sx * w.h[k]; ha += fabsl(C * v.h[k]) + fabsl(Sx * w.h[k]); }
    // what the products that make up the derivative cancel from
    ld vv = (fabsl(C) + fabsl(Sx)) * sqrtl(v.v * v.v + w.v * w.v);
    r.sa += ga + vv * (n + 1) / ra; r.sp += ha + vv * (n + 1) * (n + 2) / (ra * ra);
  }
  for (auto &x : r.a) x *= GM / R / R;
  for (auto &x : r.p) x *= GM / R / R / R;
  r.sa *= GM / R / R; r.sp *= GM / R / R / R;
  return r;
}

static void position(vf::Ctx &c, double R, double *p, const char *&kind) {
  double r = R * (c.r.p(0.1) ? c.r.u(1.0, 1.02) : c.r.u(1.03, 7));
  double phi = asin(c.r.u(-1, 1)), lam = c.r.u(-M_PI, M_PI);
  kind = "generic";
  switch (c.r.i(0, 9)) {
  case 0: phi = c.r.sgn() * M_PI / 2; kind = "pole"; p[0] = p[1] = 0; p[2] = r * (phi > 0 ? 1 : -1); return;
  case 1: kind = "equator"; p[0] = r * cos(lam); p[1] = r * sin(lam); p[2] = 0; return;
  case 2: kind = "axis"; { int k = (int)c.r.i(0, 1); p[0] = p[1] = p[2] = 0; p[k] = c.r.sgn() * r; } return;
  case 3: kind = "near-pole"; phi = c.r.sgn() * (M_PI / 2 - c.r.logu(1e-9, 1e-2)); break;
  }
  p[0] = r * cos(phi) * cos(lam); p[1] = r * cos(phi) * sin(lam); p[2] = r * sin(phi);
}
static double nf(int n, int m) { double f = sqrt((2.0 * n + 1) * (m ? 2 : 1)); for (int q = n - m + 1; q <= n + m; q++) f /= sqrt((double)q); return f; }

#ifdef VARIANT_SRC
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
#endif
static void dirty(vf::Ctx &c, Trap &m) {
  double x = c.r.p(0.5) ? NAN : c.r.n() * 1e20;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j <= std::min(i, m.cols() - 1); j++) m(i, j) = x;
}

static void one(vf::Ctx &c, int deg, int ord, int hcdeg, const std::function<void(int, int, double &, double &)> &gen, const char *what) {
  double R = c.r.p(0.7) ? 6378136.3 : c.r.logu(1e5, 1e8), GM = c.r.p(0.7) ? 3.986004415e14 : c.r.logu(1e8, 1e18);
  dso::HarmonicCoeffs hc(hcdeg);
  bool junkbeyond = c.r.p(0.6);
  for (int n = 0; n <= hcdeg; n++) for (int m = 0; m <= n; m++) {
    double C = 0, S = 0; gen(n, m, C, S);
    if (n > deg || m > ord) { C = S = junkbeyond ? NAN : 1e3 * c.r.n(); }
    hc.C(n, m) = C; if (m) hc.S(n, m) = S;
  }
#ifdef VARIANT_SRC
  hc.GM() = GM; hc.Re() = R;
#endif
  double p[3]; const char *kind; position(c, R, p, kind);
  c.event(kind); c.event(what);
  c.distinct(vf::fmt("%s %d %d %d %s", what, deg, ord, hcdeg, kind));
  c.sample(vf::fmt("%s: degree %d order %d of %d at (%.1f,%.1f,%.1f) %s", what, deg, ord, hcdeg, p[0], p[1], p[2], kind));
  ld lp[3] = {p[0], p[1], p[2]};
  Ref ref = reference(lp, R, GM, deg, ord, [&](int n, int m, ld &C, ld &S) { C = hc.C(n, m); S = m ? hc.S(n, m) : 0; });
  double ta = (double)ref.sa * (2e-13 + 4e-15 * deg + 4e-16 * deg * deg) + 1e-300, tp = (double)ref.sp * (2e-13 + 6e-15 * deg + 4e-16 * deg * deg) + 1e-300; // the recursion in degree loses up to n^2 eps near the poles
  int ex = (int)c.r.i(0, 3);
#ifdef VARIANT_SRC
  Trap V(deg + 2 + ex, std::min(ord + 2 + (c.r.p(0.5) ? 0 : ex), deg + 2 + ex)), W(V.rows(), V.cols());
  auto cmpa = [&](const V3 &a, const char *key) { for (int i = 0; i < 3; i++) c.near(a(i), (double)ref.a[i], ta, key, vf::fmt("%s deg %d ord %d %s component %d", what, deg, ord, kind, i)); };
  auto cmpp = [&](const M3 &P) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      int k = i <= j ? (i == 0 ? j : i == 1 ? 2 + j : 5) : (j == 0 ? i : j == 1 ? 2 + i : 5);
      c.near(P(i, j), (double)ref.p[k], tp, "partials", vf::fmt("%s deg %d ord %d %s d a_%d/d r_%d", what, deg, ord, kind, i, j));
    }
    c.near(P(0, 0) + P(1, 1) + P(2, 2), 0, tp, "trace-free"); c.near(P(0, 1) - P(1, 0), 0, tp, "symmetric"); c.near(P(0, 2) - P(2, 0), 0, tp, "symmetric"); c.near(P(1, 2) - P(2, 1), 0, tp, "symmetric");
  };
  V3 pos; pos << p[0], p[1], p[2];
  dirty(c, V); dirty(c, W);
  const V3 a1 = dso::grav_potential_accel(pos, deg, ord, V, W, hc);
  cmpa(a1, "acceleration");
  // repeated use of the same scratch matrices
  for (int k = 0; k < 1; k++) {
    double q[3]; const char *kk; position(c, R, q, kk);
    V3 other; other << q[0], q[1], q[2];
    (void)dso::grav_potential_accel(other, deg, ord, V, W, hc);
    const V3 a2 = dso::grav_potential_accel(pos, deg, ord, V, W, hc);
    c.check(a2 == a1, "scratch-history", "acceleration depends on earlier content of the scratch matrices");
  }
  Trap V2(deg + 3, ord + 3), W2(deg + 3, ord + 3);
  dirty(c, V2); dirty(c, W2);
  M3 P; P.setConstant(c.r.p(0.5) ? NAN : 7e7);
  V3 a3 = dso::grav_potential_accel(pos, deg, ord, V2, W2, hc, P);
  cmpa(a3, "acceleration-with-partials"); cmpp(P);
  // the staged interface, explicit constants
  dirty(c, V2); dirty(c, W2);
  c.check(dso::lagrange_polynomials(p[0], p[1], p[2], R, deg + 2, ord + 2, V2, W2) == 0, "legendre-status", "status");
  P.setConstant(NAN);
  cmpa(dso::grav_potential_accel(deg, ord, R, GM, V2, W2, hc), "acceleration-staged");
  cmpa(dso::grav_potential_accel(deg, ord, R, GM, V2, W2, hc, P), "acceleration-staged-with-partials"); cmpp(P);
  P.setConstant(NAN);
  cmpa(dso::grav_potential_accel(deg, ord, V2, W2, hc), "acceleration-staged-model-constants");
  cmpa(dso::grav_potential_accel(deg, ord, V2, W2, hc, P), "acceleration-staged-model-constants"); cmpp(P);
#else
  Trap V(deg + 2 + ex, std::min(ord + 2 + ex, deg + 2 + ex)), W(V.rows(), V.cols());
  dirty(c, V); dirty(c, W);
  c.check(dso::lagrange_polynomials(p[0], p[1], p[2], R, deg + 1, ord + 1, V, W) == 0, "legendre-status", "status");
  double a[3] = {NAN, NAN, NAN};
  c.check(dso::grav_potential_accel(deg, ord, R, GM, V, W, hc, a) == 0, "acceleration-status", "status");
  for (int i = 0; i < 3; i++) c.near(a[i], (double)ref.a[i], ta, "acceleration", vf::fmt("%s deg %d ord %d %s component %d", what, deg, ord, kind, i));
#endif
}

// one coefficient at a time: every (n,m) up to 20, C and S
VF_GROUP(single_coefficient, 484, 4000) {
  int k = (int)(c.idx % 242), n = 0;
  bool s = c.idx % 484 >= 242;
  while (k > n) { k -= n + 1; n++; }
  int m = k; // triangular enumeration up to n=20
  int deg = n + (int)(c.r.p(0.3) ? c.r.i(0, 4) : 0), ord = m + (int)(c.r.p(0.5) ? c.r.i(0, deg - m) : 0);
  double x = c.r.sgn() * c.r.logu(1e-3, 10) * nf(n, m);
  one(c, deg, ord, deg + (int)c.r.i(0, 2), [&](int a, int b, double &C, double &S) { if (a == n && b == m) { if (s && b) S = x; else C = x; } }, "single");
}
VF_GROUP(random_field, 500, 8000) {
  int deg = c.r.p(0.1) ? (int)c.r.i(0, 2) : (int)c.r.i(1, 24);
  int ord = c.r.p(0.4) ? deg : (c.r.p(0.15) ? 0 : (int)c.r.i(0, deg));
  bool central = c.r.p(0.5), earth = c.r.p(0.5);
  vf::Rng rr(c.r.next());
  one(c, deg, ord, deg + (int)c.r.i(0, 3), [&](int n, int m, double &C, double &S) {
    double s = earth ? (n > 1 ? 1e-5 / (n * n) : 1e-6) : 1; s *= nf(n, m);
    C = s * rr.n(); S = s * rr.n(); if (n == 0) C = central ? 1 : 0; }, "field");
}
VF_GROUP(high_degree, 12, 160) {
  int deg = c.idx % 4 == 0 ? 120 : (int)c.r.i(30, 120), ord = c.r.p(0.5) ? deg : (int)c.r.i(0, deg);
  vf::Rng rr(c.r.next());
  one(c, deg, ord, deg, [&](int n, int m, double &C, double &S) { double s = 1e-5 / (n * n + 1) * nf(n, m); C = s * rr.n(); S = s * rr.n(); if (!n) C = 1; }, "high");
}
// one coefficient, or a narrow band, of high degree: nothing larger to hide behind
VF_GROUP(high_single, 40, 600) {
  int n0 = (int)c.r.i(21, 120), n1 = c.r.p(0.6) ? n0 : std::min(120, n0 + (int)c.r.i(1, 3)), m0 = c.r.p(0.3) ? (int)c.r.i(0, 3) : c.r.p(0.3) ? n0 - (int)c.r.i(0, 3) : (int)c.r.i(0, n0);
  int ord = c.r.p(0.5) ? n1 : (int)c.r.i(m0, n1); vf::Rng rr(c.r.next());
  one(c, n1, ord, n1, [&](int n, int m, double &C, double &S) { if (n < n0 || (n0 == n1 && m != m0)) return; double s = nf(n, m); C = s * rr.n(); S = s * rr.n(); }, n0 == n1 ? "high-single" : "high-band");
}
// the solid harmonics themselves
VF_GROUP(legendre, 400, 6000) {
  int l = c.r.p(0.05) ? 120 : (int)c.r.i(0, 40), k = c.r.p(0.4) ? l : (int)c.r.i(0, l);
  double R = c.r.p(0.5) ? 1 : 6378136.3, p[3]; const char *kind; position(c, R, p, kind);
  int ex = (int)c.r.i(0, 2);
  Trap V(l + 1 + ex, k + 1 + (c.r.p(0.5) ? 0 : ex)), W(V.rows(), V.cols());
  dirty(c, V); dirty(c, W);
  ld q[3] = {p[0] / (ld)R, p[1] / (ld)R, p[2] / (ld)R};
  Solid S(q, l);
  c.distinct(vf::fmt("%d %d %s", l, k, kind)); c.event(kind);
  int rc = dso::lagrange_polynomials(p[0], p[1], p[2], R, l, k, V, W);
  c.check(rc == 0, "legendre-status", "status %d", rc);
  auto cmp = [&](auto &V, auto &W, const char *key) {
    for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) {
      double v = (double)S.v(n, m).v, w = (double)S.w(n, m).v;
      // scale: the size of the recursion's own terms at this order
      double sc = 0; for (int j = m; j <= n; j++) sc = std::max(sc, hypot((double)S.v(j, m).v, (double)S.w(j, m).v) );
      double tol = (sc + hypot(v, w)) * 1e-13 * (n + 2) + 1e-240;
      c.near(V(n, m), v, tol, key, vf::fmt("V(%d,%d) %s", n, m, kind)); c.near(W(n, m), w, tol, key, vf::fmt("W(%d,%d) %s", n, m, kind));
    }
  };
  cmp(V, W, "legendre");
#ifdef DEBUG
  dso::Mat2D<dso::MatrixStorageType::RowWise> VR(l + 1 + ex, k + 1 + ex), WR(l + 1 + ex, k + 1 + ex);
  for (int i = 0; i < VR.rows(); i++) for (int j = 0; j < VR.cols(); j++) VR(i, j) = WR(i, j) = NAN;
  c.check(dso::lagrange_polynomials(p[0], p[1], p[2], R, l, k, VR, WR) == 0, "legendre-status", "rowwise");
  cmp(VR, WR, "legendre-rowwise");
#endif
  if (k == l) { Trap A(l + 3, l + 3), B(l + 3, l + 3); c.check(dso::lagrange_polynomials(p[0], p[1], p[2], R, l, l + 1, A, B) != 0, "legendre-order-above-degree", "order above degree accepted"); }
}
