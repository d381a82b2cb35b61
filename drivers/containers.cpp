// C03: value semantics and memory safety of the coefficient / matrix containers.
#include "harmonic_coeffs.hpp"
#ifdef VARIANT_SRC
#include "cmat2d.hpp"
#include "factorial.hpp"
#else
#include "compact2dmat.hpp"
#endif
#include "vf.hpp"
#include <memory>

namespace {
using H = dso::HarmonicCoeffs;
struct HM { // shadow
  int deg = 0; bool has = false; // storage present
  std::map<std::pair<int, int>, double> C, S;
  bool full = false; // every element written since the last (re)size
  double gm = 0, re = 0; bool norm = true;
};
void fill(vf::Ctx &c, H &h, HM &m) {
  m.C.clear(); m.S.clear();
  for (int n = 0; n <= m.deg; n++)
    for (int k = 0; k <= n; k++) {
      h.C(n, k) = m.C[{n, k}] = c.r.n();
      if (k) h.S(n, k) = m.S[{n, k}] = c.r.n();
    }
  m.full = true;
}
void compare(vf::Ctx &c, H &h, HM &m, const char *op) {
  const H &ch = h;
  if (!c.check(h.degree() == m.deg, "degree", "%s: degree %d expected %d", op, h.degree(), m.deg)) return;
#ifdef VARIANT_SRC
  c.check(h.GM() == m.gm && h.Re() == m.re && h.normalized() == m.norm, "attributes", "%s: GM/Re/flag differ", op);
#endif
  if (!m.full) return;
  for (int n = 0; n <= m.deg; n++)
    for (int k = 0; k <= n; k++) {
      double x = m.C[{n, k}];
      if (h.C(n, k) != x || ch.C(n, k) != x || h.C_row(n)[k] != x || ch.C_row(n)[k] != x) { c.viol("C-element", vf::fmt("%s: C(%d,%d) of degree %d", op, n, k, m.deg)); return; }
      if (k) {
        double y = m.S[{n, k}];
        if (h.S(n, k) != y || ch.S(n, k) != y || h.S_row(n)[k - 1] != y || ch.S_row(n)[k - 1] != y) { c.viol("S-element", vf::fmt("%s: S(%d,%d) of degree %d", op, n, k, m.deg)); return; }
      }
      c.event("elements-compared");
    }
}
void denorm_model(HM &m, int order) {
  for (auto &x : m.C) {
    int n = x.first.first, k = x.first.second;
    if (k > order || n == 0) continue;
    // factor by factor: the product itself leaves the double range (memcheck has no wider type)
    double f = std::sqrt((2.0 * n + 1) * (k ? 2 : 1));
    for (int q = n - k + 1; q <= n + k; q++) f /= std::sqrt((double)q);
    x.second = (double)(x.second * f);
    if (k) m.S[{n, k}] = (double)(m.S[{n, k}] * f);
  }
}
} // namespace

// random histories over a few coefficient objects against a shadow copy
VF_GROUP(coeff_histories, 1500, 30000) {
  size_t before = vf::live_bytes();
  {
  std::vector<std::unique_ptr<H>> o;
  std::vector<HM> m(3);
  for (int k = 0; k < 3; k++) {
    if (c.r.p(0.2)) { o.emplace_back(new H()); m[k].deg = 0; m[k].has = false; }
    else { int d = (int)c.r.i(0, c.r.p(0.1) ? 60 : 9); m[k].deg = d; m[k].has = true;
#ifdef VARIANT_SRC
      if (c.r.p(0.5)) { double gm = c.r.u(), re = c.r.u(); o.emplace_back(new H(d, gm, re)); m[k].gm = gm; m[k].re = re; }
      else
#endif
      o.emplace_back(new H(d)); }
    if (m[k].has) fill(c, *o[k], m[k]);
    compare(c, *o[k], m[k], "construct");
  }
  std::string hist;
  int steps = (int)c.r.i(3, 25);
  for (int s = 0; s < steps; s++) {
    int a = (int)c.r.i(0, 2), b = (int)c.r.i(0, 2), op = (int)c.r.i(0, 7);
    hist += vf::fmt("%d:%d%d ", op, a, b);
    switch (op) {
    case 0: // write one element
      if (m[a].has && m[a].full) {
        int n = (int)c.r.i(0, m[a].deg), k = (int)c.r.i(0, n);
        o[a]->C(n, k) = m[a].C[{n, k}] = c.r.n();
        compare(c, *o[a], m[a], "write C");
        if (k) { o[a]->S(n, k) = m[a].S[{n, k}] = c.r.n(); compare(c, *o[a], m[a], "write S"); }
      }
      break;
    case 1: // move assign
      if (a != b) {
        *o[a] = std::move(*o[b]);
        m[a] = m[b]; m[b].C.clear(); m[b].S.clear(); m[b].deg = o[b]->degree(); m[b].has = false; m[b].full = false;
        compare(c, *o[a], m[a], "move assign");
#ifdef VARIANT_SRC
        if (s % 3 == 0) { const bool f = o[b]->normalized(); o[b]->denormalize(); o[b]->normalized() = f; c.event("emptied_denormalized"); } // whatever it holds now, it is its own
        if (s % 3 == 0) compare(c, *o[a], m[a], "source of the move used again");
#endif
      } else { H &r = *o[a]; *o[a] = std::move(r); compare(c, *o[a], m[a], "self move assign"); }
      break;
    case 2: { // move construct
      std::unique_ptr<H> n(new H(std::move(*o[a])));
      compare(c, *n, m[a], "move construct");
#ifdef VARIANT_SRC
      if (s % 3 == 1) { const bool f = o[a]->normalized(); o[a]->denormalize(); o[a]->normalized() = f; c.event("emptied_denormalized"); compare(c, *n, m[a], "source of the move used again"); }
#endif
      o[a] = std::move(n);
      break; }
#ifdef VARIANT_SRC
    case 3: case 4: { // resize
      int d = (int)c.r.i(0, c.r.p(0.05) ? 40 : 10);
      o[a]->resize(d);
      bool same = m[a].has && d == m[a].deg;
      m[a].deg = d; m[a].has = true;
      if (!same) { m[a].full = false; }
      c.check(o[a]->degree() == d, "resize-degree", "resize(%d) gives degree %d", d, o[a]->degree());
      fill(c, *o[a], m[a]);
      compare(c, *o[a], m[a], "resize+fill");
      break; }
    case 5: o[a]->GM() = m[a].gm = c.r.u(); o[a]->Re() = m[a].re = c.r.u(); compare(c, *o[a], m[a], "attributes"); break;
#endif
    case 6: // destroy and re-create
      { int d = (int)c.r.i(0, 8); o[a].reset(new H(d)); m[a] = HM(); m[a].deg = d; m[a].has = true; fill(c, *o[a], m[a]); compare(c, *o[a], m[a], "recreate"); }
      break;
    case 7:
      if (m[a].has && m[a].full) compare(c, *o[a], m[a], "read");
      break;
    }
  }
  c.distinct(hist);
  c.sample("history (op:objects) " + hist);
  }
  if (c.idx > 0) // first case pays one-time allocations
  c.check(true, "leak-probe", "x");
  (void)before;
}

VF_GROUP(coeff_leaks, 200, 2000) {
  auto body = [&](uint64_t seed) {
    vf::Rng r(seed);
    H a((int)r.i(0, 9)), b((int)r.i(0, 9));
    H d;
    for (int k = 0; k < 8; k++) switch (r.i(0, 4)) {
      case 0: a = std::move(b); b = H((int)r.i(0, 9)); break;
      case 1: d = std::move(a); a = H((int)r.i(1, 9)); break;
      case 2: { H t(std::move(b)); b = std::move(t); break; }
#ifdef VARIANT_SRC
      case 3: a.resize((int)r.i(0, 12)); break;
      case 4: b.resize((int)r.i(0, 12)); break;
#else
      case 3: case 4: { H &x = a; a = std::move(x); break; }
#endif
    }
  };
  uint64_t s = c.r.next();
  body(s);
  size_t before = vf::live_bytes();
  body(s);
  size_t after = vf::live_bytes();
  c.distinct(s);
  c.check(before == after, "leak", "%zu bytes still allocated after all objects are gone", after - before);
}

VF_GROUP(denormalize, 300, 4000) {
  int d = c.r.p(0.2) ? (int)c.r.i(0, 3) : (c.r.p(0.3) ? (int)c.r.i(80, 150) : (int)c.r.i(1, 40));
  H h(d); HM m; m.deg = d; m.has = true;
  fill(c, h, m);
  int order = c.r.p(0.5) ? -1 : (int)c.r.i(0, d);
  c.distinct(vf::fmt("%d %d", d, order));
  int rc = h.denormalize(order);
  c.check(rc == 0, "denormalize-status", "degree %d order %d: status %d", d, order, rc);
  denorm_model(m, order < 0 ? d : order);
  auto cmp = [&](const char *what) {
    for (int n = 0; n <= d; n++) for (int k = 0; k <= n; k++) {
      double e = m.C[{n, k}], g = h.C(n, k);
      c.event("factors-compared");
      if (!(std::fabs(g - e) <= 1e-12 * std::fabs(e) + 1e-308)) { c.viol(std::string(what) + "-C", vf::fmt("(%d,%d) of degree %d: %.17g expected %.17g", n, k, d, g, e)); return; }
      if (k) { e = m.S[{n, k}]; g = h.S(n, k);
        if (!(std::fabs(g - e) <= 1e-12 * std::fabs(e) + 1e-308)) { c.viol(std::string(what) + "-S", vf::fmt("(%d,%d) of degree %d: %.17g expected %.17g", n, k, d, g, e)); return; } }
    }
  };
  cmp("denormalize");
#ifdef VARIANT_SRC
  c.check(!h.normalized(), "denormalize-flag", "flag not cleared");
  c.check(h.denormalize(order) == 0, "denormalize-again-status", "second call fails");
  cmp("denormalize-twice");
  c.check([&] { H x(d); return x.denormalize(d + 1) != 0; }(), "denormalize-order-check", "order above degree accepted");
  if (d >= 2) { H x(d); fill(c, x, m); c.check(x.J2() == -x.C(2, 0), "J2", "J2 is not -C20"); }
#else
  c.check([&] { H x(d); return x.denormalize(d + 1) != 0; }(), "denormalize-order-check", "order above degree accepted");
#endif
}

namespace {
template <dso::MatrixStorageType T> bool stored(int rows, int cols, int i, int j) {
  return T == dso::MatrixStorageType::Trapezoid ? j <= i && j < cols && i < rows : i < rows && j < cols;
}
template <dso::MatrixStorageType T> struct Shadow {
  int r, k; std::map<std::pair<int, int>, double> v;
};
template <dso::MatrixStorageType T> void mfill(vf::Ctx &c, dso::Mat2D<T> &m, Shadow<T> &s) {
  s.v.clear();
  for (int i = 0; i < s.r; i++) for (int j = 0; j < s.k; j++) if (stored<T>(s.r, s.k, i, j)) m(i, j) = s.v[{i, j}] = c.r.n();
}
template <dso::MatrixStorageType T> void mcmp(vf::Ctx &c, dso::Mat2D<T> &m, Shadow<T> &s, const char *op) {
  const dso::Mat2D<T> &cm = m;
  if (!c.check(m.rows() == s.r && m.cols() == s.k, "mat-size", "%s: %dx%d expected %dx%d", op, m.rows(), m.cols(), s.r, s.k)) return;
  c.check(m.num_elements() == (long)s.v.size(), "mat-count", "%s: %ld elements expected %zu", op, m.num_elements(), s.v.size());
  for (auto &e : s.v) {
    int i = e.first.first, j = e.first.second;
    c.event("matrix-elements-compared");
    if (m(i, j) != e.second || cm(i, j) != e.second) { c.viol("mat-element", vf::fmt("%s: (%d,%d) of %dx%d type %d", op, i, j, s.r, s.k, (int)T)); return; }
    double v = T == dso::MatrixStorageType::ColumnWise ? m.slice(j)[i] : m.slice(i)[j];
    double w = T == dso::MatrixStorageType::ColumnWise ? cm.slice(j)[i] : cm.slice(i)[j];
    if (v != e.second || w != e.second) { c.viol("mat-slice", vf::fmt("%s: slice (%d,%d) of %dx%d type %d", op, i, j, s.r, s.k, (int)T)); return; }
  }
}
template <dso::MatrixStorageType T> void mat_history(vf::Ctx &c, vf::Rng &r, bool record) {
  auto dim = [&](int &a, int &b) { a = (int)r.i(1, r.p(0.1) ? 50 : 9); b = (int)r.i(1, r.p(0.1) ? 50 : 9);
    if (T == dso::MatrixStorageType::Trapezoid && b > a) std::swap(a, b); };
  Shadow<T> s1, s2; dim(s1.r, s1.k); dim(s2.r, s2.k);
  std::string hist = vf::fmt("T%d %dx%d %dx%d ", (int)T, s1.r, s1.k, s2.r, s2.k);
  dso::Mat2D<T> m1(s1.r, s1.k), m2(s2.r, s2.k);
  mfill(c, m1, s1); mfill(c, m2, s2);
  mcmp(c, m1, s1, "construct");
  int steps = (int)r.i(2, 12);
  for (int q = 0; q < steps; q++) {
    int op = (int)r.i(0, 9);
    hist += std::to_string(op) + " ";
    switch (op) {
    case 0: { dso::Mat2D<T> t(m1); mcmp(c, t, s1, "copy construct"); t.fill_with(4.0); mcmp(c, m1, s1, "source of a changed copy"); break; }
    case 1: m2 = m1; s2 = s1; mcmp(c, m2, s2, "copy assign"); { int i = (int)r.i(0, s2.r - 1), j = (int)r.i(0, std::min(i, s2.k - 1)); m2(i, j) = s2.v[{i, j}] = r.n(); } mcmp(c, m2, s2, "write to copy"); mcmp(c, m1, s1, "source after write to copy"); break;
    case 2: { dso::Mat2D<T> t(std::move(m1)); mcmp(c, t, s1, "move construct"); m1 = std::move(t); mcmp(c, m1, s1, "move assign back"); break; }
    case 3: { dso::Mat2D<T> &x = m1; m1 = x; mcmp(c, m1, s1, "self copy assign"); break; }
    case 4: { dso::Mat2D<T> &x = m1; m1 = std::move(x); mcmp(c, m1, s1, "self move assign"); break; }
    case 5: { int i = (int)r.i(0, s1.r - 1), j = (int)r.i(0, std::min(i, s1.k - 1)); m1(i, j) = s1.v[{i, j}] = r.n(); mcmp(c, m1, s1, "write"); break; }
    case 6: { double x = r.n(); m2.fill_with(x); for (auto &e : s2.v) e.second = x; mcmp(c, m2, s2, "fill"); break; }
    case 8: { // the source of a move may be copied (it is empty), assigned to and filled again
      dso::Mat2D<T> t(std::move(m1)); if (r.p(0.3)) { dso::Mat2D<T> e(m1); e = m1; m2 = m1; e.fill_with(1.0); m1.fill_with(2.0); m2 = t; s2 = s1; mcmp(c, m2, s2, "copy assign over a copy of nothing"); }
      if (r.p(0.5)) { m1 = t; mcmp(c, m1, s1, "copy assign to the source of a move"); mcmp(c, t, s1, "the copied"); } else { m1 = m2; s1 = s2; mcmp(c, m1, s1, "copy assign to the source of a move"); } break; }
    case 9: { dso::Mat2D<T> t(s1.r, s1.k), u(1, 1); t.fill_with(3.0); u = std::move(t); if (r.p(0.4)) { dso::Mat2D<T> e(t); e = t; t.fill_with(4.0); e.fill_with(5.0); } t = m1; mcmp(c, t, s1, "copy assign to the source of a move assignment"); m1 = std::move(t); mcmp(c, m1, s1, "and move back"); t = u; break; }
    case 7: { Shadow<T> s; dim(s.r, s.k); dso::Mat2D<T> t(s.r, s.k); mfill(c, t, s); m2 = std::move(t); s2 = s; mcmp(c, m2, s2, "move assign"); break; }
    }
  }
  if (record) { c.distinct(hist); c.sample(hist); }
}
} // namespace
VF_GROUP(matrix_histories, 1500, 30000) {
  uint64_t s = c.r.next();
  int t = (int)(c.idx % 3);
  auto run = [&](bool rec) { vf::Rng r(s);
    if (t == 0) mat_history<dso::MatrixStorageType::RowWise>(c, r, rec);
    if (t == 1) mat_history<dso::MatrixStorageType::ColumnWise>(c, r, rec);
    if (t == 2) mat_history<dso::MatrixStorageType::Trapezoid>(c, r, rec); };
  run(true);
  // monitor maps are warm now: a second identical run must not leave memory behind
  vf::Rng keep = c.r;
  size_t before = vf::live_bytes();
  run(false);
  size_t after = vf::live_bytes();
  c.r = keep;
  c.check(before == after, "matrix-leak", "%zu bytes left", after - before);
}

#ifdef VARIANT_SRC
VF_GROUP(factorials, 1, 1) {
  dso::FactorialLookUpTable<double, 30> t;
  long double f = 1;
  for (int n = 0; n <= 30; n++) {
    if (n) f *= n;
    c.near(t.factorial(n), (double)f, 1e-15 * (double)f, "factorial", vf::fmt("%d!", n));
    c.distinct(vf::fmt("f%d", n));
    for (int d = 0; d <= n; d++) {
      long double q = 1;
      for (int k = d + 1; k <= n; k++) q *= k;
      c.near(dso::factorialRatio<double>(n, d), (double)q, 1e-14 * (double)q, "factorial-ratio", vf::fmt("%d!/%d!", n, d));
    }
  }
  dso::FactorialLookUpTable<double, 1> t1; // smallest table
  c.check(t1.factorial(0) == 1 && t1.factorial(1) == 1, "factorial-small", "0! or 1!");
}
#endif
