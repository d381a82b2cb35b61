// C12: polynomial models against a shadow (coefficients, reference) and long double evaluation.
#include "filters/models.hpp"
#include "vf.hpp"
#include <memory>

namespace {
using NS = dso::nanoseconds;
using T = dso::datetime<NS>;
using ld = long double;
template <class X> X rx(vf::Rng &r);
template <> double rx<double>(vf::Rng &r) { return r.p(0.1) ? 0 : r.n() * r.logu(1e-2, 10); }
template <> int rx<int>(vf::Rng &r) { return (int)r.i(-20, 20); }
template <> T rx<T>(vf::Rng &r) { return T(dso::modified_julian_day(59000 + r.i(0, 1)), NS(r.i(0, 86399999999999L))); }
ld dx(double a, double b) { return (ld)a - b; }
ld dx(int a, int b) { return (ld)a - b; }
ld dx(const T &a, const T &b) { return (ld)a.delta_sec(b).as_underlying_type() / 1000000000.0L; }

template <class X> struct Shadow { int n = -1; std::vector<double> a; X ref{}; bool alive = true; };
template <class X> void value(vf::Ctx &c, const dso::PolynomialModel<X> &p, const Shadow<X> &s, const std::string &h) {
  bool ok = p.order() == s.n && p.xref == s.ref;
  for (int k = 0; ok && k <= s.n; k++) ok = p.cf[k] == s.a[k];
  if (!c.check(ok, "holds_its_coefficients", "%s: order %d expected %d", h.c_str(), p.order(), s.n)) return;
  for (int q = 0; q < 2; q++) {
    X x = rx<X>(c.r); ld d = (ld)(double)dx(x, s.ref), y = 0, mag = 0;
    ld pw = 1; for (int k = 0; k <= s.n; k++) { y += s.a[k] * pw; mag += std::fabs(s.a[k] * pw); pw *= d; }
    if (!(mag < 1e300L)) continue;
    c.near(p.value_at(x), (double)y, (double)mag * (s.n + 2) * 4e-16, "evaluates_its_polynomial", h);
    c.near(p.deltax(x, s.ref), (double)dx(x, s.ref), 1e-15 * std::fabs((double)dx(x, s.ref)), "argument_difference");
  }
}
template <class X> void histories(vf::Ctx &c) {
  using M = dso::PolynomialModel<X>;
  size_t before = vf::live_bytes();
  std::string h = vf::fmt("%d:", (int)sizeof(X)); h.reserve(4096);
  {
    std::unique_ptr<M> m[3]; Shadow<X> s[3];
    auto fill = [&](int i) { for (int k = 0; k <= s[i].n; k++) m[i]->cf[k] = s[i].a[k] = c.r.p(0.1) ? 0 : c.r.n(); m[i]->xref = s[i].ref = rx<X>(c.r); s[i].alive = true; };
    auto fresh = [&](int i) { int o = (int)c.r.i(0, c.r.p(0.1) ? 30 : 6); m[i].reset(new M(o)); s[i] = Shadow<X>(); s[i].n = o; s[i].a.assign(o + 1, 0);
      c.check(vf::defined_mem(m[i]->cf, sizeof(double) * (o + 1)) && m[i]->value_at(X{}) == 0, "new_model_is_zero", "%s order %d", h.c_str(), o);
      if (c.r.p(0.8)) fill(i); };
    for (int i = 0; i < 3; i++) fresh(i);
    int steps = (int)c.r.i(3, 25);
    for (int k = 0; k < steps; k++) {
      int a = (int)c.r.i(0, 2), b = (int)c.r.i(0, 2), op = (int)c.r.i(0, 7);
      if (h.size() < 3000) h += vf::fmt(" %d:%d%d", op, a, b);
      switch (op) {
      case 0: fresh(a); break;
      case 1: if (s[b].alive) { *m[a] = *m[b]; s[a] = s[b]; } break;
      case 2: if (s[b].alive) { std::unique_ptr<M> n(new M(*m[b])); m[a] = std::move(n); s[a] = s[b]; } break;
      case 3: if (s[b].alive && a != b) { *m[a] = std::move(*m[b]); s[a] = s[b]; s[b].alive = false; } else if (a == b && s[a].alive) { M &r = *m[a]; *m[a] = std::move(r); } break;
      case 4: if (s[b].alive && a != b) { std::unique_ptr<M> n(new M(std::move(*m[b]))); m[a] = std::move(n); s[a] = s[b]; s[b].alive = false; } break;
      case 5: { int o = (int)c.r.i(0, 8); m[a]->resize(o); c.check(m[a]->order() == o, "resized", "%s to %d", h.c_str(), o);
        c.check(vf::defined_mem(m[a]->cf, sizeof(double) * (o + 1)), "resized_defined", "%s to %d", h.c_str(), o); if (o != s[a].n || !s[a].alive) { s[a].n = o; s[a].a.assign(o + 1, 0); fill(a); } break; }
      case 6: if (s[a].alive) { int i = (int)c.r.i(0, s[a].n); m[a]->cf[i] = s[a].a[i] = c.r.n(); } break;
      case 7: if (s[a].alive) m[a]->xref = s[a].ref = rx<X>(c.r); break;
      }
      for (int i = 0; i < 3; i++) if (s[i].alive) value(c, *m[i], s[i], h);
    }
    c.distinct(h);
    if (c.idx < 4) c.sample(h);
  }
  (void)before;
  // h and the driver's own tables may have grown; measure a second, silent round instead
}
template <class X> void balance(vf::Ctx &c) {
  using M = dso::PolynomialModel<X>;
  std::vector<int> o; for (int k = 0; k < 8; k++) o.push_back((int)c.r.i(0, 5));
  int ops[12], as[12], bs[12]; for (int k = 0; k < 12; k++) { ops[k] = (int)c.r.i(0, 4); as[k] = (int)c.r.i(0, 2); bs[k] = (int)c.r.i(0, 2); }
  size_t before = vf::live_bytes();
  {
    M m[3] = {M(o[0]), M(o[1]), M(o[2])};
    for (int k = 0; k < 12; k++) {
      M &a = m[as[k]], &b = m[bs[k]];
      switch (ops[k]) {
      case 0: a = b; break;
      case 1: { M t(b); a = t; break; }
      case 2: { M t(std::move(b)); a = std::move(t); break; }
      case 3: a.resize(o[3 + k % 5]); break;
      case 4: { M t(o[k % 8]); t = std::move(a); a = t; break; }
      }
    }
  }
  size_t after = vf::live_bytes();
  c.check(before == after, "no_leak", "%zu bytes before, %zu after", before, after);
}
} // namespace
VF_GROUP(model_histories, 1500, 40000) {
  switch (c.idx % 3) { case 0: histories<double>(c); break; case 1: histories<T>(c); break; case 2: histories<int>(c); break; }
}
VF_GROUP(model_memory, 600, 12000) {
  if (c.idx % 2) balance<double>(c); else balance<T>(c);
}
VF_GROUP(linear_model, 400, 8000) {
  dso::LinearModel<double> l; c.check(l.order() == 1 && l.a == 0 && l.b == 0 && l.xref == 0 && l.value_at(3.0) == 0, "new_linear_model", "not zero");
  l.a = c.r.n(); l.b = c.r.n(); l.xref = rx<double>(c.r);
  dso::LinearModel<double> k = l; double x = rx<double>(c.r);
  c.near(k.value_at(x), (double)((ld)l.a + (ld)l.b * ((ld)x - l.xref)), 5e-16 * (std::fabs(l.a) + std::fabs(l.b) * (std::fabs(x) + std::fabs(l.xref))), "linear_model_value");
  c.distinct(vf::fmt("%a", l.a));
}
