// C09 (multistep) and, in the prototype variant, C10 (Runge-Kutta-Fehlberg).
#include "ode_ref.hpp"
#include "sgode.hpp"
#ifndef VARIANT_SRC
#include "rkf45.hpp"
#endif
#include <type_traits>
#define YPTOL 3e-2
struct Log { const Problem *p; long n = 0; double far = -INFINITY; };
static void eval(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, Log &l) {
  l.n++; l.far = std::max(l.far, x * l.p->dir);
  if (x * l.p->dir > l.p->forbid) { for (int i = 0; i < l.p->n; i++) yp(i) = 1e6 * std::sin(1e3 * x + i); return; }
  double a[80], d[80]; for (int i = 0; i < l.p->n; i++) a[i] = y(i);
  l.p->f<double>(x, a, d); for (int i = 0; i < l.p->n; i++) yp(i) = d[i];
}
#ifdef VARIANT_SRC
static void fun(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, dso::IntegrationParameters &q) noexcept { eval(x, y, yp, *(Log *)q.p); }
typedef dso::IntegrationParameters Par;
#else
static void fun(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *q) { eval(x, y, yp, *(Log *)((void **)q)[0]); }
struct Par { void *p = nullptr; };
#endif
// an integrator living in storage filled with a chosen byte
struct SG {
  Log log; Par par; unsigned char *mem; dso::SGOde *s;
  SG(const Problem &p, double re, double ae, int fill) { log.p = &p; par.p = &log; mem = (unsigned char *)::operator new(sizeof(dso::SGOde)); memset(mem, fill, sizeof(dso::SGOde)); s = new (mem) dso::SGOde(fun, p.n, re, ae, &par); }
  ~SG() { s->~SGOde(); ::operator delete(mem); }
};
static Eigen::VectorXd ev(const std::vector<double> &v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), (long)v.size()); }
static std::vector<ld> lv(const std::vector<double> &v) { return std::vector<ld>(v.begin(), v.end()); }
struct Err { double e = 0, scale = 0; }; // largest error in units of the tolerance weight
static double err(const double *y, const std::vector<ld> &r, double re, double ae) {
  double m = 0; for (size_t i = 0; i < r.size(); i++) { double w = re * std::fabs((double)r[i]) + ae; double e = std::fabs((double)(y[i] - r[i])) / w; if (!(e <= m)) m = e == e ? e : INFINITY; } return m;
}
// error the solution may inherit from rounding, in the same units
static double noise(const std::vector<ld> &r, double re, double ae, double growth, long steps) { double m = 0; for (ld x : r) m = std::max(m, (double)fabsl(x)); double w = INFINITY; for (ld x : r) w = std::min(w, re * (double)fabsl(x) + ae); return m * 2e-16 * growth * (10 + steps) / w; }

struct Run { Problem p; double re, ae; std::vector<double> outs; };
static Run gen(vf::Rng &r, long idx, bool back) {
  Run q; q.p = make_problem(r, (int)(idx % 10)); q.p.dir = back ? -1 : 1;
  if (back && (q.p.kind == 9 || q.p.kind == 6)) q.p.c[79] = -q.p.c[79];
  if (back && q.p.kind == 0) for (double &x : q.p.c) x = -x;
  double tol = r.logu(1e-11, 1e-3); q.re = tol * r.logu(0.1, 1); q.ae = r.p(0.2) && q.p.kind != 3 && q.p.kind != 2 && q.p.kind != 5 && q.p.kind != 9 && q.p.kind != 1 && q.p.kind != 6 ? 0 : tol;
  int m = (int)r.i(1, 12); double t = q.p.t0;
  for (int k = 0; k < m; k++) { t += q.p.dir * q.p.span * (r.p(0.2) ? r.logu(1e-9, 1e-2) : r.u(0.02, 2)) / m; q.outs.push_back(t); }
  q.p.tag += vf::fmt(" dir=%d relerr=%.3g abserr=%.3g outputs=%d", q.p.dir, q.re, q.ae, m);
  return q;
}
static bool wellposed(const Problem &p, const std::vector<ld> &r) { for (ld x : r) if (!(fabsl(x) < 1e6L)) return false; (void)p; return true; }

// outputs close together late in an integration: intervals down to some dozens of roundoff units of t
static Run gen_late(vf::Rng &r, long idx) {
  static const int kinds[] = {0, 1, 2, 3, 4, 7}; Run q; q.p = make_problem(r, kinds[idx % 6]); q.p.dir = r.p(0.4) ? -1 : 1; q.p.t0 = r.sgn() * r.logu(1e2, 1e8);
  q.re = r.logu(2e-11, 1e-7); q.ae = q.re * r.u(0.1, 1); int m = (int)r.i(1, 5); double t = q.p.t0;
  for (int k = 0; k < m; k++) { double T = t + q.p.dir * r.logu(2e-14 * std::fabs(t), r.p(0.5) ? 1e-6 * std::fabs(t) < 1 ? 1e-6 * std::fabs(t) : 1.0 : 1.0); if (r.p(0.2)) { T = t; for (long u = r.i(1, r.p(0.5) ? 4 : 40); u > 0; u--) T = std::nextafter(T, q.p.dir * INFINITY); } if (T == t) continue; t = T; q.outs.push_back(t); }
  if (q.outs.empty()) q.outs.push_back(t + q.p.dir);
  q.p.tag += vf::fmt(" dir=%d relerr=%.3g abserr=%.3g outputs=%zu late", q.p.dir, q.re, q.ae, q.outs.size());
  return q;
}
// what rounding of the times leaves in the solution, in units of the tolerance
static double late_noise(const Problem &p, const std::vector<ld> &r, double re, double ae, long steps) { ld m = 0, w = INFINITY; for (ld x : r) m = std::max(m, fabsl(x)), w = std::min(w, re * fabsl(x) + ae); return (double)(m / w) * 1e-15 * std::fabs(p.t0) * (10 + steps) * 3; }

VF_GROUP(sg_integrate, 500, 8000) {
  bool back = c.r.p(0.4); Run q = gen(c.r, c.idx, back); const Problem &p = q.p;
  // modes: 0 free steps, 1 hard stop at every output, 2 mixed
  int mode = (int)(c.idx / 10 % 3);
  SG a(p, q.re, q.ae, 0x00); RefDE ref(p, q.re, q.ae); GBS g(p);
  double ta = p.t0, tr = p.t0; Eigen::VectorXd ya = ev(p.y0), yo(p.n); yo.setConstant(NAN); std::vector<double> yr = p.y0; std::vector<ld> yl = lv(p.y0); double tl = p.t0;
  double worst = 0, worst_ref = 0, growth = 1; long steps = 0; std::string seqtag;
  for (double T : q.outs) {
    bool hard = mode == 1 || (mode == 2 && c.r.p(0.5));
    if (hard) { a.s->iflag = -std::abs(a.s->iflag); ref.iflag = -std::abs(ref.iflag); }
    Problem pf = p; if (hard) { pf.forbid = T * p.dir + 4e-16 * std::max(std::fabs(T), std::fabs(p.t0)); a.log.p = &pf; ref.P = &pf; } // garbage beyond the stop
    long before = a.log.n; a.log.far = -INFINITY;
    int guard = 0, st;
    do { st = a.s->de(ta, T, ya, yo); ya = yo; guard++; } while (st != 0 && (a.s->flag() == 3 || a.s->flag() == -3 || std::abs(a.s->flag()) == 4 || std::abs(a.s->flag()) == 5) && guard < 60);
    int rg = 0, rf; do { rf = ref.de(tr, T, yr); rg++; } while (rf != 2 && rf != 6 && rg < 60);
    yl = g.to(tl, yl, T); tl = T;
    if (!wellposed(p, yl)) return;
    a.log.p = &p; ref.P = &p;
    std::string tag = p.tag + vf::fmt(" mode=%d hard=%d t=%.17g->%.17g", mode, hard, p.t0, T);
    if (!c.check(st == 0 && a.s->flag() == 2 && ta == T, "reaches_output", "%s: status %d flag %d t=%.17g", tag.c_str(), st, a.s->flag(), ta)) return;
    double R = std::max(a.s->relerr, q.re), A = std::max(a.s->abserr, q.ae);
    steps = a.log.n; double ea = err(yo.data(), yl, R, A), er = err(yr.data(), yl, R, A), nz = noise(yl, R, A, 4, steps);
    worst_ref = std::max(worst_ref, er); worst = std::max(worst, ea);
    // same order of global error as the published algorithm at these tolerances
    c.near(ea, 0, 10 * worst_ref + 5 + nz, "error_within_tolerance", tag + vf::fmt(" published %.3g", worst_ref));
    if (!hard && q.re + q.ae < 1e-5) { double d[80], w = 0, e = 0; p.f<double>(T, yo.data(), d); for (int i = 0; i < p.n; i++) w = std::max(w, std::fabs(d[i])), e = std::max(e, std::fabs(d[i] - a.s->ypout(i))); c.near(e, 0, YPTOL * (w + 1e-3), "derivative_at_output", tag); }
    if (hard) c.check(a.log.far <= T * p.dir + 4.5e-16 * std::max(std::fabs(T), std::fabs(p.t0)), "no_evaluation_past_hard_stop", "%s: evaluated at %.17g", tag.c_str(), a.log.far * p.dir), c.event("hard_stop");
    c.event("outputs"); (void)before; (void)growth;
  }
  c.check(a.log.n <= 1.4 * ref.nfe + 40, "work", "%s mode=%d: %ld derivative evaluations, published algorithm %ld", p.tag.c_str(), mode, a.log.n, ref.nfe);
  c.event("evaluations", a.log.n);
  c.distinct(vf::fmt("%d %d %d %d %.1g %zu", p.kind, p.n, p.dir, mode, q.re, q.outs.size()));
  if (c.idx < 2) c.sample(p.tag);
}
// one call or many, other storage contents, another problem before: same answer
VF_GROUP(sg_history, 200, 4000) {
  Run q = gen(c.r, c.idx, c.r.p(0.4)); const Problem &p = q.p; GBS g(p);
  std::vector<ld> yl = g.to(p.t0, lv(p.y0), q.outs.back()); if (!wellposed(p, yl)) return;
  Eigen::VectorXd y0 = ev(p.y0), r1(p.n), r2(p.n), r3(p.n); double t;
  auto all = [&](SG &s, Eigen::VectorXd &o) { t = p.t0; Eigen::VectorXd y = y0; s.s->iflag = 1; for (double T : q.outs) { int n = 0; while (s.s->de(t, T, y, o) && n++ < 50) y = o; y = o; } };
  { SG s(p, q.re, q.ae, 0x00); r1.setConstant(1); all(s, r1); }
  { SG s(p, q.re, q.ae, 0xff); r2.setConstant(-3); all(s, r2); }
  c.check(r1 == r2, "independent_of_storage", "%s: results differ with other storage contents", p.tag.c_str());
  { SG s(p, q.re, q.ae, 0x41); // first something else, in the other direction, then the problem anew
    Problem o = p; o.kind = 1; for (double &x : o.c) x = 3; o.dir = -p.dir; s.log.p = &o; double tt = p.t0 + 1; Eigen::VectorXd z = y0 * 0.5, zo(p.n); s.s->iflag = c.r.p(0.5) ? 1 : -1; s.s->de(tt, tt - p.dir * 3.3, z, zo);
    s.log.p = &p; s.s->relerr = q.re; s.s->abserr = q.ae; all(s, r3);
    c.check(r1 == r3, "independent_of_earlier_problem", "%s: results differ after another problem", p.tag.c_str()); }
  SG s(p, q.re, q.ae, 0x00); Eigen::VectorXd one(p.n); t = p.t0; Eigen::VectorXd y = y0; int n = 0; while (s.s->de(t, q.outs.back(), y, one) && n++ < 50) y = one;
  double e1 = err(r1.data(), yl, q.re, q.ae), e2 = err(one.data(), yl, q.re, q.ae), nz = noise(yl, q.re, q.ae, 4, s.log.n);
  c.check(e1 <= 10 * e2 + 30 + 2 * nz && e2 <= 10 * e1 + 30 + 2 * nz, "one_call_or_many", "%s: errors %.3g and %.3g tolerances", p.tag.c_str(), e1, e2);
  // there and back again with one object
  double tb = t; Eigen::VectorXd yb = one, ob(p.n); n = 0; Problem pb = p; pb.dir = -p.dir;
  bool diss = p.kind == 9 || p.kind == 6 || p.kind == 0 || p.kind == 7;
  while (s.s->de(tb, p.t0, yb, ob) && n++ < 50) yb = ob;
  if (!diss) c.check(s.s->flag() == 2 && tb == p.t0, "returns_to_start", "%s: flag %d t=%.17g", p.tag.c_str(), s.s->flag(), tb);
  if (!diss) { std::vector<ld> y0l = lv(p.y0); double eb = err(ob.data(), y0l, q.re, q.ae ? q.ae : q.re); double gr = 1; for (size_t i = 0; i < yl.size(); i++) gr = std::max(gr, (double)fabsl(y0l[i] / (fabsl(yl[i]) + 1e-3L))); c.check(eb <= (300 + 20 * (e1 + e2)) * gr * gr * (p.kind == 2 ? 30 : 1) + 4 * nz * gr * gr, "reversible", "%s: error on return %.3g tolerances", p.tag.c_str(), eb); }
  c.distinct(vf::fmt("%d %d %.1g %zu", p.kind, p.n, q.re, q.outs.size()));
}
VF_GROUP(sg_status, 360, 4000) {
  Run q = gen(c.r, c.idx, false); Problem p = q.p; int what = (int)(c.idx % 10);
  Eigen::VectorXd y = ev(p.y0), o(p.n); o.setConstant(-77); double t = p.t0; std::string tag = p.tag + vf::fmt(" case %d", what);
  auto invalid = [&](SG &s, double T) { long n0 = s.log.n; double tt = t; int st = s.s->de(t, T, y, o); c.check(st != 0 && std::abs(s.s->flag()) == 6 && s.log.n == n0 && t == tt, "invalid_input_reported", "%s: status %d flag %d evaluations %ld", tag.c_str(), st, s.s->flag(), s.log.n - n0); c.check((o.array() == -77).all(), "invalid_leaves_output", "%s", tag.c_str()); };
  if (what == 0) { SG s(p, q.re, q.ae, 0xa5); invalid(s, t); }
  if (what == 1) { bool w = c.r.p(0.5); SG s(p, w ? -q.re : q.re, w ? q.ae : -1e-9, 0xa5); invalid(s, t + 1); }
  if (what == 2) { SG s(p, 0, 0, 0xa5); invalid(s, t + 1); }
  if (what == 3) { SG s(p, q.re, q.ae, 0xa5); s.s->iflag = c.r.p(0.5) ? 0 : (int)c.r.i(6, 9) * (c.r.p(0.5) ? 1 : -1); invalid(s, t + 1); }
  if (what == 4) { SG s(p, q.re, q.ae, 0xa5); Eigen::VectorXd z(p.n); int n = 0; while (s.s->de(t, p.t0 + 0.3, y, z) && n++ < 50) y = z; t += 0.01; invalid(s, t + 1); } // time moved by the caller
  if (what == 5) { // more accuracy than the arithmetic has: told, tolerances raised, then it works
    if (p.kind == 8 || p.kind == 9) return;
    SG s(p, c.r.p(0.5) ? 1e-17 : 0, 1e-19, 0xa5); double T = p.t0 + 0.7; int st = s.s->de(t, T, y, o); int n = 0;
    c.check(st != 0 && std::abs(s.s->flag()) == 3 && s.s->relerr >= 0 && s.s->abserr >= 1e-19 && s.s->relerr + s.s->abserr > 2e-18, "impossible_accuracy_reported", "%s: status %d flag %d tolerances %g %g", tag.c_str(), st, s.s->flag(), s.s->relerr, s.s->abserr);
    while (st && std::abs(s.s->flag()) <= 5 && n++ < 200) { y = o; st = s.s->de(t, T, y, o); }
    std::vector<ld> yl = GBS(p).to(p.t0, lv(p.y0), T); double m = 0, d = 0; for (int i = 0; i < p.n; i++) { m = std::max(m, (double)fabsl(yl[i])); d = std::max(d, (double)fabsl(o(i) - yl[i])); }
    c.check(st == 0 && t == T && d <= 1e-12 * (1 + m), "continues_after_tolerance_raise", "%s: status %d error %g", tag.c_str(), st, d);
  }
  if (what == 6) { // long interval: stops after its work limit with a valid intermediate result, continues
    Problem l = make_problem(c.r, 1); for (double &x : l.c) x = c.r.u(3, 6); l.n = 2; l.y0 = {1, 0.5}; l.t0 = p.t0; SG s(l, 1e-10, 1e-10, 0xa5); y = ev(l.y0); o.resize(2); double T = t + 400; int n = 0, st; bool four = false; double last = t;
    do { st = s.s->de(t, T, y, o); y = o;
      double ph = l.c[0] * (t - l.t0); ld x0 = l.y0[0] * cosl(ph) + l.y0[1] * sinl(ph), x1 = l.y0[1] * cosl(ph) - l.y0[0] * sinl(ph);
      c.check(std::fabs(o(0) - (double)x0) < 1e-5 && std::fabs(o(1) - (double)x1) < 1e-5, "work_limit_state", "%s: t=%g", tag.c_str(), t);
      if (st) { c.check(s.s->flag() == 4 && t > last && t < T, "work_limit_reported", "%s: flag %d t=%g", tag.c_str(), s.s->flag(), t); four = true; c.event("work_limit"); } last = t; } while (st && n++ < 100);
    c.check(four && st == 0 && t == T, "work_limit_continues", "%s: status %d", tag.c_str(), st);
  }
  if (what == 7) { // stiff problem: reported as such
    Problem l = make_problem(c.r, 9); l.c[79] = c.r.logu(3e3, 1e5); l.t0 = 0; l.n = 3; l.y0 = {1, 2, 3}; double tol = c.r.logu(1e-6, 1e-3); SG s(l, tol, tol, 0xa5); RefDE ref(l, tol, tol); y = ev(l.y0); o.resize(3); t = 0; double tr = 0; std::vector<double> yr = l.y0; int five = 0, rfive = 0, st, n = 0;
    for (; n < 6; n++) { st = s.s->de(t, 10, y, o); y = o; if (s.s->flag() == 5) five++; c.check(!st || s.s->flag() == 5 || s.s->flag() == 4, "stiff_status", "%s flag %d", tag.c_str(), s.s->flag()); if (!st) break; }
    if (c.r.p(0.5)) { SG h(l, tol, tol, 0xa5); RefDE rh(l, tol, tol); h.s->iflag = rh.iflag = -1; Eigen::VectorXd z = ev(l.y0), zo(3); double th = 0, trh = 0; std::vector<double> yh = l.y0; int sh, hf = 0, rf = 0; // the same with a hard limit
      for (n = 0; n < 6; n++) { sh = h.s->de(th, 10, z, zo); z = zo; if (!sh) break; c.check(h.s->flag() == -5 || h.s->flag() == -4, "hard_limit_kept_by_status", "%s: stiff: flag %d", tag.c_str(), h.s->flag()); hf += h.s->flag() == -5; }
      for (n = 0; n < 6; n++) { int f = rh.de(trh, 10, yh); rf += f == -5; if (f == 2) break; }
      if (rf >= 4) c.check(hf > 0, "stiffness_reported", "%s: hard limit, lambda=%g tol=%g", tag.c_str(), l.c[79], tol), c.event("stiff with a hard limit"); c.check(h.log.far <= 10 + 1e-14, "no_evaluation_past_hard_stop", "%s: stiff: evaluated at %.17g", tag.c_str(), h.log.far); }
    for (n = 0; n < 6; n++) { int f = ref.de(tr, 10, yr); if (f == 5) rfive++; if (f == 2) break; }
    if (rfive >= 4) c.check(five > 0, "stiffness_reported", "%s: lambda=%g tol=%g: never flagged, published algorithm %d times", tag.c_str(), l.c[79], tol, rfive), c.event("stiff");
    for (int i = 0; i < 3; i++) { ld L = l.c[79]; if (t * l.c[79] > 60) { ld ex = (L * L * cosl(t + l.c[i]) + L * sinl(t + l.c[i])) / (L * L + 1); c.near(o(i), (double)ex, 200 * tol, "stiff_solution", tag); } }
  }
  if (what >= 8) { // a stop before the output leaves the hard limit in force for the continuation
    Problem l = make_problem(c.r, 1); int dir = c.r.p(0.5) ? 1 : -1; for (double &x : l.c) x = c.r.u(3, 6); l.n = 2; l.y0 = {1, 0.5}; l.t0 = p.t0; l.dir = dir; double tol = what == 8 ? 1e-10 : 0; double T = t + dir * (what == 8 ? c.r.u(150, 400) : c.r.u(1, 5)); l.forbid = T * dir + 4e-16 * std::max(std::fabs(T), std::fabs(p.t0));
    SG s(l, tol, what == 8 ? tol : 1e-19, 0xa5); y = ev(l.y0); o.resize(2); s.s->iflag = -1; int n = 0, st, stops = 0;
    do { st = s.s->de(t, T, y, o); y = o; if (st) { stops++; c.check(s.s->flag() == -3 || s.s->flag() == -4 || s.s->flag() == -5, "hard_limit_kept_by_status", "%s: flag %d t=%g", tag.c_str(), s.s->flag(), t); c.check((T - t) * dir > 0, "work_limit_reported", "%s: t=%.17g of %.17g", tag.c_str(), t, T); } } while (st && std::abs(s.s->flag()) <= 5 && n++ < 200);
    c.check(stops > 0 && st == 0 && t == T, "work_limit_continues", "%s: status %d t=%.17g of %.17g after %d stops", tag.c_str(), st, t, T, stops);
    c.check(s.log.far <= T * dir + 4.5e-16 * std::max(std::fabs(T), std::fabs(p.t0)), "no_evaluation_past_hard_stop", "%s: evaluated at %.17g, limit %.17g, after %d stops", tag.c_str(), s.log.far * dir, T, stops);
    double ph = l.c[0] * (t - l.t0); ld x0 = l.y0[0] * cosl(ph) + l.y0[1] * sinl(ph), x1 = l.y0[1] * cosl(ph) - l.y0[0] * sinl(ph);
    c.check(std::fabs(o(0) - (double)x0) < 1e-5 && std::fabs(o(1) - (double)x1) < 1e-5, "work_limit_state", "%s: t=%g", tag.c_str(), t); c.event("stops with a hard limit", stops);
  }
  c.distinct(vf::fmt("%d %d %d", what, p.kind, p.n));
}

// an interval of a few dozen roundoff units of the time: the state moves along its derivative
static void tiny(vf::Ctx &c, const Problem &p, const Run &q, double t1, double T, const Eigen::VectorXd &y1, const Eigen::VectorXd &y2, const std::string &tag) {
  double ulp = std::nextafter(std::fabs(t1), INFINITY) - std::fabs(t1), dt = T - t1; if (std::fabs(dt) > 60 * ulp) return;
  double d[80]; p.f<double>(t1, y1.data(), d);
  for (int i = 0; i < p.n; i++) c.near(y2(i) - y1(i), dt * d[i], 2 * (q.re * std::fabs(y1(i)) + q.ae) + 3 * ulp * std::fabs(d[i]) + 10 * dt * dt + 2e-15 * std::fabs(y1(i)), "tiny_interval", tag + vf::fmt(" from %.17g comp %d", t1, i));
  c.event("tiny_intervals");
}
VF_GROUP(sg_late_outputs, 240, 6000) {
  Run q = gen_late(c.r, c.idx); const Problem &p = q.p; SG a(p, q.re, q.ae, 0x3c); RefDE ref(p, q.re, q.ae); GBS g(p); double ta = p.t0, tr = p.t0, tl = p.t0, wr = 0; Eigen::VectorXd y = ev(p.y0), o(p.n); o.setConstant(NAN); std::vector<double> yr = p.y0; std::vector<ld> yl = lv(p.y0);
  for (double T : q.outs) {
    const Eigen::VectorXd y1 = y; const double t1 = ta; bool hard = c.r.p(0.3); if (hard) { a.s->iflag = -std::abs(a.s->iflag); ref.iflag = -std::abs(ref.iflag); }
    int n = 0, st; do { st = a.s->de(ta, T, y, o); y = o; } while (st && std::abs(a.s->flag()) != 6 && n++ < 60);
    n = 0; int f; do f = ref.de(tr, T, yr); while (f != 2 && f != 6 && n++ < 60);
    yl = g.to(tl, yl, T); tl = T; if (!wellposed(p, yl)) return;
    std::string tag = p.tag + vf::fmt(" hard=%d t=%.17g->%.17g", hard, p.t0, T);
    if (f != 2) return;
    if (st == 0) tiny(c, p, q, t1, T, y1, o, tag);
    if (!c.check(st == 0 && a.s->flag() == 2 && ta == T, "reaches_output", "%s: status %d flag %d t=%.17g", tag.c_str(), st, a.s->flag(), ta)) return;
    double R = std::max(a.s->relerr, q.re), A = std::max(a.s->abserr, q.ae), ea = err(o.data(), yl, R, A), er = err(yr.data(), yl, R, A), nz = noise(yl, R, A, 4, a.log.n) + late_noise(p, yl, R, A, a.log.n); wr = std::max(wr, er);
    c.near(ea, 0, 10 * wr + 5 + nz, "error_within_tolerance", tag + vf::fmt(" published %.3g", wr)); c.event("late_outputs"); if (nz < 100) c.event("late_outputs_sharp");
  }
  c.distinct(vf::fmt("%d %d %.2g %zu", p.kind, p.n, p.t0, q.outs.size()));
}
// outputs on either side of one another: the integration turns round each time
VF_GROUP(sg_zigzag, 200, 4000) {
  static const int kinds[] = {1, 2, 3, 4, 5}; Run q; q.p = make_problem(c.r, kinds[c.idx % 5]); Problem &p = q.p; double tol = c.r.logu(1e-10, 1e-4); q.re = tol * c.r.u(0.2, 1); q.ae = tol;
  SG a(p, q.re, q.ae, 0x77), b(p, q.re, q.ae, 0xff); RefDE ref(p, q.re, q.ae); GBS g(p); double t = p.t0, tb = p.t0, tr = p.t0, tl = p.t0, wr = 0; Eigen::VectorXd y = ev(p.y0), o(p.n), yb = y, ob(p.n); std::vector<double> yr = p.y0; std::vector<ld> yl = lv(p.y0);
  Problem oth = make_problem(c.r, 1); SG z(oth, 1e-6, 1e-6, 0x11); double tz = oth.t0; Eigen::VectorXd yz = ev(oth.y0), oz(oth.n); int m = (int)c.r.i(3, 9);
  for (int k = 0; k < m; k++) {
    double T = t + c.r.sgn() * (c.r.p(0.3) ? c.r.logu(1e-6, 1e-1) : c.r.u(0.1, 1.5)) * (p.kind == 2 ? 0.5 : 1); if (c.r.p(0.15) && t != p.t0) T = p.t0; if (T == t) continue;
    bool hard = c.r.p(0.3), turn = k && (T - t) * (t - tl) < 0; tl = t; (void)turn;
    a.s->iflag = hard ? -std::abs(a.s->iflag) : std::abs(a.s->iflag); b.s->iflag = a.s->iflag; ref.iflag = hard ? -std::abs(ref.iflag) : std::abs(ref.iflag);
    double from = t; int n = 0, st; do { st = a.s->de(t, T, y, o); y = o; } while (st && std::abs(a.s->flag()) != 6 && n++ < 60);
    n = 0; while (z.s->de(tz, oth.t0 + 0.4 * (k + 1), yz, oz) && n++ < 30) yz = oz; yz = oz; // somebody else integrates in between
    n = 0; do { st = b.s->de(tb, T, yb, ob); yb = ob; } while (st && std::abs(b.s->flag()) != 6 && n++ < 60);
    n = 0; int f; do f = ref.de(tr, T, yr); while (f != 2 && f != 6 && n++ < 60);
    std::string tag = p.tag + vf::fmt(" tol %.2g hard=%d leg %d t=%.17g->%.17g", tol, hard, k, from, T);
    yl = g.to(from, yl, T); if (!wellposed(p, yl) || f != 2) return;
    if (!c.check(st == 0 && a.s->flag() == 2 && t == T, "reaches_output", "%s: status %d flag %d t=%.17g", tag.c_str(), st, a.s->flag(), t)) return;
    c.check(o == ob && t == tb, "independent_of_other_objects", "%s: another integrator in between changes the result", tag.c_str());
    double ea = err(o.data(), yl, q.re, q.ae), er = err(yr.data(), yl, q.re, q.ae), nz = noise(yl, q.re, q.ae, 4, a.log.n); wr = std::max(wr, er);
    c.near(ea, 0, 10 * wr + 10 + nz, "error_within_tolerance", tag + vf::fmt(" published %.3g", wr)); c.event(hard ? "hard_legs" : "legs");
  }
  c.check(a.log.n <= 1.4 * ref.nfe + 60, "work", "%s: %ld derivative evaluations, published algorithm %ld", p.tag.c_str(), a.log.n, ref.nfe);
  c.distinct(vf::fmt("%d %d %.1g %d", p.kind, p.n, tol, m));
}
// flat for long, then a sudden rise to a stable level: steps far too large must be taken back
VF_GROUP(sg_sudden, 120, 3000) {
  Problem p; p.kind = 7; p.n = (int)c.r.i(1, 4); p.t0 = c.r.p(0.4) ? 0 : c.r.u(-20, 20); p.dir = c.r.p(0.5) ? 1 : -1; p.y0.resize(p.n); double tol = c.r.logu(1e-11, 1e-3), T = 0;
  for (int i = 0; i < p.n; i++) { p.c[i] = c.r.u(1, 50); p.y0[i] = c.r.logu(1e-30, 1e-5); T = std::max(T, (std::log(1 / p.y0[i]) + c.r.u(8, 40)) / p.c[i]); p.c[i] *= p.dir; } T = p.t0 + p.dir * T;
  p.tag = vf::fmt("sudden rise n=%d dir=%d tol %.2g t=%.6g->%.6g", p.n, p.dir, tol, p.t0, T);
  double re = c.r.p(0.5) ? 0 : tol * c.r.u(0.1, 1); SG a(p, re, tol, 0x77); RefDE ref(p, re, tol); double t = p.t0, tr = t; Eigen::VectorXd y = ev(p.y0), o(p.n); std::vector<double> yr = p.y0;
  int n = 0, st; do { st = a.s->de(t, T, y, o); y = o; } while (st && std::abs(a.s->flag()) != 6 && n++ < 60);
  n = 0; int f; do f = ref.de(tr, T, yr); while (f != 2 && f != 6 && n++ < 60);
  if (f != 2) return;
  if (!c.check(st == 0 && a.s->flag() == 2 && t == T, "reaches_output", "%s: status %d flag %d t=%.17g", p.tag.c_str(), st, a.s->flag(), t)) return;
  double e = 0, er = 0; for (int i = 0; i < p.n; i++) { double x = 1 / (1 + (1 / p.y0[i] - 1) * std::exp(-p.c[i] * (T - p.t0))), w = tol + re; e = std::max(e, std::fabs(o(i) - x) / w); er = std::max(er, std::fabs(yr[i] - x) / w); }
  c.near(e, 0, 30 * er + 100 + 1e-13 / tol, "error_within_tolerance", p.tag + vf::fmt(" published %.3g", er)); c.event("sudden_rises");
  c.check(a.log.n <= 1.5 * ref.nfe + 200, "work", "%s: %ld derivative evaluations, published algorithm %ld", p.tag.c_str(), a.log.n, ref.nfe);
  c.distinct(vf::fmt("%d %.2g %.3g", p.n, tol, p.c[0]));
}
// a kick stronger than the shortest step can resolve: told as a tolerance that cannot be met, raised at each stop, and passed
VF_GROUP(sg_kick, 80, 2000) {
  Problem p; p.kind = 11; p.n = 1; p.t0 = c.r.sgn() * c.r.u(2, 20); p.dir = c.r.p(0.5) ? 1 : -1; double tc = p.t0 + p.dir * c.r.u(0.2, 1.5), T = tc + p.dir * c.r.u(0.2, 1); p.c[0] = c.r.u(-2, 2); p.c[1] = tc; p.c[2] = c.r.sgn() * c.r.logu(1e2, 1e9); p.c[3] = p.dir; p.y0 = {c.r.u(-1, 1)};
  double tol = c.r.logu(1e-13, 1e-10), re = c.r.p(0.5) ? 0 : tol; SG a(p, re, tol, 0x77); RefDE ref(p, re, tol); double t = p.t0, tr = t; Eigen::VectorXd y = ev(p.y0), o(1); std::vector<double> yr = p.y0; int n = 0, st, f, threes = 0, rthrees = 0, same = 0; a.s->iflag = ref.iflag = c.r.p(0.3) ? -1 : 1;
  std::string tag = vf::fmt("kick %.3g at %.17g, tol %.2g, t=%.6g->%.6g", p.c[2], tc, tol, p.t0, T);
  do { double r0 = a.s->relerr, a0 = a.s->abserr; st = a.s->de(t, T, y, o); y = o; if (std::abs(a.s->flag()) == 3) { threes++; bool up = a.s->abserr > a0 && (re == 0 || a.s->relerr > r0); same = up ? 0 : same + 1; /* a step lengthened to the shortest possible may be told once without */ c.check(a.s->abserr >= a0 && a.s->relerr >= r0 && same < 2, "impossible_accuracy_reported", "%s: tolerances not raised (%g %g -> %g %g)", tag.c_str(), r0, a0, a.s->relerr, a.s->abserr); } else same = 0; } while (st && std::abs(a.s->flag()) <= 5 && n++ < 100);
  n = 0; do { f = ref.de(tr, T, yr); rthrees += std::abs(f) == 3; } while (f != 2 && std::abs(f) <= 5 && n++ < 100);
  if (f != 2) return;
  if (!c.check(st == 0 && t == T, "continues_after_tolerance_raise", "%s: status %d flag %d t=%.17g after %d stops", tag.c_str(), st, a.s->flag(), t, threes)) return;
  if (rthrees > 3) c.check(threes > 0, "impossible_accuracy_reported", "%s: never reported, published algorithm %d times", tag.c_str(), rthrees);
  double x = p.y0[0] + p.c[0] * (T - p.t0) + p.c[2] * (T - tc); c.near(o(0), x, 100 * (a.s->abserr + a.s->relerr * std::fabs(x)) + 20 * std::fabs(yr[0] - x) + 1e-15 * (std::fabs(p.c[2]) * 40 * std::fabs(T)), "error_within_tolerance", tag);
  if (threes) c.event("kicks too strong"); c.event("kicks"); c.distinct(vf::fmt("%.2g %.2g", tol, p.c[2]));
}
// a solution that ceases to exist: no integrator may claim to have gone through
static Problem pole(vf::Rng &r, double &tp) { Problem p = make_problem(r, 4); p.kind = 10; p.n = (int)r.i(1, 4); p.y0.resize(p.n); tp = INFINITY; for (int i = 0; i < p.n; i++) { p.c[i] = r.u(0.5, 2); p.y0[i] = r.u(-2, 2); tp = std::min(tp, (M_PI / 2 - std::atan(p.y0[i])) / p.c[i]); } tp += p.t0; p.tag = vf::fmt("pole n=%d t0=%.6g pole at %.10g", p.n, p.t0, tp); return p; }
VF_GROUP(sg_pole, 60, 1000) {
  double tp; Problem p = pole(c.r, tp); double tol = c.r.logu(1e-9, 1e-4), T = tp + c.r.u(0.3, 2); SG a(p, tol, tol, 0x77); a.s->iflag = c.r.p(0.5) ? 1 : -1; double t = p.t0; Eigen::VectorXd y = ev(p.y0), o(p.n); double last = t;
  for (int k = 0; k < 8; k++) { int st = a.s->de(t, T, y, o); y = o; std::string tag = p.tag + vf::fmt(" tol %.2g call %d", tol, k); if (!c.check(st != 0 && std::abs(a.s->flag()) != 2 && t != T, "no_success_through_a_pole", "%s: status %d flag %d t=%.17g", tag.c_str(), st, a.s->flag(), t)) break; c.check(t >= last && t <= tp + 1e-6 + 1e2 * tol, "stops_before_the_pole", "%s: t=%.17g flag %d", tag.c_str(), t, a.s->flag()); last = t; c.event(vf::fmt("pole_flag_%d", std::abs(a.s->flag())).c_str()); if (std::abs(a.s->flag()) == 6 || !(y.array().abs() < 1e300).all()) break; }
  c.distinct(vf::fmt("%d %.2g %.3g", p.n, tol, tp));
}
#ifndef VARIANT_SRC
struct RK { Log log; Par par; unsigned char *mem; dso::RKF45 *s;
  RK(const Problem &p, double re, double ae, int fill) { log.p = &p; par.p = &log; mem = (unsigned char *)::operator new(sizeof(dso::RKF45)); memset(mem, fill, sizeof(dso::RKF45)); s = new (mem) dso::RKF45(fun, p.n, re, ae, &par); }
  ~RK() { s->~RKF45(); ::operator delete(mem); } };
VF_GROUP(rk_integrate, 500, 8000) {
  Run q = gen(c.r, c.idx, c.r.p(0.4)); const Problem &p = q.p; if (q.re < 2e-11) q.re = 2e-11;
  RK a(p, q.re, q.ae, 0x5a); RefRKF ref(p, q.re, q.ae); GBS g(p); double ta = p.t0, tr = p.t0; Eigen::VectorXd y = ev(p.y0); std::vector<double> yr = p.y0; std::vector<ld> yl = lv(p.y0); double tl = p.t0, wr = 0;
  for (double T : q.outs) {
    a.log.far = -INFINITY; int n = 0; do a.s->solve(ta, T, y); while (a.s->flag() == 4 && n++ < 20);
    n = 0; int f; do f = ref.solve(tr, T, yr); while (f == 4 && n++ < 20);
    yl = g.to(tl, yl, T); tl = T; if (!wellposed(p, yl)) return;
    std::string tag = p.tag + vf::fmt(" t=%.17g->%.17g", p.t0, T);
    if (!c.check(a.s->flag() == f, "status_as_published", "%s: flag %d, published %d", tag.c_str(), a.s->flag(), f)) return;
    if (f != 2) return;
    c.check(ta == T, "reaches_output", "%s: t=%.17g", tag.c_str(), ta);
    double ea = err(y.data(), yl, q.re, q.ae), er = err(yr.data(), yl, q.re, q.ae), nz = noise(yl, q.re, q.ae, 4, a.log.n); wr = std::max(wr, er);
    c.near(ea, 0, 4 * wr + 0.5 + nz, "error_within_tolerance", tag + vf::fmt(" published %.3g", wr));
    c.check(a.log.far <= T * p.dir + 1e-12, "stays_within_interval", "%s: evaluated at %.17g", tag.c_str(), a.log.far * p.dir);
    c.event("outputs");
  }
  c.check(a.log.n <= 1.3 * ref.total + 30, "work", "%s: %ld derivative evaluations, published algorithm %ld", p.tag.c_str(), a.log.n, ref.total);
  c.distinct(vf::fmt("%d %d %d %.1g %zu", p.kind, p.n, p.dir, q.re, q.outs.size()));
  if (c.idx < 2) c.sample(p.tag);
}
VF_GROUP(rk_late_outputs, 240, 6000) {
  Run q = gen_late(c.r, c.idx); const Problem &p = q.p; RK a(p, q.re, q.ae, 0x5a); RefRKF ref(p, q.re, q.ae); GBS g(p); double ta = p.t0, tr = p.t0, tl = p.t0, wr = 0; Eigen::VectorXd y = ev(p.y0); std::vector<double> yr = p.y0; std::vector<ld> yl = lv(p.y0);
  for (double T : q.outs) {
    const Eigen::VectorXd y1 = y; const double t1 = ta; int n = 0; do a.s->solve(ta, T, y); while (a.s->flag() == 4 && n++ < 20);
    n = 0; int f; do f = ref.solve(tr, T, yr); while (f == 4 && n++ < 20);
    yl = g.to(tl, yl, T); tl = T; if (!wellposed(p, yl)) return;
    std::string tag = p.tag + vf::fmt(" t=%.17g->%.17g", p.t0, T);
    if (!c.check(a.s->flag() == f, "status_as_published", "%s: flag %d, published %d", tag.c_str(), a.s->flag(), f)) return;
    if (f != 2) return;
    tiny(c, p, q, t1, T, y1, y, tag);
    c.check(ta == T, "reaches_output", "%s: t=%.17g", tag.c_str(), ta);
    double ea = err(y.data(), yl, q.re, q.ae), er = err(yr.data(), yl, q.re, q.ae), nz = noise(yl, q.re, q.ae, 4, a.log.n) + late_noise(p, yl, q.re, q.ae, a.log.n); wr = std::max(wr, er);
    c.near(ea, 0, 4 * wr + 0.5 + nz, "error_within_tolerance", tag + vf::fmt(" published %.3g", wr)); c.event("late_outputs"); if (nz < 100) c.event("late_outputs_sharp");
  }
  c.distinct(vf::fmt("%d %d %.2g %zu", p.kind, p.n, p.t0, q.outs.size()));
}
VF_GROUP(rk_order, 300, 4000) { // loose tolerances: the whole interval is one step of the tableau
  Problem p = make_problem(c.r, (int)(c.idx % 9)); if (p.kind == 5) p.kind = 4; double h = c.r.u(0.05, 0.2) * c.r.sgn(); p.dir = h > 0 ? 1 : -1;
  if (p.kind == 2) h *= 0.3;
  { RK a(p, 1e3, 1e12, 0xff); double t = -h, T = c.r.sgn() * c.r.logu(1e-14, 1e-3); Eigen::VectorXd y = ev(p.y0); a.s->solve(t, T, y); c.check(t == T, "reaches_output", "%s: one step from %.17g ends at %.17g instead of %.17g", p.tag.c_str(), -h, t, T); } // across zero
  double e[2]; for (int k = 0; k < 2; k++) {
    RK a(p, 1e3, 1e12, 0xff); Eigen::VectorXd y = ev(p.y0); double t = p.t0, H = h / (1 << k); a.s->solve(t, p.t0 + H, y); std::vector<ld> yl = GBS(p).to(p.t0, lv(p.y0), p.t0 + H), z = lv(p.y0);
    c.check(t == p.t0 + H, "reaches_output", "%s: t=%.17g of %.17g", p.tag.c_str(), t, p.t0 + H);
    c.check(a.s->flag() == 2 && a.log.n <= 8, "single_step", "%s: flag %d evaluations %ld", p.tag.c_str(), a.s->flag(), a.log.n);
    // the published tableau, in long double
    std::vector<std::vector<ld>> K(6, std::vector<ld>(p.n)); static const ld A[6][5] = {{0}, {1.0L / 4}, {3.0L / 32, 9.0L / 32}, {1932.0L / 2197, -7200.0L / 2197, 7296.0L / 2197}, {439.0L / 216, -8, 3680.0L / 513, -845.0L / 4104}, {-8.0L / 27, 2, -3544.0L / 2565, 1859.0L / 4104, -11.0L / 40}}, C[6] = {0, 0.25L, 0.375L, 12.0L / 13, 1, 0.5L}, B[6] = {16.0L / 135, 0, 6656.0L / 12825, 28561.0L / 56430, -9.0L / 50, 2.0L / 55};
    std::vector<ld> s = z; for (int i = 0; i < 6; i++) { std::vector<ld> w = z; for (int j = 0; j < i; j++) for (int l = 0; l < p.n; l++) w[l] += H * A[i][j] * K[j][l]; p.f<ld>(p.t0 + C[i] * H, w.data(), K[i].data()); }
    for (int i = 0; i < 6; i++) for (int l = 0; l < p.n; l++) s[l] += H * B[i] * K[i][l];
    e[k] = 0; for (int l = 0; l < p.n; l++) { c.near(y(l), (double)s[l], 1e-14 * (1 + std::fabs((double)s[l])), "published_tableau", p.tag); e[k] = std::max(e[k], std::fabs((double)(y(l) - yl[l]))); }
  }
  // (the observed order is evidence only: the tableau above decides, error components may cross zero)
  if (e[1] > 1e-12) c.event(e[0] / e[1] > 24 ? "order_five_observed" : "order_not_observed");
  c.distinct(vf::fmt("%d %d %.2g", p.kind, p.n, h));
}
VF_GROUP(rk_status, 300, 3000) {
  Run q = gen(c.r, c.idx, false); Problem p = q.p; int what = (int)(c.idx % 7); Eigen::VectorXd y = ev(p.y0), y0 = y; double t = p.t0; std::string tag = p.tag + vf::fmt(" case %d", what);
  auto same = [&](double tt) { c.check(y == y0 && t == tt, "invalid_leaves_state", "%s", tag.c_str()); };
  if (what == 0) { for (int fill : {0, 3, 0xff}) { RK s(p, q.re, q.ae, fill); s.s->solve(t, t, y); c.check(s.s->flag() == 8 || s.s->flag() == 2, "no_interval", "%s: flag %d", tag.c_str(), s.s->flag()); same(p.t0); } }
  if (what == 1) { bool w = c.r.p(0.5); RK s(p, w ? -1e-6 : 1e-6, w ? 1e-6 : -1e-6, 3); s.s->solve(t, t + 1, y); c.check(s.s->flag() == 8 && s.log.n == 0, "invalid_reported", "%s: flag %d", tag.c_str(), s.s->flag()); same(p.t0); s.s->solve(t, t + 1, y); c.check(s.s->flag() == 8, "invalid_stays_reported", "%s: flag %d", tag.c_str(), s.s->flag()); }
  if (what == 2) { RK s(p, c.r.p(0.5) ? 0 : 1e-14, q.ae + 1e-9, 3); double T = t + 0.5; s.s->solve(t, T, y); c.check(s.s->flag() == 3, "impossible_tolerance_reported", "%s: flag %d", tag.c_str(), s.s->flag()); same(p.t0); int n = 0; do s.s->solve(t, T, y); while (s.s->flag() == 4 && n++ < 30); c.check(s.s->flag() == 2 && t == T, "continues_after_tolerance_raise", "%s: flag %d", tag.c_str(), s.s->flag()); std::vector<ld> yl = GBS(p).to(p.t0, lv(p.y0), T); c.check(err(y.data(), yl, 1e-8, q.ae + 1e-8) < 30, "error_within_tolerance", "%s", tag.c_str()); }
  if (what == 3) { Problem z = p; z.kind = 0; z.y0.assign(z.n, 0.0); RK s(z, 1e-6, 0, 3); y.setZero(); y0 = y; s.s->solve(t, t + 1, y); c.check(s.s->flag() == 5, "pure_relative_at_zero_reported", "%s: flag %d", tag.c_str(), s.s->flag()); }
  if (what == 4) { // too much work, and continuing
    Problem l = make_problem(c.r, 1); for (double &x : l.c) x = c.r.u(20, 60); l.n = 2; l.y0 = {1, 0}; l.t0 = t; RK s(l, 1e-9, 1e-9, 3); y = ev(l.y0); double T = t + 40, last = t; int n = 0; bool four = false; do { s.s->solve(t, T, y); if (s.s->flag() == 4) { c.check(t > last && t < T && s.log.n <= 3100 * (n + 1), "work_limit_state", "%s: t=%g evaluations %ld", tag.c_str(), t, s.log.n); four = true; } last = t; } while (s.s->flag() == 4 && n++ < 200); c.check(four && s.s->flag() == 2 && t == T, "work_limit_reported", "%s: flag %d", tag.c_str(), s.s->flag()); double ph = l.c[0] * (T - l.t0); c.check(std::fabs(y(0) - std::cos(ph)) < 2e-4 && std::fabs(y(1) + std::sin(ph)) < 2e-4, "work_limit_result", "%s: %g %g", tag.c_str(), y(0) - std::cos(ph), y(1) + std::sin(ph)); }
  if (what >= 5) { // storage contents and an interleaved second object change nothing
    Eigen::VectorXd a = y, b = y; double t1 = t, t2 = t, t3 = t; RK s1(p, q.re < 1e-10 ? 1e-10 : q.re, q.ae, 0), s2(p, q.re < 1e-10 ? 1e-10 : q.re, q.ae, 0xff); Problem o = make_problem(c.r, 1); RK s3(o, 1e-5, 1e-5, 0x11); Eigen::VectorXd z = ev(o.y0);
    for (double T : q.outs) { s1.s->solve(t1, T, a); if (what == 6) { s3.s->solve(t3, t3 + 0.3, z); } s2.s->solve(t2, T, b); }
    c.check(a == b && t1 == t2 && s1.s->flag() == s2.s->flag(), "independent_of_storage", "%s", tag.c_str()); }
  c.distinct(vf::fmt("%d %d %d", what, p.kind, p.n));
}
// (each call starts afresh, so only one call is known not to step over the pole)
VF_GROUP(rk_pole, 80, 1000) {
  double tp; Problem p = pole(c.r, tp); double tol = c.r.logu(1e-9, 1e-2), T = tp + c.r.u(0.3, 2); RK a(p, tol, tol, 3); RefRKF ref(p, tol, tol); double t = p.t0, tr = t; Eigen::VectorXd y = ev(p.y0); std::vector<double> yr = p.y0;
  a.s->solve(t, T, y); int f = a.s->flag(), g = ref.solve(tr, T, yr); std::string tag = p.tag + vf::fmt(" tol %.2g", tol); if (g == 2) return;
  c.event(vf::fmt("pole_flag_%d", f).c_str());
  c.check(f == g, "pole_status_as_published", "%s: flag %d, published %d", tag.c_str(), f, g);
  c.check(f != 2 && t != T, "no_success_through_a_pole", "%s: flag %d t=%.17g", tag.c_str(), f, t); c.check(t >= p.t0 && t <= tp + 1e-6 + 10 * tol, "stops_before_the_pole", "%s: t=%.17g flag %d", tag.c_str(), t, f);
  if (f == 6) { long n0 = a.log.n; Eigen::VectorXd y1 = y; double t1 = t; for (int n = 0; n < 2; n++) { a.s->solve(t, T + n, y); c.check(a.s->flag() == 6 && a.log.n == n0 && t == t1 && (y == y1 || !(y1.array().abs() < 1e300).all()), "unattainable_stays_reported", "%s: flag %d, %ld evaluations", tag.c_str(), a.s->flag(), a.log.n - n0); } c.event("unattainable_reported"); }
  c.distinct(vf::fmt("%d %.2g %.3g", p.n, tol, tp));
}
#endif
