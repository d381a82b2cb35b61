// C13: Earth-orientation tables: C04 files, value semantics, interpolation, regularisation.
#include "eop.hpp"
#include "datetime/utcdates.hpp"
#include "iers2010/iers2010.hpp"
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <memory>

// ---- stand-ins for the external library: analytic, recording, able to fail
namespace {
long g_calls, g_fail_at = -1; double g_tlast; int g_idx_hint_bad;
double zd(double t) { return 2e-3 * std::sin(t * 36525 * 0.23 + 0.1) + 1e-2 * t; }
double zl(double t) { return 4e-4 * std::cos(t * 36525 * 0.23 + 0.7); }
double zo(double t) { return 1e-14 * std::cos(t * 36525 * 0.23); }
double ox(double t) { return 3e-4 * std::sin(t * 36525 * 5.9 + 1); }
double oy(double t) { return 2e-4 * std::cos(t * 36525 * 5.9 + 2); }
double ou(double t) { return 5e-5 * std::sin(t * 36525 * 6.1 + 3); }
double ol(double t) { return 6e-5 * std::cos(t * 36525 * 6.1 + 4); }
double gx(double t) { return 1.3e-5 * std::sin(t * 36525 * 6.2 + 5); }
double gy(double t) { return 1.7e-5 * std::cos(t * 36525 * 6.2 + 6); }
} // namespace
int iers2010::rg_zont2(double t, double &d, double &l, double &o) noexcept { g_tlast = t; d = zd(t); l = zl(t); o = zo(t); return 0; }
int iers2010::interp::pmut1_oceans(double t, double &x, double &y, double &u, double &l) noexcept { x = ox(t); y = oy(t); u = ou(t); l = ol(t); return 0; }
int iers2010::interp::pm_gravi(double t, double &x, double &y) noexcept { x = gx(t); y = gy(t); return 0; }
int iers2010::interp::lagint(const double *x, const double *y, int n, double xi, double &out, int &idx, int order) noexcept {
  if (g_fail_at >= 0 && g_calls++ == g_fail_at) return 1;
  if (n < order + 1 || !(xi >= x[0] && xi <= x[n - 1])) return 1;
  int k = (int)(std::upper_bound(x, x + n, xi) - x) - 1; if (k > n - 2) k = n - 2;
  if (idx >= 0 && idx != k) g_idx_hint_bad++;
  idx = k;
  int lo = k - (order - 1) / 2; if (lo < 0) lo = 0; if (lo + order + 1 > n) lo = n - order - 1;
  long double s = 0;
  for (int i = lo; i <= lo + order; i++) { long double t = y[i]; for (int j = lo; j <= lo + order; j++) if (j != i) t *= ((long double)xi - x[j]) / ((long double)x[i] - x[j]); s += t; }
  out = (double)s; return 0;
}

namespace {
using MJD = dso::modified_julian_day;
struct Row { long mjd; double v[6]; std::string text; };
double tt(long m) { return (double)((long double)m + ((long double)dso::core::dat(m) + 32.184L) / 86400); }
std::string number(vf::Rng &r, int dec, double amp) {
  double v = r.n() * amp; if (r.p(0.05)) v = 0; if (r.p(0.03)) v = -v * 20;
  return vf::fmt("%*.*f", dec + 5, dec, v);
}
Row make_row(vf::Rng &r, long mjd, bool ddmm) {
  Row w; w.mjd = mjd; int y, m, d; dso::core::mjd2cal(mjd, y, m, d);
  std::string n[12] = {number(r, 6, .3), number(r, 6, .3), number(r, 7, .4), number(r, 7, .002), number(r, 6, .0003), number(r, 6, .0003), "   0.030000", "   0.030000", "  0.0020000", "  0.0014000", "    0.004774", "    0.002000"};
  w.text = vf::fmt("%4d%4d%4d%7ld", y, m, d, mjd);
  for (int k = 0; k < 6; k++) { w.v[k] = strtod(n[k].c_str(), nullptr); w.text += (ddmm && n[k][0] == '-' ? "" : " ") + n[k]; }
  if (r.p(0.9)) for (int k = 6; k < 12; k++) w.text += n[k];
  return w;
}
std::string write(const std::string &dir, const std::string &name, const std::string &body) { std::string f = dir + "/" + name; FILE *o = fopen(f.c_str(), "wb"); fwrite(body.data(), 1, body.size(), o); fclose(o); return f; }
std::string header(vf::Rng &r) {
  std::string h; int n = (int)r.i(0, 3);
  for (int k = 0; k < n; k++) h += r.p(0.3) ? "\n" : r.p(0.5) ? "# EARTH ORIENTATION PARAMETERS 1962 1 1 37665\n" : "      Date      MJD      x          y        UT1-UTC       LOD\n";
  return h;
}
// the table against rows
void same(vf::Ctx &c, const dso::EopLookUpTable &t, const std::vector<Row> &w, const char *key, const std::string &tag) {
  if (!c.check(t.size() == (int)w.size(), key, "%s: %d rows, expected %zu", tag.c_str(), t.size(), w.size())) return;
  for (size_t i = 0; i < w.size(); i++) {
    int k = (int)i; const double *p[6] = {t.xp(k), t.yp(k), t.dut(k), t.lod(k), t.dx(k), t.dy(k)};
    bool ok = std::fabs(*t.mjd(k) - tt(w[i].mjd)) < 3e-11; for (int q = 0; q < 6; q++) ok = ok && *p[q] == w[i].v[q];
    if (!c.check(ok && vf::defined_mem(t.omega(k), 8), key, "%s: row %d (mjd %ld): got mjd %.12f xp %.9g yp %.9g dut %.9g lod %.9g dx %.9g dy %.9g; file line [%s]", tag.c_str(), k, w[i].mjd, *t.mjd(k), *p[0], *p[1], *p[2], *p[3], *p[4], *p[5], w[i].text.c_str())) return;
    c.event("rows_compared");
  }
}
long day0(vf::Rng &r) { static const long leap[] = {41683, 50630, 53736, 56109, 57204, 57754}; return r.p(0.4) ? r.pick(leap) - r.i(0, 20) : r.i(41320, 62000); }
} // namespace

VF_GROUP(c04_valid, 700, 15000) {
  long d0 = day0(c.r); int n = c.r.p(0.1) ? 1 : (int)c.r.i(1, c.r.p(0.1) ? 400 : 40); bool adj = c.r.p(0.2), crlf = c.r.p(0.1), nofinal = c.r.p(0.2);
  std::vector<Row> all; std::string body = header(c.r);
  for (int k = 0; k < n; k++) { all.push_back(make_row(c.r, d0 + k, adj)); body += all.back().text + (crlf ? "\r\n" : k == n - 1 && nofinal ? "" : "\n"); if (c.r.p(0.02)) body += "\n"; if (c.r.p(0.02)) body += "# remark\n"; }
  std::string f = write(c.scratch(), "c04", body);
  dso::EopLookUpTable t((int)c.r.i(0, 30));
  for (int q = 0; q < 5; q++) {
    long a = d0 + c.r.i(0, n - 1), b = a + c.r.i(0, d0 + n - a); bool cover = true;
    if (q == 0) { a = d0; b = d0 + n; }
    if (q == 3) { a = d0 - c.r.i(1, 5); b = std::max(b, a + 1); cover = false; }
    if (q == 4) { b = d0 + n + c.r.i(1, 5); cover = false; }
    std::string tag = vf::fmt("%d rows from %ld, request [%ld,%ld)", n, d0, a, b);
    int st = dso::parse_iers_C04(f.c_str(), MJD(a), MJD(b), t);
    if (cover) { if (c.check(st == 0, "covered_range_is_read", "%s: status %d", tag.c_str(), st)) same(c, t, std::vector<Row>(all.begin() + (a - d0), all.begin() + (b - d0)), "rows_equal_the_file", tag); }
    else c.check(st != 0, "uncovered_range_is_an_error", "%s: status 0", tag.c_str());
    c.distinct(tag); if (c.idx < 2 && q == 1) c.sample(tag);
  }
  c.check(dso::parse_iers_C04((c.scratch() + "/absent").c_str(), MJD(d0), MJD(d0 + 1), t) != 0, "absent_file_is_an_error", "status 0");
  c.check(dso::parse_iers_C04(f.c_str(), MJD(d0 + 3), MJD(d0), t) != 0, "reversed_range_is_an_error", "status 0");
  unlink(f.c_str());
}
// one named damage within the requested days: always an error
VF_GROUP(c04_damaged, 600, 12000) {
  long d0 = day0(c.r); int n = (int)c.r.i(3, 90), i0 = (int)c.r.i(0, n - 2), i1 = (int)c.r.i(i0 + 2, n); // requested rows [i0, i1)
  std::vector<std::string> L; for (int k = 0; k < n; k++) L.push_back(make_row(c.r, d0 + k, false).text);
  static const char *WHAT[] = {"a day is missing", "a day is repeated", "a day is repeated with other values", "two days change places", "a day comes again later", "a value is not a number", "the line ends before the last value"};
  int kind = (int)(c.idx % 7), len = i1 - i0, edge = (int)c.r.i(0, 2), k = edge == 0 ? i0 : edge == 1 ? i1 - 1 : (int)c.r.i(i0, i1 - 1);
  auto value = [&](const std::string &l, int q) { size_t pos = 12; for (int w = 0; w <= q; w++) { while (pos < l.size() && l[pos] == ' ') pos++; if (w == q) break; while (pos < l.size() && l[pos] != ' ') pos++; } return pos; }; // 0: MJD, 1-6 the values
  switch (kind) {
  case 0: L.erase(L.begin() + k); break;
  case 1: { std::string l = L[k]; for (long q = c.r.i(1, 3); q; q--) L.insert(L.begin() + k, l); break; }
  case 2: L.insert(L.begin() + k, make_row(c.r, d0 + k, false).text); break;
  case 3: { int o = k == i1 - 1 ? k - 1 : k + 1; if (c.r.p(0.4)) while (o == k || c.r.p(0.3)) o = (int)c.r.i(i0, i1 - 1); std::swap(L[k], L[o]); break; }
  case 4: { if (k == i1 - 1) k--; std::string l = L[k]; L.insert(L.begin() + c.r.i(k + 1, i1 - 1), l); break; }
  case 5: L[k][value(L[k], (int)c.r.i(0, 6))] = "x#:e"[c.r.i(0, 3)]; break;
  case 6: { size_t e = value(L[k], (int)c.r.i(1, 6)); L[k].resize(e); break; }
  }
  std::string body = header(c.r); for (auto &l : L) body += l + "\n";
  std::string f = write(c.scratch(), "c04", body); dso::EopLookUpTable t((int)c.r.i(0, 9)); int st = dso::parse_iers_C04(f.c_str(), MJD(d0 + i0), MJD(d0 + i1), t); unlink(f.c_str());
  std::string tag = vf::fmt("%s: row %d of requested [%d,%d) of %d rows from %ld", WHAT[kind], k, i0, i1, n, d0);
  c.check(st != 0, "damage_in_the_range_is_an_error", "%s: status 0", tag.c_str()); c.event(WHAT[kind]); c.distinct(vf::fmt("%d/%d/%d/%d", kind, n, len, k - i0)); if (c.idx < 7) c.sample(tag);
}
VF_GROUP(c04_mutated, 1200, 25000) {
  long d0 = day0(c.r); int n = (int)c.r.i(2, 20); std::vector<Row> all; std::vector<std::string> L;
  for (int k = 0; k < n; k++) { all.push_back(make_row(c.r, d0 + k, false)); L.push_back(all.back().text); }
  std::string what; int muts = (int)c.r.i(1, 3); bool cut = false; std::string end = "\n"; bool must_fail = false; std::string raw;
  for (int m = 0; m < muts; m++) {
    int k = (int)c.r.i(0, (long)L.size() - 1), op = (int)c.r.i(0, 12); what += vf::fmt(" %d@%d", op, k);
    std::string &l = L[k];
    switch (op) {
    case 0: if (L.size() > 1) L.erase(L.begin() + k); break;
    case 1: { std::string s = l; for (int q = (int)c.r.i(1, 3); q; q--) L.insert(L.begin() + k, s); break; }
    case 2: std::swap(L[k], L[(size_t)c.r.i(0, (long)L.size() - 1)]); break;
    case 3: l = l.substr(0, (size_t)c.r.i(0, (long)l.size())); break;
    case 4: if (!l.empty()) l[(size_t)c.r.i(0, (long)l.size() - 1)] = "x-+.e #,9\t\xff"[c.r.i(0, 10)]; break;
    case 5: l += std::string((size_t)c.r.i(100, 400), c.r.p(0.5) ? ' ' : '1'); break;
    case 6: if (l.size() > 30) l.replace(20, 10, c.r.p(0.5) ? "       nan" : "       inf"); break;
    case 7: l = std::string((size_t)c.r.i(0, 12), '1'); break;
    case 8: if (l.size() > 30) l = l.substr(0, 19) + "." + l.substr(20); break;
    case 9: l = l.substr(0, std::min<size_t>(l.size(), 12)) + " 99999999999999999999 0 0 0 0 0 0"; break;
    case 10: std::sort(L.rbegin(), L.rend()); break;
    case 11: end = "\r\n"; break;
    case 12: { std::string s; for (char x : l) s += x == ' ' && c.r.p(0.2) ? std::string() : std::string(1, x); l = s; break; }
    }
  }
  std::string body; for (auto &l : L) body += l + end;
  if (c.r.p(0.2)) { body = body.substr(0, (size_t)c.r.i(0, (long)body.size())); what += " cut"; }
  (void)cut; (void)must_fail; (void)raw;
  std::string f = write(c.scratch(), "c04", body);
  long a = d0 + c.r.i(0, n - 1), b = a + c.r.i(1, d0 + n - a); if (c.r.p(0.4)) { a = d0; b = d0 + n; }
  dso::EopLookUpTable t((int)c.r.i(0, 4));
  int st = dso::parse_iers_C04(f.c_str(), MJD(a), MJD(b), t);
  c.event(st ? "refused" : "accepted");
  if (!st) { // every day has a line in the file with that number and these values
    std::string tag = vf::fmt("%s request [%ld,%ld)", what.c_str(), a, b);
    if (c.check(t.size() == b - a, "accepted_size", "%s: %d", tag.c_str(), t.size()))
      for (long d = a; d < b; d++) {
        int i = (int)(d - a); bool found = false; size_t pos = 0;
        while (pos < body.size() && !found) {
          size_t e = body.find('\n', pos); std::string l = body.substr(pos, e == std::string::npos ? e : e - pos); pos = e == std::string::npos ? body.size() : e + 1;
          if (l.size() < 13 || l[0] == ' ' || l[0] == '#') continue;
          char *q; long m = strtol(l.c_str() + 12, &q, 10); if (m != d || (*q != ' ' && *q != '-')) continue;
          double v[6]; bool ok = true; for (int k = 0; k < 6 && ok; k++) { char *s = q; v[k] = strtod(s, &q); ok = q != s && std::isfinite(v[k]); }
          const double *p[6] = {t.xp(i), t.yp(i), t.dut(i), t.lod(i), t.dx(i), t.dy(i)};
          for (int k = 0; k < 6 && ok; k++) ok = *p[k] == v[k];
          found = ok;
        }
        c.check(found && std::fabs(*t.mjd(i) - tt(d)) < 3e-11, "accepted_values_are_in_the_file", "%s: day %ld: mjd %.12f xp %.9g yp %.9g dut %.9g", tag.c_str(), d, *t.mjd(i), *t.xp(i), *t.yp(i), *t.dut(i));
      }
  }
  c.distinct(what); if (c.idx < 3) c.sample(what);
  unlink(f.c_str());
}

// random histories of construct/copy/move/assign/resize/write against vectors
namespace {
struct Sh { std::vector<std::array<double, 8>> v; bool known = false; };
void put(dso::EopLookUpTable &t, int i, const std::array<double, 8> &a) { *t.mjd(i) = a[0]; *t.xp(i) = a[1]; *t.yp(i) = a[2]; *t.dut(i) = a[3]; *t.dx(i) = a[4]; *t.dy(i) = a[5]; *t.lod(i) = a[6]; *t.omega(i) = a[7]; }
std::array<double, 8> get(const dso::EopLookUpTable &t, int i) { return {*t.mjd(i), *t.xp(i), *t.yp(i), *t.dut(i), *t.dx(i), *t.dy(i), *t.lod(i), *t.omega(i)}; }
std::array<double, 8> rnd(vf::Rng &r) { std::array<double, 8> a; for (double &x : a) x = r.n(); return a; }
} // namespace
VF_GROUP(table_histories, 1200, 25000) {
  using T = dso::EopLookUpTable; std::unique_ptr<T> t[3]; Sh s[3]; std::string h;
  auto fill = [&](int i) { for (int k = 0; k < t[i]->size(); k++) put(*t[i], k, s[i].v[k] = rnd(c.r)); s[i].known = true; };
  auto cmp = [&](int i) {
    if (!c.check(t[i]->size() == (int)s[i].v.size(), "table_size", "%s: %d expected %zu", h.c_str(), t[i]->size(), s[i].v.size())) return;
    if (s[i].known) for (int k = 0; k < t[i]->size(); k++) if (!c.check(get(*t[i], k) == s[i].v[k], "table_values", "%s: table %d row %d differs", h.c_str(), i, k)) return;
  };
  for (int i = 0; i < 3; i++) { int n = c.r.p(0.2) ? -1 : (int)c.r.i(0, 12); t[i].reset(n < 0 ? new T() : new T(n)); s[i].v.resize(t[i]->size()); c.check(n < 0 || t[i]->size() == n, "constructed_size", "%d", n); if (c.r.p(0.9)) fill(i); }
  int steps = (int)c.r.i(3, 30);
  for (int q = 0; q < steps; q++) {
    int a = (int)c.r.i(0, 2), b = (int)c.r.i(0, 2), op = (int)c.r.i(0, 6); h += vf::fmt(" %d:%d%d", op, a, b);
    switch (op) {
    case 0: if (s[b].known) { *t[a] = *t[b]; s[a] = s[b]; } break;
    case 1: if (s[b].known) { std::unique_ptr<T> n(new T(*t[b])); t[a] = std::move(n); s[a] = s[b]; } break;
    case 2: if (a != b) { *t[a] = std::move(*t[b]); s[a] = s[b]; s[b].v.clear(); s[b].known = true; } else { T &r = *t[a]; *t[a] = std::move(r); } break;
    case 3: if (a != b) { std::unique_ptr<T> n(new T(std::move(*t[b]))); t[a] = std::move(n); s[a] = s[b]; s[b].v.clear(); s[b].known = true; } break;
    case 4: { int n = (int)c.r.i(0, 20); t[a]->resize(n); s[a].v.assign(n, {}); s[a].known = false; fill(a); break; }
    case 5: if (s[a].known && !s[a].v.empty()) { int k = (int)c.r.i(0, (long)s[a].v.size() - 1); put(*t[a], k, s[a].v[k] = rnd(c.r)); } break;
    case 6: if (s[a].known && !s[a].v.empty()) { // regularisation of the tides at the tabulated epochs
      for (size_t k = 0; k < s[a].v.size(); k++) { s[a].v[k][0] = 51544.5 + 4000 * c.r.n(); put(*t[a], (int)k, s[a].v[k]); }
      t[a]->regularize();
      for (size_t k = 0; k < s[a].v.size(); k++) {
        auto &v = s[a].v[k]; double T0 = (v[0] - 51544.5) / 36525; auto g = get(*t[a], (int)k);
        c.check(g[0] == v[0] && g[1] == v[1] && g[2] == v[2] && g[4] == v[4] && g[5] == v[5], "regularize_leaves_the_rest", "%s", h.c_str());
        c.near(g[3], v[3] - zd(T0), 1e-11, "regularized_dut"); c.near(g[6], v[6] - zl(T0), 1e-11, "regularized_lod"); c.near(g[7], v[7] - zo(T0), 1e-15, "regularized_omega");
        v = g;
      } } break;
    }
    for (int i = 0; i < 3; i++) cmp(i);
  }
  c.distinct(h); if (c.idx < 2) c.sample(h);
}
VF_GROUP(table_memory, 300, 6000) {
  using T = dso::EopLookUpTable; int o[8], op[14], as[14], bs[14]; for (int &x : o) x = (int)c.r.i(0, 9); for (int k = 0; k < 14; k++) { op[k] = (int)c.r.i(0, 3); as[k] = (int)c.r.i(0, 2); bs[k] = (int)c.r.i(0, 2); }
  size_t before = vf::live_bytes();
  { T m[3] = {T(o[0]), T(o[1]), T(o[2])}; for (auto &t : m) for (int k = 0; k < t.size(); k++) put(t, k, {});
    for (int k = 0; k < 14; k++) switch (op[k]) { case 0: m[as[k]] = m[bs[k]]; break; case 1: { T t(m[bs[k]]); m[as[k]] = std::move(t); break; } case 2: { T t(std::move(m[as[k]])); m[bs[k]] = t; break; } case 3: m[as[k]].resize(o[k % 8]); for (int i = 0; i < m[as[k]].size(); i++) put(m[as[k]], i, {}); break; } }
  c.check(vf::live_bytes() == before, "no_leak", "%zu bytes before, %zu after", before, vf::live_bytes());
}
VF_GROUP(interpolation, 800, 16000) {
  int order = c.r.p(0.7) ? 5 : (int)(2 * c.r.i(0, 4) + 1), n = (int)c.r.i(order + 1, order + 25); double m0 = (double)day0(c.r) + c.r.u();
  dso::EopLookUpTable t((int)c.r.i(0, 40)); t.resize(n); std::vector<std::array<double, 8>> cf(order + 1);
  for (auto &a : cf) a = rnd(c.r);
  std::vector<double> x; double cur = m0; for (int k = 0; k < n; k++) { x.push_back(cur); cur += 1; }
  auto P = [&](int q, double at) { long double d = ((long double)at - m0) / n, y = 0; for (int k = order; k >= 0; k--) y = y * d + cf[k][q]; return (double)y; };
  for (int k = 0; k < n; k++) { std::array<double, 8> a; a[0] = x[k]; for (int q = 1; q < 8; q++) a[q] = P(q, x[k]); put(t, k, a); }
  std::string tag = vf::fmt("order %d, %d rows from %.6f", order, n, m0);
  g_fail_at = -1; double tol = 2e-10, last = m0;
  for (int q = 0; q < 8; q++) {
    int node = (int)c.r.i(0, n - 1); double at = q < 3 ? x[node] : q == 3 ? x[0] : q == 4 ? x[n - 1] : c.r.u(x[0], x[n - 1]);
    if (q > 5) at = std::min(x[n - 1], std::max(x[0], last + c.r.sgn() * c.r.logu(1e-6, 1e-3))); // close to the epoch before
    last = at;
    dso::EopRecord a, b; memset(&a, 0, sizeof a); memset(&b, 0x3e, sizeof b); g_idx_hint_bad = 0;
    bool lag = c.r.p(0.4); int s1, s2;
    if (order == 5 && c.r.p(0.5)) { s1 = lag ? t.interpolate_lagrange(at, a) : t.interpolate(at, a); s2 = lag ? t.interpolate_lagrange(at, b) : t.interpolate(at, b); }
    else { s1 = lag ? t.interpolate_lagrange(at, a, order) : t.interpolate(at, a, order); s2 = lag ? t.interpolate_lagrange(at, b, order) : t.interpolate(at, b, order); }
    if (!c.check(s1 == 0 && s2 == 0, "inside_the_table", "%s: status %d %d at %.9f", tag.c_str(), s1, s2, at)) continue;
    c.check(!memcmp(&a, &b, sizeof a), "independent_of_record_contents", "%s: omega %g %g", tag.c_str(), a.omega, b.omega);
    double T0 = (at - 51544.5) / 36525, z = lag ? 0 : 1;
    c.check(a.mjd == at, "record_epoch", "%s: %.9f", tag.c_str(), a.mjd);
    c.near(a.xp, P(1, at) + z * (ox(T0) + gx(T0)), tol, "xp", tag); c.near(a.yp, P(2, at) + z * (oy(T0) + gy(T0)), tol, "yp", tag);
    c.near(a.dut, P(3, at) + z * (zd(T0) + ou(T0)), tol, "dut", tag); c.near(a.lod, P(6, at) + z * (zl(T0) + ol(T0)), tol, "lod", tag);
    c.near(a.dx, P(4, at), tol, "dx", tag); c.near(a.dy, P(5, at), tol, "dy", tag); c.near(a.omega, z * zo(T0), 1e-17, "omega", tag);
    if (!lag) c.near(g_tlast, T0, 1e-14, "tide_epoch", tag);
  }
  for (int q = 0; q < 4; q++) {
    double at = q < 2 ? x[0] - c.r.logu(1e-6, 100) : x[n - 1] + c.r.logu(1e-6, 100); dso::EopRecord a;
    c.check((q % 2 ? t.interpolate(at, a, order) : t.interpolate_lagrange(at, a, order)) != 0, "outside_the_table_is_an_error", "%s: status 0 at %.9f", tag.c_str(), at);
  }
  for (long k = 0; k < 6; k++) { g_fail_at = k; g_calls = 0; dso::EopRecord a; int st = k % 2 ? t.interpolate(x[0] + 0.3, a, order) : t.interpolate_lagrange(x[0] + 0.3, a, order); c.check(st != 0 || g_calls <= k, "failed_component_is_an_error", "%s: component %ld failed, status 0", tag.c_str(), k); }
  g_fail_at = -1;
  // regularise, then interpolate at a node: the tides are put back
  dso::EopLookUpTable r(t); r.regularize(); int k = (int)c.r.i(0, n - 1); double T0 = (x[k] - 51544.5) / 36525; dso::EopRecord a; memset(&a, 0, sizeof a);
  if (!c.check(r.interpolate(x[k], a, order) == 0, "inside_the_table", "%s", tag.c_str())) return;
  c.near(a.dut, P(3, x[k]) + ou(T0), tol, "regularize_and_interpolate", tag); c.near(a.lod, P(6, x[k]) + ol(T0), tol, "regularize_and_interpolate", tag);
  c.distinct(tag); if (c.idx < 2) c.sample(tag);
}
