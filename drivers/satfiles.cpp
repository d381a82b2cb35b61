// C22: satellite attitude (Jason quaternion files) and mass/centre-of-gravity histories.
#include <bits/stdc++.h>
#include "satellites/jason3_quaternions.hpp"
#include "satellites/cryosat2.hpp"
#include "vf.hpp"

// an internal helper: called directly while it is reachable, else through the file reader
__attribute__((weak)) int resolve_jason3_body_quaternion_line(const char *line, dso::JasonBodyQuaternion &record) noexcept;
namespace {
using Q = Eigen::Quaternion<double>;
void civil(long mjd, int &y, int &m, int &d) { long j = mjd + 2400001 + 68569, n = 4 * j / 146097; j -= (146097 * n + 3) / 4; long i = 4000 * (j + 1) / 1461001; j = j - 1461 * i / 4 + 31; long k = 80 * j / 2447; d = (int)(j - 2447 * k / 80); j = k / 11; m = (int)(k + 2 - 12 * j); y = (int)(100 * (n - 49) + i + j); }
double tai_utc(long mjd) { return mjd >= 57754 ? 37 : mjd >= 57204 ? 36 : mjd >= 56109 ? 35 : 34; }
struct Rec { long mjd; long ms; double q[4]; std::string text; double tai() const { return mjd + (ms / 1e3 + tai_utc(mjd)) / 86400; } };
std::string line_of(const Rec &r, vf::Rng &g) {
  int y, m, d; civil(r.mjd, y, m, d); long s = r.ms / 1000; std::string o = vf::fmt("%04d/%02d/%02d %02ld:%02ld:%02ld.%03ld\t", y, m, d, s / 3600, s / 60 % 60, s % 60, r.ms % 1000);
  o += vf::fmt("%10d\t", (int)g.i(0, 99999999)) + vf::fmt("%.12f", r.q[0]) + "\t"; for (int i = 1; i < 4; i++) o += vf::fmt("%4d\t%10d\t", (int)g.i(0, 9999), (int)g.i(0, 99999999)) + vf::fmt("%.12f", r.q[i]) + "\t"; return o; }
std::vector<Rec> make(vf::Rng &g, int n) {
  std::vector<Rec> v; long mjd = g.i(56200, 60000); long ms = g.i(0, 86399999); double q[4]; double s = 0; for (double &x : q) x = g.n(), s += x * x; for (double &x : q) x /= std::sqrt(s); if (g.p(0.2)) mjd = 57753, ms = 86000000 + g.i(0, 390000);
  for (int i = 0; i < n; i++) {
    Rec r; r.mjd = mjd; r.ms = ms; for (int k = 0; k < 4; k++) r.q[k] = std::stod(vf::fmt("%.12f", q[k])); r.text = line_of(r, g); v.push_back(r);
    ms += g.p(0.03) ? g.i(86400000, 400000000) : g.p(0.2) ? g.i(1000, 7200000) : 1000 * g.i(1, 60); while (ms >= 86400000) ms -= 86400000, mjd++;
    double a = g.p(0.1) ? 1.5 : g.p(0.2) ? 0 : g.p(0.15) ? g.logu(1e-6, 1e-3) : 1e-3 + 0.1 * g.u(), w[4]; s = 0; for (int k = 0; k < 4; k++) w[k] = q[k] + a * g.n(), s += w[k] * w[k]; double sg = g.p(0.2) ? -1 : 1; for (int k = 0; k < 4; k++) q[k] = sg * w[k] / std::sqrt(s); }
  return v; }
std::string render(const std::vector<Rec> &v, vf::Rng &g) { std::string t; for (size_t i = 0; i < v.size(); i++) { if (g.p(0.15)) for (long k = g.i(1, 3); k > 0; k--) t += g.p(0.2) ? "#\n" : "# comment line\n"; t += v[i].text + "\n"; } if (g.p(0.1)) t.pop_back(); return t; }
std::string put(vf::Ctx &c, const std::string &t, const char *nm) { std::string fn = c.scratch() + "/" + nm; std::ofstream(fn, std::ios::binary) << t; return fn; }
void unit(const double *q, long double *u) { long double s = 0; for (int i = 0; i < 4; i++) s += (long double)q[i] * q[i]; for (int i = 0; i < 4; i++) u[i] = q[i] / std::sqrt(s); }
// great-circle interpolation on the unit sphere, shortest way
void interp(const Rec &a, const Rec &b, double f, double *o) { long double u[4], v[4], d = 0; unit(a.q, u); unit(b.q, v); for (int i = 0; i < 4; i++) d += u[i] * v[i]; if (d < 0) { d = -d; for (auto &x : v) x = -x; }
  long double th = std::acos(std::min<long double>(1, d)), s0, s1; if (th < 1e-6L) s0 = 1 - f, s1 = f; else s0 = std::sin((1 - f) * th) / std::sin(th), s1 = std::sin(f * th) / std::sin(th); long double n = 0, r[4]; for (int i = 0; i < 4; i++) r[i] = s0 * u[i] + s1 * v[i], n += r[i] * r[i]; for (int i = 0; i < 4; i++) o[i] = (double)(r[i] / std::sqrt(n)); }
void expect(vf::Ctx &c, const Q &q, const std::vector<Rec> &v, double t, const std::string &hist) {
  size_t k = 0; while (k + 2 < v.size() && v[k + 1].tai() <= t) k++; double dt = v[k + 1].tai() - v[k].tai(), f = (t - v[k].tai()) / dt, w[4]; interp(v[k], v[k + 1], std::min(1.0, std::max(0.0, f)), w);
  double g[4] = {q.w(), q.x(), q.y(), q.z()}, p = 0, m = 0, n = 0; for (int i = 0; i < 4; i++) p = std::max(p, std::fabs(g[i] - w[i])), m = std::max(m, std::fabs(g[i] + w[i])), n += g[i] * g[i];
  c.check(vf::defined_mem(g, sizeof g), "quat_undefined", "%s", hist.c_str()); c.check(std::fabs(n - 1) < 1e-12, "quat_norm", "|q|^2=%.17g", n);
  double tol = 1e-9 + 3.2 * 3e-11 / dt; c.check(std::min(p, m) <= tol, "quat_value", "q=(%.12f %.12f %.12f %.12f), expected +-(%.12f %.12f %.12f %.12f) at t=%.12f (record %zu + %.6f of %.3f s) after %s", g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3], t, k, f, dt * 86400, hist.c_str()); c.event("attitudes"); }
} // namespace

VF_GROUP(quaternions, 400, 30000) {
  int n = (int)c.r.i(2, 40); auto v = make(c.r, n); std::string fn = put(c, render(v, c.r), "q.txt"), hist; dso::JasonQuaternionHunter *h = nullptr; void *mem = ::operator new(sizeof(dso::JasonQuaternionHunter)); std::memset(mem, 0xA5, sizeof(dso::JasonQuaternionHunter));
  try { h = new (mem) dso::JasonQuaternionHunter(fn.c_str()); } catch (const std::exception &e) { c.viol("quat_file_refused", e.what()); ::operator delete(mem); return; }
  double first = v[0].tai(), last = v[n - 1].tai(), t = first, reach = v[1].tai(); bool dead = false;
  if (c.r.p(0.2)) { Q q; int rc = h->get_at(first - 1e-4 - c.r.u(), q); c.check(rc != 0, "quat_before_accepted", "rc=%d", rc); c.event("outside"); }
  for (int k = 0; k < 30; k++) {
    switch (c.r.i(0, 6)) { case 0: { int j = 0; while (j < n && v[j].tai() < t) j++; if (j < n) t = v[j].tai(); break; } // exactly at a record
      case 1: t += (c.r.u() * 3) * (last - first) / n; break; case 2: t = std::min(t + 1e-9, last); break; case 3: break; case 4: { int j = 0; while (j < n && v[j].tai() <= t) j++; if (j < n) t = std::nextafter(v[j].tai(), 0.0) >= t ? std::nextafter(v[j].tai(), 0.0) : t; break; } default: t += c.r.u() * (last - first) / 30; }
    if (t > last && !c.r.p(0.15)) t = last; Q q; int rc = h->get_at(t, q); hist += vf::fmt("%.9f:%d ", t - first, rc);
    if (t > last) { c.check(rc != 0, "quat_after_accepted", "%s (span %.9f)", hist.c_str(), last - first); c.event("outside"); t = last; // still usable at the last record
    } else { c.check(rc == 0, "quat_refused", "%s (span %.9f)", hist.c_str(), last - first); if (!rc) expect(c, q, v, t, hist); reach = std::max(reach, t); }
    // going back: the record may have left the buffer (error), but a returned value must be right
    if (c.r.p(0.15)) { double b = first + c.r.u() * (t - first); if (c.r.p(0.5)) { int j = 0; while (j < n && v[j].tai() <= t) j++; j -= (int)c.r.i(1, 5); if (j >= 0) b = v[j].tai(); } Q q2; int r2 = h->get_at(b, q2); hist += vf::fmt("<%.9f:%d ", b - first, r2); if (!r2) expect(c, q2, v, b, hist); else c.event("back_refused"); } }
  (void)dead; h->~JasonQuaternionHunter(); ::operator delete(mem); c.distinct(hist);
}
VF_GROUP(quat_nan, 1, 1) { auto v = make(c.r, 12); std::string fn = put(c, render(v, c.r), "q.txt"); for (double t : {(double)NAN, (double)INFINITY, -(double)INFINITY, 0.0}) { dso::JasonQuaternionHunter h(fn.c_str()); Q q; c.check(h.get_at(t, q) != 0, "quat_nan", "t=%g", t); c.event("outside"); } c.distinct("nan"); }
VF_GROUP(quat_line, 600, 40000) {
  auto v = make(c.r, 1); std::string s = v[0].text; int kind = (int)c.r.i(0, 7); bool bad = false;
  std::vector<std::string> f; { std::stringstream ss(s); std::string w; while (std::getline(ss, w, '\t')) f.push_back(w); }
  static const int QC[] = {2, 5, 8, 11}; int u = QC[c.r.i(0, 3)]; auto join = [&] { std::string o; for (auto &x : f) o += x + "\t"; return o; };
  switch (kind) { case 0: s = s.substr(0, (size_t)c.r.i(0, (long)s.size() - 1)); bad = true; break; case 1: f[u] = ""; s = join(); bad = true; break; case 2: f[u] = (c.r.p(0.5) ? "x" : "") + f[u] + (c.r.p(0.5) ? "z" : "?"); s = join(); bad = true; break;
    case 3: { static const char *D[] = {"2021/13/01 00:00:00.000", "2021/02/30 00:00:00.000", "hello", "2021/01/01            ", "                       "}; f[0] = D[c.r.i(0, 4)]; s = join(); bad = true; break; } default: break; }
  char *e = new char[s.size() + 1]; std::memcpy(e, s.c_str(), s.size() + 1); dso::JasonBodyQuaternion r; int rc; if (resolve_jason3_body_quaternion_line && c.idx % 4) rc = resolve_jason3_body_quaternion_line(e, r); else { dso::JasonBodyQuaternionFile in(put(c, s + "\n", "line.txt").c_str()); rc = in.get_next(r); }
  if (bad) { c.check(rc != 0, "quat_line_accepted", "kind %d: '%s'", kind, s.c_str()); c.event("damaged_refused"); }
  else { c.check(rc == 0, "quat_line_refused", "%s", s.c_str()); if (!rc) { c.check(r.quaternion.w() == v[0].q[0] && r.quaternion.x() == v[0].q[1] && r.quaternion.y() == v[0].q[2] && r.quaternion.z() == v[0].q[3], "quat_line_value", "%.17g %.17g %.17g %.17g from %s", r.quaternion.w(), r.quaternion.x(), r.quaternion.y(), r.quaternion.z(), s.c_str()); c.near(r.tai_mjd, v[0].tai(), 3e-11, "quat_line_epoch", s.c_str()); c.event("lines"); } }
  delete[] e; c.distinct(vf::fmt("%d/%d/%d", kind, u, (int)(vf::fnv(s.data(), s.size()) & 1023)));
}
VF_GROUP(quat_files, 200, 8000) { // damage: the records before it stay usable, anything beyond is an error
  int n = (int)c.r.i(0, 12); auto v = make(c.r, n); int kind = (int)c.r.i(0, 3); size_t cut = n; std::vector<std::string> L; for (auto &r : v) L.push_back(r.text);
  if (n) { size_t k = (size_t)c.r.i(0, n - 1); cut = k; switch (kind) { case 0: L[k] = L[k].substr(0, (size_t)c.r.i(0, (long)L[k].size() - 1)); L.resize(k + 1); break; case 1: L[k] = "garbage " + L[k]; break; case 2: if (k == 0) cut = n; else L[k] = L[k - 1]; break; default: cut = n; } }
  std::string t; for (auto &l : L) t += l + "\n"; if (kind == 0 && n) t.pop_back(); std::string fn = put(c, t, "q.txt"); if (n == 0 && c.r.p(0.5)) fn += ".none";
  bool threw = false; dso::JasonQuaternionHunter *h = nullptr; try { h = new dso::JasonQuaternionHunter(fn.c_str()); } catch (const std::exception &) { threw = true; }
  c.check(threw == (cut < 2), cut < 2 ? "quat_bad_file" : "quat_file_refused", "%zu good records of %d, kind %d", cut, n, kind); c.event(threw ? "damaged_refused" : "files");
  if (h) { std::string hist; for (size_t k = 0; k + 1 < cut; k++) { double e = v[k].tai() + c.r.u() * (v[k + 1].tai() - v[k].tai()); Q q; int rc = h->get_at(e, q); hist += vf::fmt("%zu:%d ", k, rc); c.check(rc == 0, "quat_refused", "%s", hist.c_str()); if (!rc) { std::vector<Rec> g(v.begin(), v.begin() + cut); expect(c, q, g, e, hist); } }
    Q q; int rc = h->get_at(v[cut - 1].tai() + 1e-3, q); c.check(rc != 0, "quat_after_accepted", "%zu good records of %d, kind %d", cut, n, kind); delete h; }
  c.distinct(vf::fmt("%d/%zu/%d", n, cut, kind));
}
// ---- mass and centre of gravity
namespace {
struct Cor { long mjd; double sec; double v[4]; std::string text; };
template <class S> void sat(vf::Ctx &c, const char *fn, const dso::datetime<dso::nanoseconds> &t, const double *w, double m0, const double *cg0) { double m; Eigen::Matrix<double, 3, 1> cg; int rc = S::mass_cog(t, fn, m, cg); c.check(rc == 0 && m == m0 + w[0] && cg(0) == cg0[0] + w[1] && cg(1) == cg0[1] + w[2] && cg(2) == cg0[2] + w[3], "cog_satellite", "rc=%d mass=%.17g cog=(%.17g %.17g %.17g)", rc, m, cg(0), cg(1), cg(2)); }
}
VF_GROUP(corrections, 500, 30000) {
  int n = (int)c.r.i(0, 15); std::vector<Cor> v; long mjd = c.r.i(50000, 60000); double sec = 0; std::string t; bool crlf = c.r.p(0.1); const char *nl = crlf ? "\r\n" : "\n";
  t += vf::fmt("C DORIS satellite mass history%s/ second comment style 1 2 3%s", nl, nl); if (c.r.p(0.3)) t += nl;
  for (int i = 0; i < n; i++) { Cor r; mjd += c.r.i(0, 60); sec = (v.size() && v.back().mjd == mjd) ? std::min(86399.0, v.back().sec + c.r.i(1, 3000)) : (double)c.r.i(0, 86399); if (c.r.p(0.3) && sec < 86399) sec += c.r.i(1, 7) / 8.0; if (v.size() && v.back().mjd == mjd && sec <= v.back().sec) mjd++, sec = 0; r.mjd = mjd; r.sec = sec;
    std::string nums; for (int k = 0; k < 4; k++) { std::string s = vf::fmt(k ? "%.4f" : "%.3f", (k ? 0.05 : 30) * (2 * c.r.u() - 1)); r.v[k] = std::stod(s); nums += vf::fmt(c.r.p(0.2) ? "\t%s" : " %8s", s.c_str()); }
    r.text = vf::fmt("%s%.1f %s", c.r.p(0.5) ? "  " : "", mjd + 2400000.5, vf::fmt("%.3f", sec).c_str()) + nums + (c.r.p(0.2) ? "   " : ""); v.push_back(r); t += r.text + nl; if (c.r.p(0.1)) t += std::string("C interleaved comment") + nl; }
  if (c.r.p(0.2) && t.size()) t.pop_back(); int kind = (int)c.r.i(0, 9), bad = -1; // damage one record
  if (kind == 0 && n) { bad = (int)c.r.i(0, n - 1); std::string s = v[bad].text, w; int how = (int)c.r.i(0, 3); std::vector<std::string> f; { std::stringstream ss(s); while (ss >> w) f.push_back(w); } int u = (int)c.r.i(0, 5);
    if (how == 0) f.resize(u + 0); else if (how == 1) f[u] = "?" + f[u]; else if (how == 2) f[u] += "x"; else f[u] = "--1"; std::string o; for (auto &x : f) o += x + " "; if (how == 0 && u == 0) o = "what"; size_t at = t.find(s); t.replace(at, s.size(), o); }
  if (kind == 1 && n) { bad = (int)c.r.i(0, n - 1); size_t at = t.find(v[bad].text); t.insert(at, std::string(300, ' ')); } // over-long line
  std::string fn = put(c, t, "mass.txt");
  for (int q = 0; q < 8; q++) { long m; double s; if (n && c.r.p(0.6)) { auto &r = v[c.r.i(0, n - 1)]; m = r.mjd; s = r.sec + (double)c.r.i(-1, 1) * (c.r.p(0.4) ? 1 : c.r.p(0.4) ? 0.0625 : 1e-6); if (s < 0) s += 86400, m--; if (s >= 86400) s -= 86400, m++; } else { m = c.r.i(49990, 61000); s = 86399.0 * c.r.u(); }
    long ns = std::lround(s * 1e9); if (ns >= 86400000000000L) ns -= 86400000000000L, m++; dso::datetime<dso::nanoseconds> e{dso::modified_julian_day(m), dso::nanoseconds(ns)}; double w[4] = {0, 0, 0, 0}; int k = 0; for (; k < n; k++) { long d = (v[k].mjd - m) * 86400000000000L + std::lround(v[k].sec * 1e9) - ns; if (d > 0) break; for (int i = 0; i < 4; i++) w[i] = v[k].v[i]; }
    double g[4]; std::memset(g, 0xA5, sizeof g); int rc = dso::get_satellite_corrections(fn.c_str(), e, g); bool must_fail = bad >= 0 && bad <= k; // the record after the epoch ends the search
    if (must_fail && bad < n) { c.check(rc != 0, "cog_damage_accepted", "record %d of %d damaged, epoch after %d: %.4f %.4f", bad, n, k, g[0], g[1]); c.event("damaged_refused"); continue; }
    c.check(rc == 0, "cog_refused", "rc=%d, %d records, epoch %ld %.6f", rc, n, m, s); if (rc) continue;
    c.check(vf::defined_mem(g, sizeof g) && g[0] == w[0] && g[1] == w[1] && g[2] == w[2] && g[3] == w[3], "cog_value", "%.17g %.17g %.17g %.17g, expected %g %g %g %g at %ld %.9f (after record %d of %d)", g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3], m, s, k, n); c.event("corrections");
    static const double J[3] = {1.0023, 0, -0.0021}, C2[3] = {1.6312, 0.0112, 0.0137}; sat<dso::SatelliteInfo<dso::SATELLITE::Jason3>>(c, fn.c_str(), e, w, 509.6, J); sat<dso::SatelliteInfo<dso::SATELLITE::Cryosat2>>(c, fn.c_str(), e, w, 724.6, C2); }
  if (c.r.p(0.1)) { double g[4]; dso::datetime<dso::nanoseconds> e{dso::modified_julian_day(55000), dso::nanoseconds(0)}; c.check(dso::get_satellite_corrections((fn + ".none").c_str(), e, g) != 0, "cog_missing_file", "accepted"); double m = -1; Eigen::Matrix<double, 3, 1> cg; c.check(dso::SatelliteInfo<dso::SATELLITE::Jason3>::mass_cog(e, (fn + ".none").c_str(), m, cg) != 0, "cog_missing_file", "accepted by mass_cog"); }
  c.distinct(vf::fmt("%d/%d/%d/%d", n, kind, bad, (int)(mjd & 1023)));
}
VF_GROUP(satellite_constants, 1, 1) { // macro-model: unit normals, opposite panels, coefficients of one surface sum to one; phase centres
  using MM = dso::MacroModel<dso::SATELLITE::Jason3>; for (int i = 0; i < MM::NumPlates; i++) { const auto &p = MM::mmcomponents[i]; double n = 0, o = 0, r = 0; for (int k = 0; k < 3; k++) n += p.m_normal[k] * p.m_normal[k], o += p.m_optical_properties[k], r += p.m_infrared_properties[k]; c.near(n, 1, 1e-15, "macro_normal", vf::fmt("plate %d", i)); c.near(o, 1, 2.5e-3, "macro_optical", vf::fmt("plate %d", i)); c.near(r, 1, 2.5e-3, "macro_infrared", vf::fmt("plate %d", i));
    static const double A[8] = {0.783, 0.783, 2.04, 2.04, 3.105, 3.105, 9.8, 9.8}; c.check(p.m_surf == A[i], "macro_area", "plate %d: %g", i, p.m_surf); c.event("plates"); }
  Eigen::Matrix<double, 3, 1> a, b; dso::SatelliteInfo<dso::SATELLITE::Jason3>::pco(a, b); c.check(a(0) == 2.4128 && a(1) == -0.1325 && a(2) == 0.9235 && b(0) == 2.4128 && b(1) == -0.1325 && b(2) == 0.7555, "sat_pco", "Jason-3"); dso::SatelliteInfo<dso::SATELLITE::Cryosat2>::pco(a, b); c.check(a(0) == 1.848 && a(1) == -0.2 && a(2) == -0.751 && b(0) == 1.832 && b(1) == -0.2 && b(2) == -0.598, "sat_pco", "Cryosat-2"); c.distinct("constants"); }
