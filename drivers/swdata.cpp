// C20: CelesTrak space-weather files and the atmosphere-model input assembled from them.
#include <bits/stdc++.h>
#include "atmosphere/nrlmsise00.hpp"
#include "var/celestrak.hpp"
#include "vf.hpp"

namespace {
namespace ct = dso::utils::celestrak::details;
using MJD = dso::modified_julian_day;
using Feed = dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW>;
const char *HEAD = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
void civil(long mjd, int &y, int &m, int &d) { long j = mjd + 2400001 + 68569, n = 4 * j / 146097; j -= (146097 * n + 3) / 4; long i = 4000 * (j + 1) / 1461001; j = j - 1461 * i / 4 + 31; long k = 80 * j / 2447; d = (int)(j - 2447 * k / 80); j = k / 11; m = (int)(k + 2 - 12 * j); y = (int)(100 * (n - 49) + i + j); }
int doy_of(long mjd) { int y, m, d; civil(mjd, y, m, d); static const int b[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; return b[m - 1] + d + (m > 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); }
struct Day { long mjd; int ap[8]; double avg, obs, adj, c81, l81, ac81, al81; std::string type, text; };
struct File { std::vector<Day> d; std::string text; const Day *at(long m) const { for (auto &x : d) if (x.mjd == m) return &x; return nullptr; } };
double one(vf::Rng &r, double lo, double hi) { return std::stod(vf::fmt("%.1f", lo + (hi - lo) * r.u())); }
Day make_day(vf::Rng &r, long mjd) {
  Day x; x.mjd = mjd; int y, m, d; civil(mjd, y, m, d); std::string s = vf::fmt("%04d-%02d-%02d,%ld,%d", y, m, d, 2000 + mjd / 27 % 1000, (int)r.i(1, 27));
  for (int i = 0; i < 8; i++) s += vf::fmt(",%d", (int)r.i(0, 90)); s += vf::fmt(",%d", (int)r.i(0, 700));
  for (int &a : x.ap) { a = (int)r.i(0, r.p(0.1) ? 400 : 60); s += vf::fmt(",%d", a); }
  x.avg = (double)r.i(0, 200); s += vf::fmt(",%d,%.1f,%d,%d", (int)x.avg, 2.5 * r.u(), (int)r.i(0, 9), (int)r.i(0, 300));
  x.obs = one(r, 60, 350); x.adj = one(r, 60, 350); x.c81 = one(r, 60, 300); x.l81 = one(r, 60, 300); x.ac81 = one(r, 60, 300); x.al81 = one(r, 60, 300);
  static const char *T[] = {"OBS", "INT", "PRD", "PRM"}; x.type = T[r.i(0, 3)];
  x.text = s + vf::fmt(",%.1f,%.1f,%s,%.1f,%.1f,%.1f,%.1f", x.obs, x.adj, x.type.c_str(), x.c81, x.l81, x.ac81, x.al81); return x; }
File make_file(vf::Rng &r, int lo, int hi) { File f; long m0 = r.p(0.3) ? 59575 + r.i(0, 5) : r.p(0.2) ? r.pick({51603L, 58908L, 60369L, 59638L, 51909L, 51543L}) - r.i(0, 12) : r.i(40000, 64000);  int n = (int)r.i(lo, hi); for (int i = 0; i < n; i++) f.d.push_back(make_day(r, m0 + i)); return f; }
void render(File &f, vf::Rng &r, bool crlf = false) { f.text = std::string(HEAD) + (crlf ? "\r\n" : "\n"); for (size_t i = 0; i < f.d.size(); i++) { f.text += f.d[i].text + (crlf ? "\r\n" : "\n"); } if (r.p(0.2)) f.text.pop_back(); }
std::string put(vf::Ctx &c, const std::string &t, const char *nm = "sw.csv") { std::string fn = c.scratch() + "/" + nm; std::ofstream(fn, std::ios::binary) << t; return fn; }
void same_day(vf::Ctx &c, const ct::CelestTrakSWFlux &g, const Day &w, const char *key) {
  c.check(vf::defined_mem(&g.mjd_, sizeof g.mjd_) && vf::defined_mem(g.ApIndexes, sizeof g.ApIndexes), key, "undefined fields");
  bool ok = (long)g.mjd_.as_underlying_type() == w.mjd && g.f107Obs == w.obs && g.f107Adj == w.adj && g.f107ObsC81 == w.c81 && g.f107ObsL81 == w.l81 && g.f107AdjC81 == w.ac81 && g.ApDailyAverage == w.avg && w.type == g.flag;
  for (int i = 0; i < 8; i++) ok = ok && g.ApIndexes[i] == w.ap[i];
  c.check(ok, key, "day %ld read as mjd=%ld obs=%g adj=%g c81=%g l81=%g ac81=%g avg=%g flag=%s ap=%d,%d,%d,%d,%d,%d,%d,%d from %s", w.mjd, (long)g.mjd_.as_underlying_type(), g.f107Obs, g.f107Adj, g.f107ObsC81, g.f107ObsL81, g.f107AdjC81, g.ApDailyAverage, g.flag,
    g.ApIndexes[0], g.ApIndexes[1], g.ApIndexes[2], g.ApIndexes[3], g.ApIndexes[4], g.ApIndexes[5], g.ApIndexes[6], g.ApIndexes[7], w.text.c_str()); c.event("days_read"); }
// the inputs the model must receive for day m, slot k
void same_input(vf::Ctx &c, const dso::nrlmsise00::detail::InParamsCore &p, const File &f, long m, double sec, const char *key, const std::string &hist) {
  int k = (int)(std::floor(sec * 1e3 + 1e-6) / 1e3 / 10800); const Day *d[4]; for (int i = 0; i < 4; i++) d[i] = f.at(m - i); double want[10]; auto slot = [&](int q) { int b = 0; while (q < 0) q += 8, b++; return d[b]->ap[q]; };
  want[0] = d[0]->avg; for (int i = 0; i < 4; i++) want[1 + i] = slot(k - i); double s = 0, t = 0; for (int i = 4; i < 12; i++) s += slot(k - i), t += slot(k - 8 - i); want[5] = s / 8; want[6] = t / 8; want[7] = d[0]->avg; want[8] = d[1]->obs; want[9] = d[0]->c81;
  double got[10]; for (int i = 0; i < 7; i++) got[i] = p.aparr.a[i]; got[7] = p.ap; got[8] = p.f107; got[9] = p.f107A; static const char *NM[] = {"ap[0]", "ap[1]", "ap[2]", "ap[3]", "ap[4]", "ap[5]", "ap[6]", "ap", "f107", "f107A"};
  for (int i = 0; i < 10; i++) c.check(got[i] == want[i], key, "%s=%.17g, expected %.17g on day %ld sec %.17g (slot %d) after %s", NM[i], got[i], want[i], m, sec, k, hist.c_str());
  int y, mo, dd; civil(m, y, mo, dd); c.check(p.year == y && p.doy == doy_of(m) && std::fabs(p.sec - sec) < 2e-3, key, "date %d/%d/%.6f for mjd %ld sec %.6f", p.year, p.doy, p.sec, m, sec); c.event("inputs_assembled"); }
double sec_of(vf::Rng &r) { double b = 10800.0 * r.i(0, 7); switch (r.i(0, 5)) { case 0: return b; case 1: return b > 0 ? b - 0.001 : 86399.999; case 2: return b + 0.001; case 3: return 86399.999; default: return std::floor(86400e3 * r.u()) / 1e3; } }
} // namespace

// one CSV line to one record
VF_GROUP(line, 800, 60000) {
  Day d = make_day(c.r, c.r.p(0.05) ? c.r.pick({51603L, 58908L, 60369L, 59638L, 51543L}) : c.r.i(40000, 64000)); std::string s = d.text; int kind = (int)c.r.i(0, 12); bool bad = false;
  std::vector<std::string> col; { std::stringstream ss(s); std::string w; while (std::getline(ss, w, ',')) col.push_back(w); }
  auto join = [&] { std::string o; for (size_t i = 0; i < col.size(); i++) o += (i ? "," : "") + col[i]; return o; };
  static const int USED[] = {12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 27, 28, 29}; int u = USED[c.r.i(0, 13)];
  switch (kind) {
    case 0: { size_t need = 0; for (int i = 0; i < 30; i++) need += col[i].size() + 1; s = s.substr(0, (size_t)c.r.i(0, (long)need - 1)); bad = true; break; } // cut inside the needed columns
    case 1: col[u] = ""; s = join(); bad = true; break;
    case 2: col[u] = c.r.p(0.5) ? "x" + col[u] : col[u] + "x"; s = join(); bad = true; break;
    case 3: { static const char *D[] = {"2021-13-01", "2021-00-10", "2021-02-29", "2020-02-30", "2100-02-29", "2000-02-30", "2021-04-31", "2021-01-00", "2021-01-32", "2021/01/02", "21-01-02  ", "2021-1-002", "abcd-01-02", "2021-0a-02", "2021-01-0b", "", "2021-01-"}; col[0] = D[c.r.i(0, 16)]; s = join(); bad = true; break; }
    case 4: { for (int i : {1, 2, 5, 11, 21, 22, 23}) if (c.r.p(0.4)) col[i] = ""; s = join(); break; } // unused columns may be empty
    case 5: s += "\r"; break;
    case 6: col[12 + c.r.i(0, 7)] += ".5"; s = join(); bad = true; break;
    case 7: { col.erase(col.begin() + c.r.i(1, 11)); s = join(); bad = col.size() < 31; break; } // shifted columns
    default: break; }
  char *exact = new char[s.size() + 1]; std::memcpy(exact, s.c_str(), s.size() + 1); ct::CelestTrakSWFlux g; std::memset(g.flag, 0, sizeof g.flag); int rc = ct::resolve_csv_line_records(exact, g);
  if (bad) { if (kind == 7) { if (rc) c.event("damaged_refused"); else c.event("shift_undetectable"); } else { c.check(rc != 0, "sw_line_accepted", "kind %d: %s", kind, s.c_str()); c.event("damaged_refused"); } }
  else { c.check(rc == 0, "sw_line_refused", "rc=%d kind %d: %s", rc, kind, s.c_str()); if (!rc) same_day(c, g, d, "sw_line"); }
  MJD m; int r2 = ct::resolve_csv_line_date(exact, m); if (kind != 3 && kind != 0) c.check(r2 == 0 && (long)m.as_underlying_type() == d.mjd, "sw_date", "rc=%d: %s", r2, s.c_str()); if (kind == 3) c.check(r2 != 0, "sw_date_accepted", "%s", s.c_str());
  delete[] exact; c.distinct(vf::fmt("%d/%d/%d", kind, u, (int)(vf::fnv(s.data(), s.size()) & 1023)));
}
// ranges of days from a file, from any earlier file position
VF_GROUP(ranges, 250, 20000) {
  File f = make_file(c.r, 1, 25); bool crlf = c.r.p(0.1); int n = (int)f.d.size(); int damage = (int)c.r.i(0, 9); long bad = -1; std::string why = "intact";
  if (damage == 0 && n > 2) { int k = (int)c.r.i(1, n - 2); bad = f.d[k].mjd; f.d.erase(f.d.begin() + k); why = "missing day"; }
  else if (damage == 1 && n > 2) { int k = (int)c.r.i(1, n - 1); bad = f.d[k].mjd; f.d[k].text = f.d[k].text.substr(0, (size_t)c.r.i(0, 80)); why = "cut line"; }
  else if (damage == 2 && n > 3) { int k = (int)c.r.i(1, n - 2); bad = f.d[k].mjd; std::swap(f.d[k], f.d[k + 1]); why = "swapped days"; }
  render(f, c.r, crlf); std::string fn = put(c, f.text); std::ifstream::pos_type pos = 0; std::string hist; long first = f.d[0].mjd, last = first + n - 1;
  for (int q = 0; q < 8; q++) {
    long m = c.r.i(first - 3, last + 3); int b = (int)c.r.i(0, 4), a = (int)c.r.i(0, 3), len = b + a + 1; std::vector<ct::CelestTrakSWFlux> g(len); if (c.r.p(0.2)) pos = 0; long p0 = (long)pos;
    int rc = ct::parse_csv_for_date(MJD(m), fn.c_str(), g.data(), pos, b, a); bool in = m - b >= first && m + a <= last; hist += vf::fmt("%ld-%d+%d:%d ", m - first, b, a, rc);
    bool touch = bad >= 0 && m + a >= bad; bool over = touch && m - b <= bad + (why == "swapped days" ? 1 : 0);
    if (!in) c.check(rc != 0, "sw_range_accepted", "%s in file of %d days (%s, from position %ld)", hist.c_str(), n, why.c_str(), p0);
    else if (over && !(len == 1 && why == "swapped days")) c.check(rc != 0, "sw_damage_accepted", "%s: day %ld, %s", hist.c_str(), bad - first, why.c_str());
    else if (!touch && (bad < 0 || !p0)) c.check(rc == 0, "sw_range_refused", "%s in file of %d days (%s at %ld, from position %ld)", hist.c_str(), n, why.c_str(), bad - first, p0);
    if (!rc) { for (int i = 0; i < len; i++) { const Day *d = f.at(m - b + i); if (d) same_day(c, g[i], *d, "sw_range"); else c.viol("sw_range", "returned a day the file does not have: " + hist); } }
    c.event("ranges"); }
  c.distinct(vf::fmt("%d/%s/%s", n, why.c_str(), hist.c_str()));
}
VF_GROUP(badfiles, 40, 1000) {
  File f = make_file(c.r, 6, 10); render(f, c.r); int kind = (int)c.r.i(0, 4); std::string t = f.text, fn;
  if (kind == 0) t = t.substr(t.find('\n') + 1); if (kind == 1) t[(size_t)c.r.i(0, (long)std::strlen(HEAD) - 1)] ^= 1; if (kind == 2) t = ""; if (kind == 3) t = std::string(HEAD) + "\n"; fn = put(c, t); if (kind == 4) fn += ".none";
  std::ifstream::pos_type pos = 0; ct::CelestTrakSWFlux g[5]; int rc = ct::parse_csv_for_date(MJD(f.d[4].mjd), fn.c_str(), g, pos, 4, 0); c.check(rc != 0, "sw_bad_file", "kind %d", kind);
  bool threw = false; try { Feed p(fn.c_str(), MJD(f.d[4].mjd), 0); } catch (const std::exception &) { threw = true; } c.check(threw, "sw_bad_file_feed", "kind %d", kind); c.event("damaged_refused"); c.distinct(vf::fmt("%d/%d", kind, (int)f.d.size()));
}
// the input assembled by a feed after any sequence of requests
VF_GROUP(feed, 250, 20000) {
  File f = make_file(c.r, 5, 30); render(f, c.r, c.r.p(0.1)); long sub = c.r.i(0, 1); std::string fn; if (sub) { std::filesystem::create_directories(c.scratch() + "/d"); fn = put(c, f.text, "d/space-weather.csv"); } else fn = put(c, f.text);
  int n = (int)f.d.size(); long first = f.d[0].mjd, last = first + n - 1, m = c.r.i(first + 3, last); double s = sec_of(c.r); std::string hist = vf::fmt("start %ld %.3f;", m - first, s);
  bool threw = false; if (c.r.p(0.15)) { try { Feed q(fn.c_str(), MJD(c.r.p(0.5) ? first + c.r.i(-5, 2) : last + c.r.i(1, 5)), s); } catch (const std::exception &) { threw = true; } c.check(threw, "sw_feed_uncovered", "file of %d days", n); }
  Feed *p = nullptr; try { p = new Feed(fn.c_str(), MJD(m), s); } catch (const std::exception &) { c.viol("sw_feed_refused", hist); return; }
  same_input(c, p->params_, f, m, s, "sw_feed_start", hist); bool prefix = true;
  for (int k = 0; k < 25; k++) {
    switch (c.r.i(0, 5)) { case 0: m++; s = sec_of(c.r); break; case 1: m = c.r.i(first - 2, last + 4); s = sec_of(c.r); break; case 2: m--; s = sec_of(c.r); break; default: s += c.r.p(0.5) ? 10800 : std::floor(1e3 * c.r.u() * 20000) / 1e3; }
    while (s >= 86400) s -= 86400, m++; s = std::floor(s * 1e3 + 1e-6) / 1e3; double ask = s; long am = m; if (c.r.p(0.1)) { ask = s + 86400; am = m - 1; } // the same instant counted from the day before
    auto before = p->params_; int rc = p->update_params((int)am, ask); hist += vf::fmt(" %ld:%.3f=%d", m - first, ask, rc); bool in = m >= first + 3 && m <= last;
    c.check((rc == 0) == in, in ? "sw_feed_update_refused" : "sw_feed_update_accepted", "%s (file of %d days)", hist.c_str(), n); if (rc == 0 && in) same_input(c, p->params_, f, m, s, "sw_feed_update", hist);
    if (rc) { bool same = p->params_.f107 == before.f107 && p->params_.f107A == before.f107A && p->params_.ap == before.ap && !std::memcmp(p->params_.aparr.a, before.aparr.a, sizeof before.aparr.a); c.check(same, "sw_failed_update_changed_input", "%s", hist.c_str()); c.event("refused_updates"); m = c.r.i(first + 3, last); s = sec_of(c.r); prefix = false; }
    if (rc == 0 && c.r.p(0.1)) { Feed q(fn.c_str(), MJD(m), s); c.check(!std::memcmp(q.params_.aparr.a, p->params_.aparr.a, sizeof q.params_.aparr.a) && q.params_.f107 == p->params_.f107, "sw_feed_history", "%s", hist.c_str()); } }
  delete p; c.distinct(hist); (void)prefix;
}
VF_GROUP(spatial, 200, 10000) { // position hand-over: degrees and kilometres
  static std::string fn; File f = make_file(c.r, 5, 6); render(f, c.r); fn = put(c, f.text); Feed p(fn.c_str(), MJD(f.d[4].mjd), 0);
  for (int k = 0; k < 10; k++) { double lat = (c.r.u() - 0.5) * M_PI * 0.999, lon = (2 * c.r.u() - 1) * M_PI * 0.999, h = 1e6 * c.r.u(), a = 6378137, fl = 1 / 298.257222100882711, e2 = fl * (2 - fl), N = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
    Eigen::Matrix<double, 3, 1> x((N + h) * std::cos(lat) * std::cos(lon), (N + h) * std::cos(lat) * std::sin(lon), (N * (1 - e2) + h) * std::sin(lat)); p.set_spatial_from_cartesian(x);
    c.near(p.params_.glat, lat * 180 / M_PI, 1e-7, "sw_spatial", "latitude [deg]"); c.near(p.params_.glon, lon * 180 / M_PI, 1e-9, "sw_spatial", "longitude [deg]"); c.near(p.params_.alt, h / 1e3, 1e-5, "sw_spatial", "altitude [km]"); c.event("positions"); c.distinct(vf::fmt("%d/%d", (int)(lat * 20), (int)(lon * 20))); }
}
