// C14: RINEX headers; C15: RINEX data blocks; C16: relative frequency offset fits.
#include "doris_rinex.hpp"
#include "vf.hpp"
#include <array>
#include <memory>
#include <set>

namespace {
using Date = dso::datetime<dso::nanoseconds>;
using NS = dso::nanoseconds;
struct Code { std::string t; dso::ObservationType type; int freq; };
const Code ALL[] = {{"L1", dso::ObservationType::phase, 1}, {"L2", dso::ObservationType::phase, 2}, {"C1", dso::ObservationType::pseudorange, 1},
  {"C2", dso::ObservationType::pseudorange, 2}, {"W1", dso::ObservationType::power_level, 1}, {"W2", dso::ObservationType::power_level, 2},
  {"F", dso::ObservationType::frequency_offset, 0}, {"P", dso::ObservationType::ground_pressure, 0}, {"T", dso::ObservationType::ground_temperature, 0}, {"H", dso::ObservationType::ground_humidity, 0}};
struct Sta { std::string id, code, name, domes; int type, k; };
struct Line { std::string text, label; };
struct Value { std::string field; char f1 = ' ', f2 = ' '; double v = 0; bool missing = false; };
struct Beacon { std::string id; std::vector<Value> v; };
struct Epoch { long mjd, ns; int flag = 0; bool has_off = false; double off = 0; int offflag = 0; std::vector<Beacon> b; };
struct Rnx {
  std::string sat, cospar, chain, rtype, rver, version; std::vector<int> codes, factor;
  std::vector<Sta> sta; std::vector<int> refs; long first_mjd, first_ns, ref_mjd, ref_ns; std::string l12; double l12us = 0; int applied = -1;
  std::vector<Line> hdr; std::vector<Epoch> ep; std::string data; std::vector<size_t> epoch_at; // offset of each epoch in data
  bool trim = true;
};
Date date(long mjd, long ns) { return Date(dso::modified_julian_day(mjd), NS(ns)); }
std::string word(vf::Rng &r, int lo, int hi, bool spaces = false) {
  static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-./"; int n = (int)r.i(lo, hi); std::string s;
  for (int k = 0; k < n; k++) s += (spaces && k && k < n - 1 && r.p(0.15)) ? ' ' : a[r.i(0, (long)sizeof a - 2)];
  return s;
}
std::string pad(std::string s, size_t n) { s.resize(n, ' '); return s; }
std::string ymdhms(long mjd, long ns, const char *f) {
  int y, m, d; dso::core::mjd2cal(mjd, y, m, d); long h = ns / 3600000000000L, mi = ns / 60000000000L % 60, s = ns / 1000000000L % 60, frac = ns % 1000000000L;
  char b[128]; snprintf(b, sizeof b, f, y, m, d, (int)h, (int)mi, (int)s, frac); return b;
}
std::string codeslots(const std::vector<int> &c) { std::string s; for (int k : c) s += " " + pad(ALL[k].t, 3); return s; }
// ---- header
void make_header(vf::Rng &r, Rnx &x, bool needF = false) {
  x.version = r.pick({std::string("     3.00"), std::string("     3.01"), std::string("     2.00"), std::string("3.00")});
  x.sat = word(r, 1, r.p(0.1) ? 59 : 12, true); x.cospar = word(r, 1, r.p(0.2) ? 19 : 9); x.chain = word(r, 1, r.p(0.2) ? 19 : 6); x.rtype = word(r, 1, r.p(0.2) ? 19 : 4); x.rver = word(r, 1, r.p(0.2) ? 19 : 4);
  std::vector<int> perm = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  if (r.p(0.5)) for (int k = 9; k > 0; k--) std::swap(perm[k], perm[r.i(0, k)]);
  int n = r.p(0.4) ? 10 : (int)r.i(1, 10); x.codes.assign(perm.begin(), perm.begin() + n);
  if (needF) { bool has = false; for (int k : x.codes) has |= k == 6; if (!has) x.codes[r.i(0, n - 1)] = 6; }
  x.factor.assign(n, 1);
  auto L = [&](const std::string &t, const std::string &l) { x.hdr.push_back({pad(t, 60), l}); };
  L(pad(pad(x.version, 20) + "OBSERVATION DATA", 40) + "D", "RINEX VERSION / TYPE");
  L(pad(pad("EXPERTISE", 20) + "CNES", 40) + "20200102 000000 UTC", "PGM / RUN BY / DATE");
  std::vector<std::vector<Line>> blocks; // records of a block keep their order
  auto B = [&](std::vector<Line> v) { for (auto &l : v) l.text = pad(l.text, 60); blocks.push_back(v); };
  B({{x.sat, "SATELLITE NAME"}});
  if (r.p(0.9)) B({{x.cospar, "COSPAR NUMBER"}}); else x.cospar = "";
  if (r.p(0.9)) B({{"SPACEBORNE", "MARKER TYPE"}});
  if (r.p(0.9)) B({{pad("CNES", 20) + "SALP", "OBSERVER / AGENCY"}});
  if (r.p(0.9)) B({{pad(x.chain, 20) + pad(x.rtype, 20) + x.rver, "REC # / TYPE / VERS"}}); else x.chain = x.rtype = x.rver = "";
  if (r.p(0.9)) B({{pad("DORIS", 20) + "STAREC", "ANT # / TYPE"}});
  if (r.p(0.8)) B({{vf::fmt("%14.4f%14.4f%14.4f", r.n() * 5, r.n(), r.n()), "APPROX POSITION XYZ"}});
  if (r.p(0.8)) B({{vf::fmt("%14.4f%14.4f%14.4f", r.n() * 5, r.n(), r.n()), "CENTER OF MASS: XYZ"}});
  { std::vector<Line> v; v.push_back({vf::fmt("D  %3d", n) + codeslots(x.codes), "SYS / # / OBS TYPES"});
    int ns = r.p(0.25) ? 0 : (int)r.i(1, 3);
    for (int s = 0; s < ns; s++) {
      int f = r.pick({1, 10, 100, 1000, 1000, 2, 50, 9999});
      if (r.p(0.15)) { std::fill(x.factor.begin(), x.factor.end(), f); v.push_back({vf::fmt("D %4d", f), "SYS / SCALE FACTOR"}); continue; }
      std::vector<int> idx; for (int k = 0; k < n; k++) if (r.p(0.4)) idx.push_back(k);
      if (idx.empty()) idx.push_back((int)r.i(0, n - 1));
      for (size_t k = idx.size() - 1; k > 0; k--) std::swap(idx[k], idx[r.i(0, (long)k)]);
      std::vector<int> cc; for (int k : idx) { cc.push_back(x.codes[k]); x.factor[k] = f; }
      v.push_back({vf::fmt("D %4d  %2d", f, (int)cc.size()) + codeslots(cc), "SYS / SCALE FACTOR"});
    }
    B(v); }
  x.first_mjd = r.i(53000, 62000); x.first_ns = r.i(0, 86399999) * 1000000L;
  B({{ymdhms(x.first_mjd, x.first_ns, "%6d%6d%6d%6d%6d%3d.%09ld"), "TIME OF FIRST OBS"}}); blocks.back()[0].text = pad(blocks.back()[0].text.substr(0, 43), 48) + "DOR         ";
  if (r.p(0.85)) { x.l12 = r.p(0.1) ? vf::fmt("%14.3f", r.i(-200000, 200000) / 1000.0) : vf::fmt("%14.3f", r.i(-9999, 9999) / 1000.0); x.l12us = strtod(x.l12.c_str(), nullptr); B({{"D  " + x.l12, "L2 / L1 DATE OFFSET"}}); }
  if (r.p(0.6)) { x.applied = (int)r.i(0, 1); B({{vf::fmt("%6d", x.applied), "RCV CLOCK OFFS APPL"}}); }
  int m = r.p(0.2) ? (int)r.i(1, 3) : r.p(0.12) ? (int)r.i(99, 100) : (int)r.i(2, 60);
  { std::vector<Line> v; v.push_back({vf::fmt("%6d", m), "# OF STATIONS"});
    std::set<std::string> used; std::vector<int> num; for (int k = 1; k <= 100; k++) num.push_back(k % 100);
    if (r.p(0.4)) for (int k = 99; k > 0; k--) std::swap(num[k], num[r.i(0, k)]);
    for (int k = 0; k < m; k++) {
      Sta s; s.id = vf::fmt("D%02d", num[k]); do { s.code = word(r, 3, 3) + r.pick({"A", "B", "C"}); } while (!used.insert(s.code).second);
      s.name = word(r, 1, r.p(0.2) ? 29 : 14, true); s.domes = r.p(0.1) ? word(r, 1, 8) : vf::fmt("%05ldS%03ld", r.i(10000, 99999), r.i(1, 999)); s.type = (int)r.i(1, 4); s.k = r.p(0.5) ? 0 : (int)r.i(-21, 52);
      x.sta.push_back(s);
      v.push_back({s.id + "  " + s.code + " " + pad(s.name, 29) + " " + pad(s.domes, 9) + " " + vf::fmt(r.p(0.15) && s.k >= 0 ? "%1d %03d" : "%1d %3d", s.type, s.k), "STATION REFERENCE"});
    }
    int q = m > 1 && r.p(0.9) ? (int)r.i(1, std::min(m - 1, 5)) : 0;
    if (q) { v.push_back({vf::fmt("%6d", q), "# TIME REF STATIONS"}); std::vector<int> o; for (int k = 0; k < m; k++) o.push_back(k);
      for (int k = m - 1; k > 0; k--) std::swap(o[k], o[r.i(0, k)]);
      for (int k = 0; k < q; k++) { x.refs.push_back(o[k]); v.push_back({x.sta[o[k]].id + "  " + vf::fmt("%14.3f%14.3f", r.n(), r.n() * 10), "TIME REF STATION"}); } }
    B(v); }
  x.ref_mjd = x.first_mjd; x.ref_ns = r.p(0.8) ? 0 : r.i(0, 86399) * 1000000000L;
  B({{ymdhms(x.ref_mjd, x.ref_ns, "%6d%6d%6d%6d%6d%3d.%09ld"), "TIME REF STAT DATE"}}); blocks.back()[0].text = pad(blocks.back()[0].text.substr(0, 43), 60);
  if (r.p(0.4)) for (size_t k = blocks.size() - 1; k > 0; k--) std::swap(blocks[k], blocks[r.i(0, (long)k)]);
  for (auto &b : blocks) { if (r.p(0.1)) L(word(r, 0, 60, true), "COMMENT"); for (auto &l : b) x.hdr.push_back(l); }
  L("", "END OF HEADER"); x.trim = r.p(0.5);
}
std::string header_text(const Rnx &x) { std::string s; for (auto &l : x.hdr) s += l.text + (x.trim ? l.label : pad(l.label, 20)) + "\n"; return s; }
// ---- data
void put(vf::Rng &r, Value &v, std::string num) { if (num.size() > 14) num = num.substr(num.size() - 14, 14), num[0] = '1'; v.field = num; v.missing = false; v.v = strtod(num.c_str(), nullptr); if (v.v == 0) v.missing = true; (void)r; }
void make_data(vf::Rng &r, Rnx &x, int ne, int maxb) {
  long mjd = x.first_mjd, ns = x.first_ns;
  for (int e = 0; e < ne; e++) {
    Epoch p; p.mjd = mjd; p.ns = ns; p.flag = r.p(0.9) ? 0 : (int)r.i(0, 1); p.has_off = r.p(0.7);
    if (p.has_off) { p.off = strtod(vf::fmt("%13.9f", r.p(0.2) ? r.n() * 1e-6 : r.p(0.1) ? r.u() * 1099.0 - 99.5 : r.n() * 5).c_str(), nullptr); p.offflag = r.p(0.8) ? 0 : 1; }
    int nb = r.p(0.05) ? 0 : (int)r.i(1, std::min<long>(maxb, (long)x.sta.size())); if (maxb >= 100 && r.p(0.3)) nb = (int)x.sta.size(); std::vector<int> o; for (size_t k = 0; k < x.sta.size(); k++) o.push_back((int)k);
    for (int k = 0; k < nb; k++) { std::swap(o[k], o[r.i(k, (long)o.size() - 1)]); Beacon b; b.id = x.sta[o[k]].id;
      for (size_t q = 0; q < x.codes.size(); q++) { Value v; double u = r.u();
        if (u < 0.12) { v.missing = true; v.field = ""; } else if (u < 0.17) put(r, v, r.pick({std::string("0.000"), std::string("-0.000"), std::string("0.0")}));
        else put(r, v, u < 0.5 ? vf::fmt("%.5f", r.n() * 1e7) : vf::fmt("%.3f", r.n() * r.pick({1e0, 1e3, 1e6, 1e8})));
        if (r.p(0.5)) v.f1 = (char)('0' + r.i(0, 9)); if (r.p(0.5)) v.f2 = (char)('0' + r.i(0, 9));
        b.v.push_back(v); }
      p.b.push_back(b); }
    x.ep.push_back(p);
    ns += r.p(0.9) ? r.pick({3L, 7L, 10L}) * 1000000000L + r.i(-999999, 999999) : r.i(1, 5000) * 1000000000L; while (ns >= 86400000000000L) { ns -= 86400000000000L; mjd++; }
  }
}
std::string epoch_line(const Epoch &p, bool trim) {
  std::string s = ymdhms(p.mjd, p.ns, "> %4d %02d %02d %02d %02d%3d.%09ld") + vf::fmt("  %1d%3d", p.flag, (int)p.b.size());
  if (p.has_off) s += "      " + vf::fmt("%13.9f %1d", p.off, p.offflag);
  return trim ? s : pad(s, 59);
}
std::string block_text(vf::Rng &r, const Rnx &x, const Beacon &b) {
  std::string s, l;
  for (size_t q = 0; q < b.v.size(); q++) {
    if (q % 5 == 0) { if (q) { if (x.trim) while (!l.empty() && l.back() == ' ') l.pop_back(); s += l + "\n"; } l = q ? "   " : b.id; }
    l += pad(std::string(14 - b.v[q].field.size(), ' ') + b.v[q].field, 14) + b.v[q].f1 + b.v[q].f2;
  }
  if (x.trim || r.p(0.2)) while (!l.empty() && l.back() == ' ') l.pop_back();
  return s + l + "\n";
}
void render(vf::Rng &r, Rnx &x) { x.data.clear(); x.epoch_at.clear(); for (auto &p : x.ep) { x.epoch_at.push_back(x.data.size()); x.data += epoch_line(p, x.trim) + "\n"; for (auto &b : p.b) x.data += block_text(r, x, b); } }
std::string write(const std::string &dir, const std::string &name, const std::string &body) { std::string f = dir + "/" + name; FILE *o = fopen(f.c_str(), "wb"); fwrite(body.data(), 1, body.size(), o); fclose(o); return f; }
std::unique_ptr<dso::DorisObsRinex> open_rnx(const std::string &f) { try { errno = 0; return std::make_unique<dso::DorisObsRinex>(f.c_str()); } catch (std::exception &) { return nullptr; } }
struct Capture { // standard output to a file
  std::string file; int keep;
  explicit Capture(const std::string &f) : file(f) { fflush(stdout); keep = dup(1); int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd); }
  std::string stop() { fflush(stdout); dup2(keep, 1); close(keep); keep = -1; std::string s; FILE *i = fopen(file.c_str(), "rb"); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
};
bool has_line(const std::string &out, const std::string &l) { return ("\n" + out).find("\n" + l + "\n") != std::string::npos; }
std::string trimmed(const char *s, size_t n) { std::string o(s, strnlen(s, n)); while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
void compare_header(vf::Ctx &c, const Rnx &x, dso::DorisObsRinex &d, const char *what) {
  auto &oc = d.observation_codes(); bool ok = oc.size() == x.codes.size();
  for (size_t k = 0; ok && k < oc.size(); k++) ok = oc[k].m_type == ALL[x.codes[k]].type && oc[k].m_freq == ALL[x.codes[k]].freq;
  c.check(ok, "observation_codes", "%s: %zu codes, expected %zu, or other codes/order", what, oc.size(), x.codes.size());
  for (int k = 0; k < 10; k++) { int e = -1; for (size_t q = 0; q < x.codes.size(); q++) if (x.codes[q] == k) e = (int)q;
    int g = d.get_observation_code_index(dso::ObservationCode(ALL[k].type, (int_fast8_t)ALL[k].freq)); c.check(g == e, "code_index", "%s: index of %s: %d expected %d", what, ALL[k].t.c_str(), g, e); }
  c.check(d.time_of_first_obs() == date(x.first_mjd, x.first_ns), "time_of_first_obs", "%s: %.12f expected %.12f", what, d.time_of_first_obs().as_mjd(), date(x.first_mjd, x.first_ns).as_mjd());
  c.check(d.ref_datetime() == date(x.ref_mjd, x.ref_ns), "time_ref_stat_date", "%s: %.12f expected %.12f", what, d.ref_datetime().as_mjd(), date(x.ref_mjd, x.ref_ns).as_mjd());
  c.check(d.receiver_clock_offsets_applied() == (x.applied == 1), "clock_offsets_applied", "%s: %d for field %d", what, (int)d.receiver_clock_offsets_applied(), x.applied);
  long e12 = std::lround(x.l12us * 1e3); c.check(d.l21_date_offset().as_underlying_type() == e12, "l1l2_offset", "%s: %ld ns expected %ld (%s us)", what, d.l21_date_offset().as_underlying_type(), e12, x.l12.c_str());
  auto &st = d.stations(); c.check(st.size() == x.sta.size(), "station_count", "%s: %zu expected %zu", what, st.size(), x.sta.size());
  for (size_t k = 0; k < std::min(st.size(), x.sta.size()); k++) { auto &s = st[k]; auto &e = x.sta[k];
    c.check(!memcmp(s.m_internal_code, e.id.data(), 3) && !memcmp(s.m_station_id, e.code.data(), 4), "station_ids", "%s: station %zu: %.3s %.4s expected %s %s", what, k, s.m_internal_code, s.m_station_id, e.id.c_str(), e.code.c_str());
    c.check(std::string(s.m_station_name, strnlen(s.m_station_name, 30)) == e.name && std::string(s.m_station_domes, strnlen(s.m_station_domes, 10)) == e.domes, "station_name", "%s: station %zu: [%s][%s] expected [%s][%s]", what, k, trimmed(s.m_station_name, 30).c_str(), trimmed(s.m_station_domes, 10).c_str(), e.name.c_str(), e.domes.c_str());
    c.check(s.m_type == e.type && s.m_shift_factor == e.k, "station_type_shift", "%s: station %zu: type %d k %d expected %d %d", what, k, (int)s.m_type, s.m_shift_factor, e.type, e.k);
    int kk = -99; int rc = d.beacon_shift_factor(e.id.c_str(), kk); c.check(rc == 0 && kk == e.k, "lookup_shift", "%s: %s: rc %d k %d expected %d", what, e.id.c_str(), rc, kk, e.k);
    const char *p = d.beacon_internal_id2id(e.id.c_str()); c.check(p && !memcmp(p, e.code.data(), 4), "lookup_id", "%s: %s", what, e.id.c_str());
    const char *q = d.beacon_id2internal_id(e.code.c_str()); c.check(q && !memcmp(q, e.id.data(), 3), "lookup_internal", "%s: %s", what, e.code.c_str());
    auto it = d.beacon_internal_id2BeaconStation(e.id.c_str()); c.check(it != st.cend() && it - st.cbegin() == (long)k, "lookup_station", "%s: %s", what, e.id.c_str()); }
  int kk = -99; c.check(d.beacon_shift_factor("X00", kk) != 0 && !d.beacon_internal_id2id("X00") && !d.beacon_id2internal_id("zzzz") && d.beacon_internal_id2BeaconStation("X00") == st.cend(), "lookup_absent", "%s: a beacon that is not there was found", what);
}
std::string describe(const Rnx &x) { return vf::fmt("%zu obs types, %zu stations, %zu refs, %zu header lines, %zu epochs", x.codes.size(), x.sta.size(), x.refs.size(), x.hdr.size(), x.ep.size()); }
} // namespace

// ---------------------------------------------------------------- C14
VF_GROUP(hdr_decode, 300, 4000) {
  Rnx x; make_header(c.r, x); if (c.r.p(0.5)) { make_data(c.r, x, (int)c.r.i(1, 3), 3); render(c.r, x); }
  std::string f = write(c.scratch(), "h.rnx", header_text(x) + x.data);
  Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); if (d) d->print_metadata(); std::string out = cap.stop();
  if (!c.check(!!d, "well_formed_accepted", "refused: %s", describe(x).c_str())) return;
  compare_header(c, x, *d, "header");
  double v = strtod(x.version.c_str(), nullptr);
  c.check(has_line(out, vf::fmt("RINEX version : %.2f", v)) && has_line(out, "Satellite Name: " + x.sat) && has_line(out, "COSPAR NR     : " + x.cospar) && has_line(out, "Recvr Chain   : " + x.chain) && has_line(out, "Recvr Type    : " + x.rtype) && has_line(out, "Recvr Version : " + x.rver),
          "metadata_text", "version %.2f sat [%s] cospar [%s] rec [%s][%s][%s]; printed:\n%.900s", v, x.sat.c_str(), x.cospar.c_str(), x.chain.c_str(), x.rtype.c_str(), x.rver.c_str(), out.substr(out.find("RINEX filename") == std::string::npos ? 0 : out.find("RINEX filename")).c_str());
  std::string sf = vf::fmt("Scale Factors : (%d) ", (int)x.factor.size()), cs = vf::fmt("Obs. Codes    : (%d) ", (int)x.codes.size()); for (int k : x.factor) sf += vf::fmt("[%2d]", k); for (int k : x.codes) cs += "[" + ALL[k].t.substr(0, 1) + std::to_string(ALL[k].freq) + "]";
  c.check(has_line(out, sf), "scale_factors", "expected %s; printed %.300s", sf.c_str(), out.substr(out.find("Scale Factors") == std::string::npos ? 0 : out.find("Scale Factors"), 200).c_str());
  c.check(has_line(out, cs), "codes_text", "expected %s", cs.c_str());
  if (c.r.p(0.3)) { dso::DorisObsRinex m(std::move(*d)); compare_header(c, x, m, "moved-to"); c.event("moved"); }
  d.reset(); { size_t base = vf::live_bytes(); { Capture q(c.scratch() + "/out"); { dso::DorisObsRinex t(f.c_str()); } fflush(stdout); dup2(q.keep, 1); close(q.keep); } size_t now = vf::live_bytes(); c.check(now <= base + 512, "no_leak", "%zu bytes live, %zu before", now, base); }
  c.event("headers_decoded"); c.distinct(vf::fmt("%zu/%zu/%zu/%zu/%d", x.codes.size(), x.sta.size(), x.refs.size(), x.hdr.size(), x.applied)); c.sample(describe(x));
}
VF_GROUP(hdr_refuse, 600, 9000) {
  Rnx x; make_header(c.r, x); make_data(c.r, x, 1, 2); render(c.r, x);
  auto at = [&](const char *l) { for (size_t k = 0; k < x.hdr.size(); k++) if (x.hdr[k].label == l) return (long)k; return -1L; };
  auto cut = [&](long k) { x.hdr.erase(x.hdr.begin() + k); };
  std::string what; static const char *REQ[] = {"RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "SYS / # / OBS TYPES", "# OF STATIONS", "STATION REFERENCE", "END OF HEADER"};
  int kind = (int)(c.idx % 30); std::string body; bool raw = false; auto put = [&](long k, size_t col, const std::string &t) { x.hdr[k].text.replace(col, t.size(), t); };
  auto skip = [&]() { c.event("not_applicable"); };
  switch (kind) {
    case 0: { const char *l = c.r.pick(REQ); what = std::string("no ") + l; long k = at(l); cut(k); break; }
    case 1: { const char *l = c.r.pick(REQ); what = std::string("line of ") + l + " ends before its label"; long k = at(l); x.hdr[k].text.resize(c.r.i(0, 59)); x.hdr[k].label = ""; break; }
    case 2: { what = "unknown observation type"; long k = at("SYS / # / OBS TYPES"); put(k, 7 + 4 * c.r.i(0, (long)x.codes.size() - 1), c.r.pick({"X1", "l1", "S1", "?", "1L", "Q"})); break; }
    case 3: { what = "frequency that does not exist"; long q = -1; for (size_t k = 0; k < x.codes.size(); k++) if (x.codes[k] < 6) q = (long)k; if (q < 0) return skip(); put(at("SYS / # / OBS TYPES"), 8 + 4 * q, c.r.pick({"3", "0", "9", "X"})); break; }
    case 4: { what = "more observation types announced than listed"; if (x.codes.size() > 9) { x.codes.pop_back(); long k = at("SYS / # / OBS TYPES"); x.hdr[k].text = pad("D   10" + codeslots(x.codes), 60); } else put(at("SYS / # / OBS TYPES"), 3, vf::fmt("%3ld", (long)x.codes.size() + c.r.i(1, 3))); break; }
    case 5: { what = "impossible number of observation types"; put(at("SYS / # / OBS TYPES"), 1, c.r.pick({"    0", "   -1", "   14", "  999", " -999", "    x", "99999"})); break; }
    case 6: { what = "more stations announced than listed"; put(at("# OF STATIONS"), 0, vf::fmt("%6ld", (long)x.sta.size() + c.r.i(1, 9))); break; }
    case 7: { what = "fewer stations announced than listed"; if (x.sta.size() < 2) return skip(); put(at("# OF STATIONS"), 0, vf::fmt("%6ld", (long)x.sta.size() - 1)); break; }
    case 8: { what = "impossible number of stations"; put(at("# OF STATIONS"), 0, c.r.pick({"     0", "    -1", "-99999", "999999", "abcdef", "      "})); break; }
    case 9: { what = "time reference station that is not listed"; long k = at("TIME REF STATION"); if (k < 0) return skip(); std::string un = "X01"; for (int d = 0; d < 100 && un[0] == 'X'; d++) { std::string t = vf::fmt("D%02d", d); bool in = false; for (auto &q : x.sta) in |= q.id == t; if (!in) un = t; } put(k, 0, c.r.pick({un, std::string("X01"), std::string("   "), std::string("d01")})); break; }
    case 10: { what = "time reference values not numbers"; long k = at("TIME REF STATION"); if (k < 0) return skip(); if (c.r.p(0.5)) put(k, 5, "         abcde"); else put(k, 19, "         abcde"); break; }
    case 11: { what = "observation time in another system"; put(at("TIME OF FIRST OBS"), 48, c.r.pick({"GPS", "UTC", "   ", "DO ", "DOX", "XOR"})); break; }
    case 12: { what = "impossible date of first observation"; long k = at("TIME OF FIRST OBS"); if (c.r.p(0.5)) put(k, 6, c.r.pick({"    13", "     0", "    xx"})); else put(k, 12, c.r.pick({"    32", "     0", "    ab"})); break; }
    case 13: { what = "marker type"; long k = at("MARKER TYPE"); if (k < 0) return skip(); put(k, 0, c.r.pick({"GEODETIC  ", "          ", "SPACEBORN "})); break; }
    case 14: { what = "antenna"; long k = at("ANT # / TYPE"); if (k < 0) return skip(); put(k, c.r.p(0.5) ? 0 : 20, c.r.pick({"OTHER     ", "          "})); break; }
    case 15: { what = "scale factor"; long k = at("SYS / SCALE FACTOR"); if (k < 0) return skip(); put(k, 2, c.r.pick({"   0", "   x"})); break; }
    case 16: { what = "scale factor of a type that is not listed"; long k = at("SYS / SCALE FACTOR"); if (k < 0 || x.hdr[k].text[9] == ' ') return skip(); std::vector<int> ab; for (int q = 0; q < 10; q++) { bool h = false; for (int z : x.codes) h |= z == q; if (!h) ab.push_back(q); }
      put(k, 10, codeslots({ab.empty() ? 0 : c.r.pick(ab)})); if (ab.empty()) put(k, 11, "X1 "); break; }
    case 17: { what = "more scaled types than types"; long k = at("SYS / SCALE FACTOR"); if (k < 0) return skip(); put(k, 8, vf::fmt("%2ld", c.r.i((long)x.codes.size() + 1, 40))); break; }
    case 18: { what = "line longer than 80 characters"; long k = c.r.i(0, (long)x.hdr.size() - 1); x.hdr[k].label = pad(x.hdr[k].label, c.r.p(0.5) ? 21 : 300); x.trim = true; break; }
    case 19: { what = "satellite system"; long k = at(c.r.p(0.5) ? "SYS / # / OBS TYPES" : "SYS / SCALE FACTOR"); if (k < 0) k = at("SYS / # / OBS TYPES"); put(k, 0, c.r.pick({"G", " "})); break; }
    case 20: { what = "file type"; put(0, c.r.p(0.5) ? 20 : 40, c.r.pick({"N", " ", "M"})); break; }
    case 21: { what = "version"; put(0, 0, "    x.xx"); break; }
    case 22: { what = "beacon type or shift factor"; long k = at("STATION REFERENCE") + c.r.i(0, (long)x.sta.size() - 1); if (c.r.p(0.5)) put(k, 50, c.r.pick({" ", "x", "A", "-", "%"})); else put(k, 52, c.r.pick({"  x", "   ", "K 1"})); break; }
    case 23: { what = "clock offset flag"; long k = at("RCV CLOCK OFFS APPL"); if (k < 0) return skip(); put(k, 0, c.r.pick({"     2", "    -1", "     x", "      "})); break; }
    case 24: { what = "position not a number"; long k = at(c.r.p(0.5) ? "APPROX POSITION XYZ" : "CENTER OF MASS: XYZ"); if (k < 0) return skip(); put(k, 14 * c.r.i(0, 2), "             x"); break; }
    case 25: { what = "blank satellite name"; put(at("SATELLITE NAME"), 0, std::string(60, ' ')); break; }
    case 27: { what = "blank receiver chain, type or version"; long k = at("REC # / TYPE / VERS"); if (k < 0) return skip(); put(k, 20 * c.r.i(0, 2), std::string(20, ' ')); break; }
    case 28: { what = "date offset that is not of DORIS or no number"; long k = at("L2 / L1 DATE OFFSET"); if (k < 0) return skip(); if (c.r.p(0.5)) put(k, 0, c.r.pick({"G", " "})); else put(k, 3, c.r.pick({"             x", "              ", "         1e999"})); break; }
    case 29: { what = "impossible number of time reference stations"; long k = at("# TIME REF STATIONS"); if (k < 0) return skip(); put(k, 0, c.r.pick({"     0", "    -1", " 99999", "     x", "      "})); break; }
    case 26: { what = "file ends inside the header"; body = header_text(x); size_t e = body.find("END OF HEADER"); body.resize(c.r.p(0.2) ? 0 : c.r.i(0, (long)e)); raw = true; break; }
  }
  if (!raw) body = header_text(x) + x.data;
  std::string f = write(c.scratch(), "r.rnx", body); Capture cap(c.scratch() + "/out"); bool thrown = false, other = false;
  try { errno = c.r.p(0.3) ? ERANGE : 0; dso::DorisObsRinex d(f.c_str()); } catch (std::runtime_error &) { thrown = true; } catch (...) { other = true; }
  cap.stop(); errno = 0;
  c.check(thrown && !other, "refused", "accepted: %s (kind %d)", what.c_str(), kind);
  c.event("malformed_headers"); c.distinct(vf::fmt("%d/%s", kind, what.c_str())); c.sample(what);
  if (kind == 0) { bool t = false; try { dso::DorisObsRinex d((c.scratch() + "/absent").c_str()); } catch (std::exception &) { t = true; } c.check(t, "absent_file", "no error"); }
}
namespace {
std::string mutate(vf::Rng &r, std::string s) {
  int n = (int)r.i(1, 6);
  for (int k = 0; k < n && !s.empty(); k++) {
    size_t p = r.i(0, (long)s.size() - 1);
    switch (r.i(0, 8)) {
      case 0: s[p] = (char)r.i(0, 255); break;
      case 1: s.erase(p, r.i(1, 90)); break;
      case 2: s.insert(p, std::string(r.i(1, 200), r.pick({' ', '9', '-', '\n', 'D', '\0'}))); break;
      case 3: s.resize(p); break;
      case 4: { size_t q = r.i(0, (long)s.size() - 1); s.insert(p, s.substr(q, r.i(1, 300))); break; }
      case 5: { size_t q = s.find_first_of("0123456789", p); if (q != std::string::npos) s[q] = r.pick({'-', '9', '0', ' ', 'x', 'e', '.'}); break; }
      case 6: { size_t q = s.find('\n', p); if (q != std::string::npos) s[q] = ' '; break; }
      case 7: { s.replace(p, 1, r.pick({"99999999999999999999", "-1", "1e999", "nan", "inf", "0x1p5", "\r\n"})); break; }
      case 8: { size_t a = s.rfind('\n', p), b = s.find('\n', p); if (a != std::string::npos && b != std::string::npos) s.erase(a, b - a); break; }
    }
  }
  return s;
}
}
VF_GROUP(hdr_hostile, 1000, 20000) {
  Rnx x; make_header(c.r, x); make_data(c.r, x, 1, 2); render(c.r, x);
  std::string f = write(c.scratch(), "m.rnx", mutate(c.r, header_text(x)) + x.data); Capture cap(c.scratch() + "/out");
  auto d = open_rnx(f); errno = 0;
  if (d) { d->print_metadata(); int k; d->beacon_shift_factor("D01", k); auto o = d->l21_date_offset(); (void)o; size_t n = 0; for (auto &s : d->stations()) n += strnlen(s.m_station_name, 30); c.distinct(vf::fmt("ok/%zu/%zu", n, d->observation_codes().size()));
    dso::RinexDataBlockIterator it(d.get()); for (int k2 = 0; k2 < 5 && !it.next(); k2++) c.event("blocks_after_hostile_header"); }
  cap.stop(); c.event(d ? "hostile_accepted" : "hostile_refused");
}
// ---------------------------------------------------------------- C15
namespace {
bool compare_block(vf::Ctx &c, const Rnx &x, const Epoch &p, const dso::RinexDataBlockIterator &it, const char *what, size_t no) {
  auto &h = it.cheader;
  bool ok = c.check(h.m_epoch == date(p.mjd, p.ns), "epoch", "%s: epoch %zu: %.12f expected %.12f", what, no, h.m_epoch.as_mjd(), date(p.mjd, p.ns).as_mjd());
  ok &= c.check(h.m_flag == p.flag && h.m_num_stations == (long)p.b.size(), "flag_count", "%s: epoch %zu: flag %d stations %ld expected %d %zu", what, no, (int)h.m_flag, (long)h.m_num_stations, p.flag, p.b.size());
  if (p.has_off) ok &= c.check(h.m_clock_offset == p.off && h.m_clock_flag == p.offflag, "clock_offset", "%s: epoch %zu: %.17g/%d expected %.17g/%d", what, no, h.m_clock_offset, (int)h.m_clock_flag, p.off, p.offflag);
  else ok &= c.check(h.m_clock_offset == dso::RECEIVER_CLOCK_OFFSET_MISSING, "clock_offset_absent", "%s: epoch %zu: %.17g", what, no, h.m_clock_offset);
  ok &= c.check(it.cblock.size() == p.b.size(), "beacon_count", "%s: epoch %zu: %zu expected %zu", what, no, it.cblock.size(), p.b.size());
  for (size_t b = 0; b < std::min(it.cblock.size(), p.b.size()); b++) {
    auto &g = it.cblock[b]; auto &e = p.b[b];
    ok &= c.check(!memcmp(g.id(), e.id.data(), 3) && g.m_values.size() == e.v.size(), "beacon_id", "%s: epoch %zu beacon %zu: %.3s/%zu values expected %s/%zu", what, no, b, g.id(), g.m_values.size(), e.id.c_str(), e.v.size());
    for (size_t q = 0; q < std::min(g.m_values.size(), e.v.size()); q++) {
      auto &v = g.m_values[q]; double ev = e.v[q].missing ? dso::OBSERVATION_VALUE_MISSING : e.v[q].v / x.factor[q];
      ok &= e.v[q].missing ? c.check(v.m_value == ev, "absent_value", "%s: epoch %zu %s %s: %.17g is not the missing value (field [%s], factor %d)", what, no, e.id.c_str(), ALL[x.codes[q]].t.c_str(), v.m_value, e.v[q].field.c_str(), x.factor[q])
                           : c.near(v.m_value, ev, 1e-15 * std::fabs(ev), "value", vf::fmt("%s: epoch %zu %s %s [%s]/%d", what, no, e.id.c_str(), ALL[x.codes[q]].t.c_str(), e.v[q].field.c_str(), x.factor[q])), true;
      ok &= c.check(v.m_flag1 == e.v[q].f1 && v.m_flag2 == e.v[q].f2, "flags", "%s: epoch %zu %s %s: '%c' '%c' expected '%c' '%c'", what, no, e.id.c_str(), ALL[x.codes[q]].t.c_str(), v.m_flag1, v.m_flag2, e.v[q].f1, e.v[q].f2);
    }
    c.event("beacon_blocks");
  }
  return ok;
}
void make_file(vf::Ctx &c, Rnx &x, int ne, int nb, std::string &f, const char *name = "d.rnx") { make_header(c.r, x); make_data(c.r, x, ne, nb); render(c.r, x); f = write(c.scratch(), name, header_text(x) + x.data); }
}
VF_GROUP(blk_iterate, 300, 3000) {
  Rnx x; std::string f; make_file(c, x, c.r.p(0.05) ? 0 : (int)c.r.i(1, c.r.p(0.1) ? 120 : 15), c.idx % 6 == 0 ? 100 : 5, f);
  bool nonl = c.r.p(0.3) && x.data.size() > 1 && x.data[x.data.size() - 2] != '\n'; if (nonl) { std::string b = header_text(x) + x.data; b.pop_back(); f = write(c.scratch(), "d.rnx", b); }
  Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); if (!d) { cap.stop(); c.viol("well_formed_accepted", describe(x)); return; }
  dso::RinexDataBlockIterator it(d.get()); auto pos = d->stream().tellg(); int rounds = c.r.p(0.4) ? 2 : 1;
  for (int rd = 0; rd < rounds; rd++) {
    size_t no = 0; int rc = 0;
    for (; no <= x.ep.size(); no++) {
      if (c.r.p(0.1)) errno = ERANGE; // somebody else's
      rc = it.next(); if (rc) break;
      if (no >= x.ep.size()) break;
      compare_block(c, x, x.ep[no], it, rd ? "again" : "first", no);
      auto &p = x.ep[no]; long off = p.has_off && x.applied != 1 ? std::lround(p.off * 1e9) : 0, l12 = std::lround(x.l12us * 1e3);
      Date t2, a = it.corrected_l1_epoch(), b = it.corrected_l1_epoch(t2), e = date(p.mjd, p.ns); e.add_seconds(NS(off)); Date e2 = e; e2.add_seconds(NS(l12));
      c.check(a == e && b == e && t2 == e2 && it.proper_time() == date(p.mjd, p.ns), "corrected_epoch", "epoch %zu: L1 %.15f/%.15f expected %.15f; L2 %.15f expected %.15f", no, a.as_mjd(), b.as_mjd(), e.as_mjd(), t2.as_mjd(), e2.as_mjd());
      { auto h = it.cheader; h.apply_clock_offset(); Date g = date(p.mjd, p.ns); g.add_seconds(NS(p.has_off ? std::lround(p.off * 1e9) : 0)); c.check(h.m_epoch == g, "apply_clock_offset", "epoch %zu: %.15f expected %.15f", no, h.m_epoch.as_mjd(), g.as_mjd()); }
      for (auto &s : x.sta) { long e1 = -1; for (size_t q = 0; q < p.b.size(); q++) if (p.b[q].id == s.id) { e1 = (long)q; break; } auto w = it.contains_beacon(s.id.c_str()); long g1 = w == it.cblock.end() ? -1 : w - it.cblock.begin(); if (g1 != e1) c.viol("contains_beacon", vf::fmt("epoch %zu: %s at %ld expected %ld", no, s.id.c_str(), g1, e1)); }
    }
    c.check(rc == -1 && no == x.ep.size(), "end_reported", "%zu of %zu epochs, status %d (final newline: %d)", no, x.ep.size(), rc, !nonl);
    if (rd + 1 < rounds) { d->stream().clear(); d->stream().seekg(pos); c.event("rewound"); }
  }
  cap.stop(); c.event("epochs", (long)x.ep.size() * rounds); c.distinct(vf::fmt("%zu/%zu/%d/%d/%016lx", x.codes.size(), x.ep.size(), x.trim, nonl, vf::fnv(x.data.data(), x.data.size()))); c.sample(describe(x));
}
VF_GROUP(blk_damage, 560, 8600) {
  Rnx x; std::string f; make_file(c, x, (int)c.r.i(2, 6), 4, f); std::string hdr = header_text(x), data = x.data, what; size_t bad = c.r.i(0, (long)x.ep.size() - 1); size_t at = x.epoch_at[bad], nl = data.find('\n', at);
  auto skip = [&]() { c.event("not_applicable"); }; int kind = (int)(c.idx % 14), lpb = (int)(x.codes.size() + 4) / 5; auto &p = x.ep[bad];
  // the first damaged epoch; everything before is intact and has to be returned
  auto field = [&](size_t b, size_t q) { size_t o = nl + 1; for (size_t k = 0; k < b * lpb + q / 5; k++) o = data.find('\n', o) + 1; return o + 3 + 16 * (q % 5); };
  switch (kind) {
    case 0: case 1: { what = "file ends inside a block"; if (p.b.empty()) return skip(); size_t end = bad + 1 < x.ep.size() ? x.epoch_at[bad + 1] : data.size(); // cut whole lines
      std::vector<size_t> cuts; for (size_t o = nl + 1; o < end; o = data.find('\n', o) + 1) cuts.push_back(o); data.resize(c.r.pick(cuts)); if (kind == 1 && data.size()) data.pop_back(); break; }
    case 2: { what = "file ends inside a number"; if (p.b.empty()) return skip(); size_t b = c.r.i(0, (long)p.b.size() - 1), q = c.r.i(0, (long)x.codes.size() - 1); if (p.b[b].v[q].field.empty()) return skip(); size_t o = field(b, q); data.resize(o + c.r.i(14 - (long)p.b[b].v[q].field.size() + 1, 13)); break; }
    case 3: { what = "file ends inside an epoch line"; data.resize(at + c.r.i(1, 36)); break; }
    case 4: { what = "epoch line does not start with >"; data[at] = c.r.pick({' ', 'D', '<', 'x'}); break; }
    case 5: { what = "impossible date"; data.replace(at + 7, 2, c.r.pick({"13", "xx", "00"})); break; }
    case 6: { what = "epoch flag"; data.replace(at + 31, 3, c.r.pick({"  x", "   ", " -1", "  1x"})); break; }
    case 7: { what = "number of stations"; data.replace(at + 34, 3, c.r.pick({"  x", "   ", " -1", "1 x"})); break; }
    case 8: { what = "more stations announced than recorded"; data.replace(at + 34, 3, vf::fmt("%3ld", (long)p.b.size() + c.r.i(1, 20))); break; }
    case 9: { what = "fewer stations announced than recorded"; if (p.b.empty()) return skip(); data.replace(at + 34, 3, vf::fmt("%3ld", (long)p.b.size() - 1)); break; }
    case 10: { what = "value not a number"; if (p.b.empty()) return skip(); size_t b = c.r.i(0, (long)p.b.size() - 1), q = c.r.i(0, (long)x.codes.size() - 1); if (p.b[b].v[q].field.empty()) return skip(); size_t o = field(b, q); data.replace(o, 14, c.r.pick({"           abc", "       12.34x5", "           nan", "           inf", "     1e9999999", "       1.5 2.5"})); break; }
    case 11: { what = "beacon line without a beacon"; if (p.b.empty()) return skip(); size_t o = field(c.r.i(0, (long)p.b.size() - 1), 0) - 3; data.replace(o, 3, c.r.pick({"   ", "X01", "d01"})); break; }
    case 13: { what = "line longer than any record"; size_t o = nl; if (c.r.p(0.5) && !p.b.empty()) o = data.find('\n', nl + 1); data.insert(o, std::string(c.r.pick({130, 200, 500, 5000}), c.r.pick({' ', '0'}))); break; }
    case 12: { what = "clock offset not a number"; if (!p.has_off) return skip(); data.replace(at + 43, 13, c.r.pick({"          abc", "       1.5x25", "          nan"})); break; }
  }
  f = write(c.scratch(), "d.rnx", hdr + data); Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); if (!d) { cap.stop(); c.viol("well_formed_accepted", describe(x)); return; }
  dso::RinexDataBlockIterator it(d.get()); size_t no = 0; int rc = 0;
  for (; no < bad && !(rc = it.next()); no++) compare_block(c, x, x.ep[no], it, "before the damage", no);
  c.check(no == bad && rc == 0, "intact_part", "%s: status %d at epoch %zu, damage is at %zu", what.c_str(), rc, no, bad);
  // a wrong number of stations shows at the damaged epoch or at the next one
  int n = 0; while (!(rc = it.next()) && n < 1 && (kind == 8 || kind == 9)) n++;
  cap.stop();
  if (kind == 9 && bad + 1 == x.ep.size()) c.check(rc > 0, "damage_reported", "%s: status %d at the last epoch", what.c_str(), rc);
  else c.check(rc > 0, "damage_reported", "%s (kind %d, epoch %zu of %zu): status %d", what.c_str(), kind, bad, x.ep.size(), rc);
  c.event("damaged_files"); c.distinct(vf::fmt("%d/%zu/%zu/%zu", kind, bad, x.codes.size(), x.ep.size())); c.sample(what);
}
VF_GROUP(blk_hostile, 800, 15000) {
  Rnx x; make_header(c.r, x); make_data(c.r, x, (int)c.r.i(1, 5), 4); render(c.r, x); std::string f = write(c.scratch(), "m.rnx", header_text(x) + mutate(c.r, x.data)); Capture cap(c.scratch() + "/out");
  auto d = open_rnx(f); if (!d) { cap.stop(); c.viol("well_formed_accepted", describe(x)); return; }
  dso::RinexDataBlockIterator it(d.get()); int k = 0, rc = 0; double sum = 0;
  for (; k < 3000 && !(rc = it.next()); k++) { sum += it.cheader.m_epoch.as_mjd() + it.cheader.m_clock_offset + it.cheader.m_flag + it.cheader.m_clock_flag; Date t2; sum += it.corrected_l1_epoch(t2).as_mjd() + t2.as_mjd();
    for (auto &b : it.cblock) { if (b.m_values.size() != x.codes.size()) c.viol("hostile_values", vf::fmt("%zu values for %zu types", b.m_values.size(), x.codes.size())); for (auto &v : b.m_values) { sum += v.m_value; if (!std::isfinite(v.m_value)) c.viol("hostile_finite", "value not finite"); sum += v.m_flag1 + v.m_flag2; } for (int q = 0; q < 3; q++) sum += b.m_beacon_id[q]; } }
  c.check(k < 3000, "terminates", "more blocks than lines"); cap.stop(); c.distinct(vf::fmt("%d/%d/%g", k, rc, sum)); c.event(rc == -1 ? "hostile_to_the_end" : "hostile_reported");
}
// epoch lines on their own, in memory of exactly their length
VF_GROUP(blk_epoch_line, 200, 8000) {
  Rnx x; std::string f; make_file(c, x, (int)c.r.i(1, 6), 2, f); Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); cap.stop(); if (!d) { c.viol("well_formed_accepted", describe(x)); return; }
  for (auto &p : x.ep) {
    if (c.r.p(0.3)) { p.b.resize(c.r.i(0, 999)); c.event("any_beacon_count"); }
    std::string l = epoch_line(p, c.r.p(0.5)); int kind = (int)c.r.i(0, 2); size_t full = ymdhms(p.mjd, p.ns, "> %4d %02d %02d %02d %02d%3d.%09ld").size() + 6, len = l.size();
    if (kind == 1) l.resize(c.r.i(0, (long)l.size()));
    std::unique_ptr<char[]> b(new char[l.size() + 1]); memcpy(b.get(), l.c_str(), l.size() + 1); dso::RinexDataRecordHeader h; errno = c.r.p(0.3) ? ERANGE : 0; int rc = d->resolve_data_epoch(b.get(), h); errno = 0;
    if (kind != 1 || l.size() == len) c.check(rc == 0 && h.m_epoch == date(p.mjd, p.ns) && h.m_num_stations == (long)p.b.size() && h.m_flag == p.flag, "epoch_line", "rc %d for [%s]", rc, l.c_str());
    else if (l.size() < full) { size_t last = full; while (last > 36) last--; c.check(rc != 0 || l.size() >= 35, "short_epoch_line", "rc %d for [%s]", rc, l.c_str()); }
    c.event("epoch_lines"); c.distinct(vf::fmt("%zu/%d/%d", l.size(), kind, rc)); c.sample(l);
  }
}
// skipping blocks; Doppler counts between consecutive observations of each beacon
VF_GROUP(blk_doppler, 60, 1500) {
  Rnx x; std::string f;
  if (c.idx % 8 == 7) { for (int k = 0; k < 300 && (k == 0 || x.sta.size() < 99 || x.codes.size() < 6); k++) { x = Rnx(); make_header(c.r, x); } make_data(c.r, x, (int)c.r.i(2, 8), 100); render(c.r, x); f = write(c.scratch(), "d.rnx", header_text(x) + x.data); c.event("all_beacons_of_the_network"); }
  else make_file(c, x, (int)c.r.i(2, 12), 5, f);
  int i1 = -1, i2 = -1; for (size_t k = 0; k < x.codes.size(); k++) { if (x.codes[k] == 0) i1 = (int)k; if (x.codes[k] == 1) i2 = (int)k; }
  Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); if (!d) { cap.stop(); c.viol("well_formed_accepted", describe(x)); return; }
  dso::RinexDataRecordHeader h; char line[256]; size_t no = 0; // skip or read, block by block
  while (d->stream().getline(line, sizeof line)) { int rc = d->resolve_data_epoch(line, h); if (no >= x.ep.size() || rc || h.m_epoch != date(x.ep[no].mjd, x.ep[no].ns)) { c.viol("skip_block", vf::fmt("status %d at epoch %zu of %zu", rc, no, x.ep.size())); break; }
    if (c.r.p(0.5)) { d->skip_data_block(h); c.event("skipped"); } else { std::vector<dso::BeaconObservations> v; int e = d->read_data_block(h, v); if (e || v.size() != x.ep[no].b.size()) c.viol("read_block", vf::fmt("status %d, %zu beacons, expected %zu", e, v.size(), x.ep[no].b.size())); } no++; }
  c.check(no == x.ep.size(), "skip_block_count", "%zu epochs, expected %zu", no, x.ep.size());
  int rc = d->get_doppler_counts(); std::string out = cap.stop();
  if (i1 < 0 || i2 < 0) { c.check(rc != 0, "doppler_types", "status %d without L1 or L2", rc); return; }
  c.check(rc == 0, "doppler_status", "status %d", rc); std::string want; std::map<std::string, size_t> last; long lines = 0;
  auto get = [&](size_t e, const std::string &id, int q) { for (auto &b : x.ep[e].b) if (b.id == id) return b.v[q].missing ? NAN : b.v[q].v / x.factor[q]; return (double)NAN; };
  std::vector<std::array<double, 4>> exp; std::vector<std::string> ids;
  for (size_t e = 0; e < x.ep.size(); e++) { for (auto &b : x.ep[e].b) { auto l = last.find(b.id); if (l != last.end()) { double d1 = get(e, b.id, i1) - get(l->second, b.id, i1), d2 = get(e, b.id, i2) - get(l->second, b.id, i2);
      if (d1 == d1 && d2 == d2) { ids.push_back(b.id); exp.push_back({date(x.ep[e].mjd, x.ep[e].ns).as_mjd(), d1, d2, date(x.ep[e].mjd, x.ep[e].ns).delta_sec(date(x.ep[l->second].mjd, x.ep[l->second].ns)).as_underlying_type() / 1e9}); } } } for (auto &b : x.ep[e].b) last[b.id] = e; }
  size_t pos = 0; while (pos < out.size()) { size_t n = out.find('\n', pos); std::string l = out.substr(pos, n - pos); pos = n == std::string::npos ? out.size() : n + 1; char id[8]; double a[4]; int used = 0;
    if (sscanf(l.c_str(), "%7s %lf %lf %lf %lf%n", id, a, a + 1, a + 2, a + 3, &used) != 5 || used != (int)l.size()) continue;
    if (lines < (long)exp.size()) { auto &e = exp[lines]; c.check(ids[lines] == id && std::fabs(a[0] - e[0]) < 1e-5 && std::fabs(a[1] - e[1]) < 1e-5 + 1e-14 * std::fabs(e[1]) && std::fabs(a[2] - e[2]) < 1e-5 + 1e-14 * std::fabs(e[2]) && std::fabs(a[3] - e[3]) < 1e-6, "doppler_line", "[%s] expected %s %.5f %.5f %.5f %.7f", l.c_str(), ids[lines].c_str(), e[0], e[1], e[2], e[3]); } lines++; }
  c.check(lines == (long)exp.size(), "doppler_count", "%ld lines, expected %zu", lines, exp.size()); c.event("doppler_lines", lines); c.distinct(vf::fmt("%zu/%ld", x.ep.size(), lines));
}
// Doppler counts of a damaged file: refused wherever the damage is, whatever came before
VF_GROUP(blk_doppler_damage, 140, 3000) {
  Rnx x; std::string f; make_file(c, x, (int)c.r.i(2, 8), 4, f); bool l1 = false, l2 = false; for (int k : x.codes) { l1 |= k == 0; l2 |= k == 1; } if (!l1 || !l2) return c.event("without_both_frequencies");
  std::string data = x.data, what; size_t bad = c.r.p(0.4) ? 0 : c.r.i(0, (long)x.ep.size() - 1), at = x.epoch_at[bad], nl = data.find('\n', at); int kind = (int)(c.idx % 7);
  switch (kind) {
    case 0: what = "no data at all"; data.clear(); break;
    case 1: what = "epoch line damaged"; data.replace(at + 7, 2, c.r.pick({"13", "xx"})); break;
    case 2: what = "epoch line without its mark"; data[at] = 'D'; break;
    case 3: what = "observation not a number"; { size_t e = 0; for (; e < x.ep.size(); e++) if (!x.ep[(bad + e) % x.ep.size()].b.empty()) break; if (e == x.ep.size()) return c.event("no_observations"); bad = (bad + e) % x.ep.size(); size_t q = 0; auto &v = x.ep[bad].b[0].v; while (q < v.size() && (q > 4 || v[q].field.empty())) q++; if (q > 4 || q >= v.size()) return c.event("no_observations"); data.replace(data.find('\n', x.epoch_at[bad]) + 1 + 3 + 16 * q, 14, "         12x.4"); } break;
    case 4: what = "line longer than any record"; data.insert(c.r.p(0.5) || x.ep[bad].b.empty() ? nl : data.find('\n', nl + 1), std::string(c.r.pick({130, 300, 5000}), c.r.pick({' ', '0'}))); break;
    case 5: what = "file ends inside an epoch line"; data.resize(at + c.r.i(1, 30)); break;
    case 6: what = "file ends inside a block"; while (bad < x.ep.size() && x.ep[bad].b.empty()) bad++; if (bad == x.ep.size()) return c.event("no_observations"); data.resize(data.find('\n', x.epoch_at[bad]) + (c.r.p(0.5) ? 1 : 0)); break;
  }
  f = write(c.scratch(), "dd.rnx", header_text(x) + data); Capture cap(c.scratch() + "/out"); auto d = open_rnx(f); if (!d) { cap.stop(); c.viol("well_formed_accepted", describe(x)); return; }
  int rc = d->get_doppler_counts(); cap.stop(); c.check(rc != 0, "doppler_damage", "status %d: %s at epoch %zu of %zu", rc, what.c_str(), bad, x.ep.size());
  c.event("doppler_of_damaged_files"); c.distinct(vf::fmt("%d/%zu/%zu", kind, bad, x.ep.size())); c.sample(what);
}
// ---------------------------------------------------------------- C16
namespace {
struct Pt { double t, f; }; // seconds since the reference, value
// least squares polynomial in long double, on a scaled argument; returns values at the given times
std::vector<double> lsq(const std::vector<Pt> &p, int order, const std::vector<double> &at) {
  long double lo = p[0].t, hi = p[0].t; for (auto &q : p) { lo = std::min<long double>(lo, q.t); hi = std::max<long double>(hi, q.t); } long double m = (lo + hi) / 2, w = (hi - lo) / 2; if (w == 0) w = 1;
  int M = order + 1; std::vector<std::vector<long double>> N(M, std::vector<long double>(M + 1, 0));
  auto leg = [&](long double t) { long double u = (t - m) / w; std::vector<long double> v(M); v[0] = 1; if (M > 1) v[1] = u; for (int k = 2; k < M; k++) v[k] = ((2 * k - 1) * u * v[k - 1] - (k - 1) * v[k - 2]) / k; return v; };
  for (auto &q : p) { auto v = leg(q.t); for (int i = 0; i < M; i++) { for (int j = 0; j < M; j++) N[i][j] += v[i] * v[j]; N[i][M] += v[i] * q.f; } }
  for (int i = 0; i < M; i++) { int b = i; for (int k = i + 1; k < M; k++) if (fabsl(N[k][i]) > fabsl(N[b][i])) b = k; std::swap(N[i], N[b]); for (int k = 0; k < M; k++) if (k != i) { long double f = N[k][i] / N[i][i]; for (int j = i; j <= M; j++) N[k][j] -= f * N[i][j]; } }
  std::vector<double> o; for (double t : at) { auto v = leg(t); long double s = 0; for (int i = 0; i < M; i++) s += v[i] * N[i][M] / N[i][i]; o.push_back((double)s); } return o;
}
struct FitFile { Rnx x; std::string name; int f_idx; };
// epochs of one file with one F value per epoch, the same for every beacon
void make_fit_file(vf::Ctx &c, FitFile &o, const char *name, long mjd, long &sec, int ne, long ref_mjd, const std::function<std::string(double)> &value, int spacing, double p_missing, double p_empty, long header_ref = 0) {
  // times count from ref_mjd; the file's own reference date may be another day
  Rnx &x = o.x; make_header(c.r, x, true); x.ref_mjd = header_ref ? header_ref : ref_mjd; x.ref_ns = 0;
  for (auto &l : x.hdr) if (l.label == "TIME REF STAT DATE") l.text = pad(ymdhms(x.ref_mjd, 0, "%6d%6d%6d%6d%6d%3d.%09ld").substr(0, 43), 60);
  for (size_t k = 0; k < x.codes.size(); k++) if (x.codes[k] == 6) o.f_idx = (int)k;
  for (int e = 0; e < ne; e++) {
    Epoch p; p.mjd = mjd + sec / 86400; p.ns = sec % 86400 * 1000000000L; p.has_off = c.r.p(0.8); p.off = p.has_off ? c.r.i(-3, 3) : 0;
    int nb = c.r.p(p_empty) ? 0 : (int)c.r.i(1, std::min<long>(3, (long)x.sta.size())); bool miss = c.r.p(p_missing); double t = (double)((p.mjd - ref_mjd) * 86400 + sec % 86400); std::string fv = value(t);
    for (int k = 0; k < nb; k++) { Beacon b; b.id = x.sta[k].id; for (size_t q = 0; q < x.codes.size(); q++) { Value v; if ((int)q == o.f_idx) { if (miss) v.missing = true; else put(c.r, v, fv); } else put(c.r, v, vf::fmt("%.3f", c.r.n() * 1e5 + 1)); b.v.push_back(v); } p.b.push_back(b); }
    x.ep.push_back(p); sec += spacing > 0 ? spacing : spacing == 0 ? ((e & 1) ? 7 : 3) : c.r.i(1, 300);
  }
  render(c.r, x); o.name = write(c.scratch(), name, header_text(x) + x.data);
}
}
VF_GROUP(fit_poly, 180, 3200) {
  const bool many = c.idx % 9 == 8; // many short files with a window longer than any of them
  int order = c.r.p(0.5) ? 1 : (int)c.r.i(1, 3), every = c.r.p(0.3) ? 1 : c.r.p(0.1) ? (int)c.r.i(20, 60) : (int)c.r.i(1, 7), nf = c.r.p(0.6) ? 1 : (int)c.r.i(2, 3), spacing = c.r.pick({10, 10, 0, -1, 30}); if (many) { every = (int)c.r.i(9000, 40000); nf = (int)c.r.i(8, 24); } bool exact = c.r.p(0.5), tai = !exact && c.r.p(0.5), window = c.r.p(0.3);
  double pm = c.r.p(0.4) ? 0.15 : 0, pe = c.r.p(0.3) ? 0.1 : 0; long ref = c.r.i(54000, 61000), sec = c.r.i(0, c.r.p(0.2) ? 20000 : 300);
  // exact: integer seconds and coefficients on the grid of the format, times the scale factor
  double a = c.r.i(-500, 500), b = c.r.i(-40, 40) / 1000.0; double noise = exact ? 0 : c.r.logu(1e-2, 10); double q2 = exact ? 0 : c.r.n() * 1e-5, off = c.r.n() * 300, sl = c.r.n() * 1e-2;
  if (exact && (spacing < 0 || tai || pm || pe)) every = 1;   // windows symmetric about their midpoint
  if (exact && spacing == 0 && every > 1) every = 2 * (every / 2) + (every < 2 ? 2 : 0);
  bool zeros = c.r.p(0.2); // an offset of exactly zero is a value
  auto val = [&](double t) { return exact ? vf::fmt("%.3f", a + b * t) : zeros && c.r.p(0.2) ? std::string("0.000") : vf::fmt("%.3f", off + sl * t + q2 * t * t + noise * c.r.n()); };
  std::vector<FitFile> ff(nf); std::vector<const char *> names; long total = 0;
  for (int k = 0; k < nf; k++) { int ne = c.r.p(0.1) ? (int)c.r.i(1, 5) : (int)c.r.i(5, many ? 12 : c.r.p(0.1) ? 600 : 80); if (exact && spacing == 0) ne &= ~1; long s0 = sec; (void)s0; make_fit_file(c, ff[k], vf::fmt("f%d.rnx", k).c_str(), ref, sec, ne, ref, val, spacing, pm, pe, k && c.r.p(0.6) ? ref + c.r.i(-2, 2) : 0); total += ne; names.push_back(ff[k].name.c_str()); sec += c.r.i(10, 2000); }
  // the window of epochs (of the corrected date)
  Date start = Date::min(), end = Date::max(); if (window) { long s1 = c.r.i(0, sec), s2 = c.r.i(0, sec); start = date(ref, std::min(s1, s2) * 1000000000L); end = date(ref, std::max(s1, s2) * 1000000000L); if (c.r.p(0.2)) start = Date::min(); if (c.r.p(0.2)) end = Date::max();
    // often the limits are dates of epochs: [start, end)
    auto some = [&]() { FitFile &q = ff[c.r.i(0, nf - 1)]; if (q.x.ep.empty()) return start; auto &p = q.x.ep[c.r.i(0, (long)q.x.ep.size() - 1)]; Date d = date(p.mjd, p.ns); d.add_seconds(NS(q.x.applied == 1 ? 0 : (long)p.off * 1000000000L)); return d; };
    if (c.r.p(0.5)) { Date e = some(); if (start < e) end = e, c.event("window_ends_at_epoch"); } if (c.r.p(0.5)) { Date e = some(); if (e < end) start = e, c.event("window_starts_at_epoch"); } }
  // expected data points
  std::vector<Pt> pts; std::vector<double> tall; double fmax = 0;
  bool f_one_scale = true; for (auto &q : ff) if (q.x.factor[q.f_idx] != ff[0].x.factor[ff[0].f_idx]) f_one_scale = false;
  for (auto &q : ff) { std::vector<double> v, t; auto flush = [&]() { if (v.empty()) return; long double s = 0; for (double z : v) s += z; long ns = std::lround((t.back() - t[0]) * 1e9); pts.push_back({t[0] + (ns / 2) / 1e9, (double)(s / v.size())}); tall.push_back(pts.back().t); fmax = std::max(fmax, std::fabs(pts.back().f)); v.clear(); t.clear(); };
    for (auto &p : q.x.ep) { double tp = (double)((p.mjd - ref) * 86400) + p.ns / 1e9, tl = tp + (q.x.applied == 1 ? 0 : p.off); Date dl = date(p.mjd, p.ns); dl.add_seconds(NS(q.x.applied == 1 ? 0 : (long)p.off * 1000000000L)); if (dl >= end) break; if (dl < start) continue; if (p.b.empty() || p.b[0].v[q.f_idx].missing) continue; v.push_back(p.b[0].v[q.f_idx].v / q.x.factor[q.f_idx]); t.push_back(tai ? tl : tp); if ((int)v.size() == every) flush(); }
    flush(); }
  dso::PolynomialModel<Date> fit(order); Capture cap(c.scratch() + "/out"); errno = c.r.p(0.2) ? ERANGE : 0;
  int rc = nf == 1 && c.r.p(0.5) ? dso::fit_relative_frequency_offset(names[0], fit, tai, every, start, end) : dso::fit_relative_frequency_offset(names, fit, tai, every, start, end); cap.stop(); errno = 0;
  std::string what = vf::fmt("order %d every %d files %d epochs %ld points %zu spacing %d exact %d tai %d window %d missing %g empty %g", order, every, nf, total, pts.size(), spacing, exact, tai, window, pm, pe); c.sample(what);
  c.distinct(vf::fmt("%d/%d/%d/%ld/%zu/%d/%d", order, every, nf, total, pts.size(), spacing, exact));
  if ((long)pts.size() < order + 1) { c.check(rc != 0, "too_few_reported", "status %d: %s", rc, what.c_str()); c.event("too_few"); return; }
  if (!c.check(rc == 0, "fit_status", "status %d: %s", rc, what.c_str())) return;
  // conditioning: the spread of the distinct times against their distance from the reference
  std::set<double> dt(tall.begin(), tall.end()); if ((long)dt.size() < order + 1) { c.event("degenerate_times"); return; }
  double lo = *dt.begin(), hi = *dt.rbegin(); double far = std::max(std::fabs(lo), std::fabs(hi)) / (hi - lo); 
  if (std::pow(far, 2.0 * order) > 1e7) { c.event("ill_conditioned"); return; }
  if (order > 1 && (long)dt.size() < 3 * order) { c.event("few_points_high_order"); return; }
  c.check(fit.xref == date(ref, 0), "fit_reference", "%.9f expected %ld: %s", fit.xref.as_mjd(), ref, what.c_str());
  std::vector<double> at; for (int k = 0; k <= 10; k++) at.push_back(std::floor(lo + (hi - lo) * k / 10)); auto e = lsq(pts, order, at); double tol = 1e-9 * std::pow(std::max(far, 1.0), 2.0 * order) * 1e2 * (fmax + 1e-3);
  if (tol > 1e-4 * (fmax + 1e-3)) { c.event("ill_conditioned"); return; }
  for (size_t k = 0; k < at.size(); k++) { Date t = date(ref, 0); t.add_seconds(NS((long)at[k] * 1000000000L)); double v = fit.value_at(t); c.near(v, e[k], tol, "least_squares", what + vf::fmt(" t=%.0f", at[k]));
    if (exact && f_one_scale && !(window && spacing == 0 && every > 1)) c.near(v, (a + b * at[k]) / ff[0].x.factor[ff[0].f_idx], tol, "exact_line", what + vf::fmt(" t=%.0f", at[k])); }
  c.event("fits"); c.event("fit_points", (long)pts.size());
}
VF_GROUP(fit_errors, 60, 800) {
  long ref = 58000, sec = 100; FitFile q; auto val = [&](double t) { return vf::fmt("%.3f", 5 + 0.01 * t); }; make_fit_file(c, q, "e.rnx", ref, sec, 20, ref, val, 10, 0, 0); int kind = (int)(c.idx % 8), order = 1, every = 1; std::string what; std::vector<const char *> names = {q.name.c_str()}; std::string second; Date s = Date::min(), e = Date::max();
  switch (kind) {
    case 0: what = "no F among the types"; { Rnx y; do { y = Rnx(); make_header(c.r, y); bool has = false; for (int k : y.codes) has |= k == 6; if (!has) break; } while (true); make_data(c.r, y, 10, 2); render(c.r, y); second = write(c.scratch(), "n.rnx", header_text(y) + y.data); if (c.r.p(0.5)) names = {second.c_str()}; else names.push_back(second.c_str()); } break;
    case 1: what = "file that does not exist"; second = c.scratch() + "/absent"; names.insert(c.r.p(0.5) ? names.begin() : names.end(), second.c_str()); break;
    case 2: what = "truncated file"; { std::string t = header_text(q.x) + q.x.data.substr(0, q.x.epoch_at[15] + c.r.i(2, 30)); q.name = write(c.scratch(), "e.rnx", t); names = {q.name.c_str()}; } break;
    case 3: what = "averaging window"; every = (int)c.r.i(-3, 0); break;
    case 4: what = "no epochs in the window"; s = date(ref + 10, 0); break;
    case 5: what = "no files"; names.clear(); break;
    case 6: what = "line longer than any record"; { std::string t = q.x.data; size_t o = t.find('\n', q.x.epoch_at[c.r.i(1, 18)]); t.insert(o, std::string(c.r.pick({130, 400, 5000}), c.r.pick({' ', '0'}))); q.name = write(c.scratch(), "e.rnx", header_text(q.x) + t); names = {q.name.c_str()}; } break;
    case 7: what = "F not a number"; { Rnx &x = q.x; int lpb = (int)(x.codes.size() + 4) / 5; (void)lpb; std::string t = x.data; size_t o = t.find('\n', x.epoch_at[c.r.i(2, 18)]) + 1; for (int k = 0; k < q.f_idx / 5; k++) o = t.find('\n', o) + 1; t.replace(o + 3 + 16 * (q.f_idx % 5), 14, "          12x4"); q.name = write(c.scratch(), "e.rnx", header_text(x) + t); names = {q.name.c_str()}; } break;
  }
  dso::PolynomialModel<Date> fit(order); Capture cap(c.scratch() + "/out"); int rc = dso::fit_relative_frequency_offset(names, fit, false, every, s, e); cap.stop(); c.check(rc != 0, "fit_error_reported", "status %d: %s", rc, what.c_str()); c.event("fit_errors"); c.distinct(what); c.sample(what);
}
// the sequential (Kalman) line: equals the weighted least squares with its prior
VF_GROUP(fit_kalman, 160, 2000) {
  long ref = c.r.i(54000, 61000), sec = c.r.i(0, 40000); double off = c.r.n() * 300, sl = c.r.n() * 1e-3; int nf = (int)c.r.i(1, 2), kind = c.idx % 4 ? (c.idx % 2 ? 0 : (int)c.r.i(0, 3)) : (int)c.r.i(4, 8); std::vector<FitFile> ff(nf); std::vector<char *> names;
  auto val = [&](double t) { return vf::fmt("%.3f", off + sl * t + c.r.n() * 0.5); };
  for (int k = 0; k < nf; k++) { make_fit_file(c, ff[k], vf::fmt("k%d.rnx", k).c_str(), ref, sec, (int)c.r.i(1, 60), ref, val, c.r.pick({10, 0, -1}), k ? 0.1 : 0, k ? 0.1 : 0); sec += 1000; }
  if (kind == 1) { auto &x = ff[0].x; bool done = false; for (auto &p : x.ep) if (p.b.size() > 1) { put(c.r, p.b[1].v[ff[0].f_idx], "1234567.125"); done = true; break; } if (!done) kind = 0; else { render(c.r, x); write(c.scratch(), "k0.rnx", header_text(x) + x.data); } }
  if (kind == 2) { auto &x = ff[nf - 1].x; x.data.resize(x.epoch_at.back() + 20); write(c.scratch(), vf::fmt("k%d.rnx", nf - 1), header_text(x) + x.data); }
  if (kind >= 4) { int w = (int)c.r.i(0, nf - 1); Rnx &x = ff[w].x; std::string h = header_text(x), t = x.data; size_t a = x.epoch_at[c.r.p(0.5) ? 0 : c.r.i(0, (long)x.ep.size() - 1)];
    if (kind == 4) { Rnx y; do { y = Rnx(); make_header(c.r, y); bool has = false; for (int k : y.codes) has |= k == 6; if (!has) break; } while (true); make_data(c.r, y, 10, 2); render(c.r, y); h = header_text(y); t = y.data; }
    if (kind == 5) t.replace(a + 7, 2, "13"); if (kind == 6) t.insert(t.find('\n', a), std::string(c.r.pick({130, 400, 5000}), ' ')); if (kind == 7) t.resize(a + c.r.i(1, 36)); if (kind == 8) t.replace(a + 34, 3, "  x");
    write(c.scratch(), vf::fmt("k%d.rnx", w), h + t); }
  for (auto &q : ff) names.push_back((char *)q.name.c_str()); std::string gone = c.scratch() + "/absent"; if (kind == 3) names[nf - 1] = (char *)gone.c_str();
  double sx = c.r.logu(1e-2, 1e2), sv = c.r.logu(1e-3, 1e3), sz = c.r.logu(1e-1, 1e2); Capture cap(c.scratch() + "/out"); int rc = dso::fit_relative_frequency_offset(names.data(), nf, sx, sv, sz); std::string out = cap.stop();
  if (kind) { c.check(rc != 0, "kalman_error_reported", "status %d, kind %d", rc, kind); c.event("kalman_errors"); return; }
  c.check(rc == 0, "kalman_status", "status %d", rc); size_t at = out.rfind("Model: "); double ga, gb; if (at == std::string::npos || sscanf(out.c_str() + at, "Model: %lf + %lf", &ga, &gb) != 2) { c.viol("kalman_output", "no model printed"); return; }
  long double N[2][2] = {{1 / ((long double)sx * sx), 0}, {0, 1 / ((long double)sv * sv)}}, h[2]; double x0 = ff[0].x.ep[0].b[0].v[ff[0].f_idx].v / ff[0].x.factor[ff[0].f_idx]; h[0] = N[0][0] * x0; h[1] = N[1][1] * 3; Date t0 = date(ff[0].x.ep[0].mjd, ff[0].x.ep[0].ns); long n = 0;
  for (auto &q : ff) for (auto &p : q.x.ep) { if (p.b.empty() || p.b[0].v[q.f_idx].missing) continue; long double d = (long double)date(p.mjd, p.ns).delta_sec(t0).as_underlying_type() / 86400e9L, z = p.b[0].v[q.f_idx].v / q.x.factor[q.f_idx], w = 1 / ((long double)sz * sz); N[0][0] += w; N[0][1] += w * d; N[1][1] += w * d * d; h[0] += w * z; h[1] += w * z * d; n++; }
  N[1][0] = N[0][1]; long double det = N[0][0] * N[1][1] - N[0][1] * N[1][0]; double ea = (double)((h[0] * N[1][1] - h[1] * N[0][1]) / det), eb = (double)((N[0][0] * h[1] - N[1][0] * h[0]) / det);
  std::string what = vf::fmt("%ld values sx %g sv %g sz %g", n, sx, sv, sz); c.near(ga, ea, 6e-5 + 1e-8 * std::fabs(ea), "kalman_offset", what); c.near(gb, eb, 6e-5 + 1e-7 * std::fabs(eb), "kalman_slope", what); c.event("kalman_fits"); c.distinct(what); c.sample(what);
}
