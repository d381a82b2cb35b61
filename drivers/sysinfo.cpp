// C17: DORIS system constants, beacon descriptions and tables; C18: antenna phase variations.
#include "doris_system_info.hpp"
#include "doris_observation_equations.hpp"
#include "beacon_tbl.hpp"
#include "vf.hpp"
#include <memory>

namespace {
using LD = long double;
using Date = dso::datetime<dso::nanoseconds>;
std::string pad(std::string s, size_t n) { s.resize(n, ' '); return s; }
std::string word(vf::Rng &r, int lo, int hi, bool spaces = false) {
  static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-./"; int n = (int)r.i(lo, hi); std::string s;
  for (int k = 0; k < n; k++) s += (spaces && k && k < n - 1 && r.p(0.15)) ? ' ' : a[r.i(0, (long)sizeof a - 2)];
  return s;
}
// the line in an exactly sized heap block, so that ASan sees reads beyond it
std::unique_ptr<char[]> heap(const std::string &s) { auto p = std::make_unique<char[]>(s.size() + 1); memcpy(p.get(), s.c_str(), s.size() + 1); return p; }
} // namespace

VF_GROUP(frequencies, 2000, 200000) {
  int k = c.r.p(0.1) ? c.r.pick({0, 1, -1, 127, -128, 999, -999}) : (int)c.r.i(-200, 200); double s1 = -1, u2 = -1;
  c.check(dso::beacon_nominal_frequency(k, s1, u2) == 0, "freq_status", "shift %d", k);
  LD f = 5e6L * 0.75L + 5e6L * 87.0L * k / (5.0L * 67108864.0L);
  c.near(s1, (double)(543.0L * f), 1e-6, "freq_s1", vf::fmt("k=%d", k)); c.near(u2, (double)(107.0L * f), 1e-6, "freq_u2", vf::fmt("k=%d", k));
  if (k == 0) { c.near(s1, dso::DORIS_FREQ1_MHZ * 1e6, 1e-6, "freq_base1", "base"); c.near(u2, dso::DORIS_FREQ2_MHZ * 1e6, 1e-6, "freq_base2", "base"); }
  c.near(dso::GAMMA_FACTOR, std::pow(2036.25 / 401.25, 2), 1e-11, "gamma", "gamma");
  // ionosphere free combination of the carriers of this beacon
  const LD C = 299792458.0L; double rho = c.r.logu(7e5, 5e6), K = c.r.p(0.1) ? 0 : c.r.logu(1e2, 1e9) * c.r.sgn();
  LD l1 = rho * (LD)s1 / C - K / (LD)s1, l2 = rho * (LD)u2 / C - K / (LD)u2, want = rho * (LD)s1 / C;
  double cor = dso::carrier_iono_correction((double)l1, (double)l2);
  c.near((double)l1 + cor, (double)want, 2e-15 * (double)std::fabs(want) * 4 + 1e-9, "iono_free", vf::fmt("k=%d rho=%.6g K=%.6g", k, rho, K));
  c.near(cor, (double)(K / (LD)s1), 1e-15 * (double)std::fabs(want) * 4 + 1e-9 + 1e-12 * std::fabs((double)(K / (LD)s1)), "iono_delay", vf::fmt("k=%d rho=%.6g K=%.6g", k, rho, K));
  // adding a common range leaves the correction unchanged
  double d = c.r.u() * 1e6, cor2 = dso::carrier_iono_correction((double)(l1 + d * (LD)s1 / C), (double)(l2 + d * (LD)u2 / C));
  c.near(cor2, cor, 1e-15 * (double)(std::fabs(want) + d * s1 / C) * 8 + 1e-9, "iono_common_range", vf::fmt("k=%d", k));
  c.event("frequency_sets"); c.distinct(vf::fmt("%d %d %d", k, (int)std::log10(rho), (int)std::log10(std::fabs(K) + 1)));
}

VF_GROUP(observation_codes, 400, 4000) {
  using T = dso::ObservationType; const T types[] = {T::phase, T::pseudorange, T::power_level, T::frequency_offset, T::ground_pressure, T::ground_temperature, T::ground_humidity}; const char *ch = "LCWFPTH";
  int k = (int)c.r.i(0, 6), f = c.r.p(0.7) ? (int)c.r.i(0, 3) : (int)c.r.i(-128, 127);
  c.check(dso::ObservationType_to_char(types[k]) == ch[k], "code_char", "type %d", k);
  c.check(dso::char_to_observationType(ch[k]) == types[k], "code_type", "char %c", ch[k]);
  bool hf = k < 3; c.check(dso::observationType_has_frequency(types[k]) == hf, "code_has_frequency", "type %d", k);
  bool threw = false; try { dso::ObservationCode oc(types[k], (int_fast8_t)f); c.check(!hf || f == 1 || f == 2, "code_bad_frequency", "type %c freq %d accepted", ch[k], f);
    c.check(oc.type() == types[k] && oc.m_freq == (hf ? f : 0) && oc.has_frequency() == hf, "code_members", "type %c freq %d gives freq %d", ch[k], f, (int)oc.m_freq);
    auto b = std::make_unique<char[]>(3); oc.to_str(b.get()); c.check(std::string(b.get()) == vf::fmt("%c%d", ch[k], hf ? f : 0), "code_to_str", "\"%s\" for %c%d", b.get(), ch[k], f);
    int k2 = (int)c.r.i(0, 6), f2 = (int)c.r.i(1, 2); dso::ObservationCode o2(types[k2], (int_fast8_t)f2); bool eq = k == k2 && (!hf || f == f2);
    c.check((oc == o2) == eq && (oc != o2) == !eq, "code_compare", "%c%d vs %c%d", ch[k], f, ch[k2], f2);
  } catch (std::runtime_error &) { threw = true; }
  c.check(threw == (hf && f != 1 && f != 2), "code_frequency_refused", "type %c freq %d threw=%d", ch[k], f, threw);
  char any = (char)c.r.i(-128, 127); if (!any || !strchr(ch, any)) { threw = false; try { dso::char_to_observationType(any); } catch (std::runtime_error &) { threw = true; } c.check(threw, "code_unknown_char", "char %d accepted", any); }
  c.event("codes"); c.distinct(vf::fmt("%d %d %d", k, f, any));
}

VF_GROUP(phase_center, 300, 20000) {
  dso::BeaconStation b; std::memset((void *)&b, 0x5a, sizeof b); char last = c.r.p(0.6) ? c.r.pick({'A', 'B', 'C'}) : (char)c.r.i(-128, 127);
  std::string code = word(c.r, 3, 3); std::memcpy(b.m_station_id, code.data(), 3); b.m_station_id[3] = last;
  bool known = last == 'A' || last == 'B' || last == 'C', t1 = false, t2 = false; Eigen::Matrix<double, 3, 1> pc; dso::GroundAntennaType ty{};
  try { pc = b.iono_free_phase_center(); } catch (std::runtime_error &) { t1 = true; }
  try { ty = b.type(); } catch (std::runtime_error &) { t2 = true; }
  c.check(t1 == !known && t2 == !known, "antenna_unknown", "letter %d known=%d threw=%d,%d", last, known, t1, t2);
  if (known && !t1 && !t2) {
    using G = dso::GroundAntennaType; c.check(ty == (last == 'A' ? G::Alcatel : last == 'B' ? G::Starec_B : G::Starec_C), "antenna_type", "letter %c", last);
    LD r2 = last == 'A' ? 510 : 487, r4 = last == 'A' ? 335 : 0, g = 2036.25L * 2036.25L / (401.25L * 401.25L);
    c.near(pc(2), (double)((r2 + (r2 - r4) / (g - 1)) * 1e-3L), 1e-14, "iono_free_pc", vf::fmt("antenna %c", last));
    c.check(pc(0) == 0 && pc(1) == 0, "iono_free_pc_plane", "antenna %c: %g %g", last, pc(0), pc(1));
  }
  c.event("phase_centers"); c.distinct(vf::fmt("%d", last));
}

VF_GROUP(beacon_line, 3000, 200000) {
  std::string id = vf::fmt("D%02ld", c.r.i(1, 99)), code = word(c.r, 3, 3) + c.r.pick({"A", "B", "C"}), name = word(c.r, 1, c.r.p(0.3) ? 29 : 14, true), domes = vf::fmt("%05ldS%03ld", c.r.i(10000, 99999), c.r.i(1, 999));
  int type = (int)c.r.i(1, 4), k = c.r.p(0.3) ? 0 : (int)c.r.i(-99, 127);
  std::string line = pad(id + "  " + code + " " + pad(name, 29) + " " + domes + " " + vf::fmt(c.r.p(0.25) && k >= 0 ? "%1d %03d" : "%1d %3d", type, k), 60) + "STATION REFERENCE";
  enum { good, shrt, notype, noshift, bytes } kind = c.r.p(0.5) ? good : (decltype(good))c.r.i(1, 4); std::string in = line;
  if (kind == shrt) in.resize(c.r.i(0, 59)); else if (kind == notype) in[50] = c.r.pick({' ', 'x', '-'}); else if (kind == noshift) in.replace(52, 8, c.r.p(0.5) ? "        " : " abc    ");
  else if (kind == bytes) for (int q = (int)c.r.i(1, 5); q > 0; q--) in[c.r.i(0, (long)in.size() - 1)] = (char)c.r.i(1, 255);
  dso::BeaconStation b; std::memset((void *)&b, 0x5a, sizeof b); auto p = heap(in); errno = c.r.p(0.5) ? ERANGE : 0; int rc = b.set_from_rinex_line(p.get()); std::string show = vf::fmt("kind %d rc %d line \"%s\"", (int)kind, rc, in.c_str());
  if (kind == good) {
    c.check(rc == 0, "line_refused", "%s", show.c_str());
    c.check(std::string(b.m_internal_code, 3) == id && std::string(b.m_station_id, 4) == code, "line_ids", "%s", show.c_str());
    c.check(std::string(b.m_station_name, strnlen(b.m_station_name, 30)) == name, "line_name", "%s", show.c_str());
    c.check(std::string(b.m_station_domes, strnlen(b.m_station_domes, 10)) == domes, "line_domes", "%s", show.c_str());
    c.check(b.m_type == type && b.m_shift_factor == k, "line_numbers", "type %d shift %d; %s", (int)b.m_type, b.m_shift_factor, show.c_str());
    auto o = std::make_unique<char[]>(52); b.to_str(o.get()); c.check(std::string(o.get()) == "[" + id + "/" + code + "_" + domes + "](" + name + ")", "line_to_str", "\"%s\" for %s", o.get(), show.c_str());
  } else if (kind != bytes) c.check(rc != 0, "line_accepted", "%s", show.c_str());
  else if (rc == 0) { auto o = std::make_unique<char[]>(52); b.to_str(o.get()); try { (void)b.iono_free_phase_center(); } catch (std::runtime_error &) {} c.event("damaged_lines_accepted"); }
  c.event(kind == good ? "lines_parsed" : "lines_damaged"); c.distinct(vf::fmt("%d %zu %d %d", (int)kind, name.size(), type, k));
}

VF_GROUP(beacon_table, 250, 10000) {
  struct E { std::string id; long f, t; double h; }; std::vector<E> es; int n = c.r.p(0.1) ? 0 : (int)c.r.i(1, c.r.p(0.2) ? 150 : 20);
  auto ymd = [](long sec) { int y, m, d; dso::core::mjd2cal(sec / 86400, y, m, d); long s = sec % 86400; return vf::fmt("%04d-%02d-%02d %02ld:%02ld:%02ld", y, m, d, s / 3600, s / 60 % 60, s % 60); };
  long base = c.r.i(48000, 60000) * 86400; std::string body = c.r.p(0.5) ? "SITE FROM                TO                  HEIGHT\n" : "\n";
  enum { good, cut, height, longline, missing } kind = c.r.p(0.7) ? good : (decltype(good))c.r.i(1, 4); if (!n && kind != missing) kind = good; int bad = n ? (int)c.r.i(0, n - 1) : 0;
  for (int k = 0; k < n; k++) {
    E e; e.id = word(c.r, 3, 3) + c.r.pick({"A", "B", "C"}); e.f = base + c.r.i(0, 400) * (c.r.p(0.5) ? 86400 : 40000); e.t = e.f + (c.r.p(0.1) ? 0 : c.r.i(1, 300) * 43200); std::string h = vf::fmt(c.r.pick({"%.3f", "%7.4f", "%.2f"}), c.r.n() * 300); if (c.r.p(0.05)) h = vf::fmt("%d", (int)c.r.i(0, 9)); e.h = strtod(h.c_str(), nullptr);
    std::string l = e.id + " " + ymd(e.f) + " " + ymd(e.t) + " " + h; while (l.size() < 46) l += " ";
    if (kind == cut && k == bad) l.resize(c.r.i(1, 45)); if (kind == height && k == bad) l = l.substr(0, 45) + c.r.pick({"abc", "-", "....", "x1.0", "1e999"}) + "     "; if (kind == longline && k == bad) l = pad(l, c.r.i(256, 700));
    es.push_back(e); body += l + "\n"; if (c.r.p(0.05)) body += "\n";
  }
  if (n && c.r.p(0.2)) while (body.back() == '\n') body.pop_back();
  std::string fn = c.scratch() + "/beacons.txt"; if (kind != missing) { FILE *o = fopen(fn.c_str(), "wb"); fwrite(body.data(), 1, body.size(), o); fclose(o); } else fn += ".none";
  dso::BeaconInformationTable tab(fn.c_str());
  for (int q = 0; q < 4; q++) {
    long t = n && c.r.p(0.6) ? c.r.pick({es[c.r.i(0, n - 1)].f, es[c.r.i(0, n - 1)].t}) + c.r.i(-1, 1) : base + c.r.i(-100, 800) * 86400; long long ns = c.r.p(0.2) ? c.r.i(0, 999999999) : 0;
    std::vector<dso::BeaconInformationTableEntry> v; bool threw = false; errno = c.r.p(0.5) ? ERANGE : 0;
    try { v = tab.load_to_memmory(Date(dso::modified_julian_day(t / 86400), dso::nanoseconds((t % 86400) * 1000000000LL + ns))); } catch (std::exception &) { threw = true; }
    c.check(threw == (kind != good), threw ? "table_refused" : "table_accepted", "kind %d, %d entries, threw %d", (int)kind, n, threw);
    if (kind != good || threw) { c.event("tables_refused"); continue; }
    std::vector<E> w; for (auto &e : es) if (t >= e.f && t < e.t) w.push_back(e);
    c.check(v.size() == w.size(), "table_count", "%zu entries for epoch, %zu in the file", v.size(), w.size());
    for (size_t k = 0; k < std::min(v.size(), w.size()); k++) c.check(std::string(v[k]._4charid, 4) == w[k].id && v[k]._height == w[k].h && v[k].from == Date(dso::modified_julian_day(w[k].f / 86400), dso::nanoseconds(w[k].f % 86400 * 1000000000LL)) && v[k].to == Date(dso::modified_julian_day(w[k].t / 86400), dso::nanoseconds(w[k].t % 86400 * 1000000000LL)), "table_entry", "entry %zu: %.4s %.9g, file has %s %.9g", k, v[k]._4charid, v[k]._height, w[k].id.c_str(), w[k].h);
    c.event("lookups"); c.event("entries_matched", (long)w.size());
  }
  c.distinct(vf::fmt("%d %d %s", (int)kind, n, body.c_str()));
}

#include "sysinfo_pcv.hpp"
