// C25: SINEX coordinate extrapolation, relativistic clock terms, configuration look-ups.
#include "doris_observation_equations.hpp"
#include "doris_utils.hpp"
#include "sinex/sinex.hpp"
#include "var_utils.hpp"
#include "iers2010/iersc.hpp"
#include "vf.hpp"
#include <set>
typedef long double ld;
typedef Eigen::Matrix<double, 3, 1> D3;

VF_GROUP(clock, 20000, 400000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 6);
  D3 p(r.n(), r.n(), r.n()), v(r.n(), r.n(), r.n());
  double rad = r.p(0.3) ? r.u(6.3e6, 6.4e6) : r.logu(6.4e6, 1e9), sp = r.logu(1e-3, 1e5);
  p *= rad / p.norm(); v *= sp / v.norm();
  if (kind == 1) p = D3(0, 0, r.sgn() * rad);
  if (kind == 2) { p(2) = 0; p *= rad / p.norm(); }
  if (kind == 3) v.setZero();
  if (kind == 4) { double z = r.u(-1, 1); double a = r.u(0, 7); p = rad * D3(sqrt(1 - z * z) * cos(a), sqrt(1 - z * z) * sin(a), z); }
  double GM = r.p(0.5) ? 3.986004415e14 : r.logu(1e10, 1e15), J2 = r.p(0.5) ? 1.08263585e-3 : r.p(0.2) ? 0 : r.u(-1e-2, 1e-2), Re = r.p(0.5) ? 6378136.46 : r.u(6e6, 7e6);
  c.distinct(vf::fmt("%d %d %d %d", kind, (int)(log10(rad) * 10), (int)(p(2) / rad * 20), (int)(log10(sp) * 4)));
  std::string tag = vf::fmt("r=(%.17g,%.17g,%.17g) v=(%.17g,%.17g,%.17g) GM=%.17g J2=%.17g Re=%.17g", p(0), p(1), p(2), v(0), v(1), v(2), GM, J2, Re);
  ld R = sqrtl((ld)p(0) * p(0) + (ld)p(1) * p(1) + (ld)p(2) * p(2)), V2 = (ld)v(0) * v(0) + (ld)v(1) * v(1) + (ld)v(2) * v(2);
  ld U0 = GM / R, sz = p(2) / R, U2 = U0 * (1 - (Re / R) * (Re / R) * J2 * (3 * sz * sz - 1) / 2), C = 299792458.0L;
  c.near(dso::relativistic_clock_correction(p, v, GM), (double)((U0 + V2 / 2) / C), (double)((U0 + V2) / C) * 1e-14, "monopole", tag);
  c.near(dso::relativistic_clock_correction(p, v, GM, J2, Re), (double)((U2 + V2 / 2) / C), (double)((U0 + V2) / C) * 2e-14, "monopole_and_j2", tag);
  // symmetric about the axis and the equator, the J2 term vanishes with J2
  D3 q(-p(1), p(0), -p(2));
  c.near(dso::relativistic_clock_correction(q, v, GM, J2, Re), dso::relativistic_clock_correction(p, v, GM, J2, Re), (double)((U0 + V2) / C) * 4e-14, "axial_and_equatorial_symmetry", tag);
  c.near(dso::relativistic_clock_correction(p, v, GM, 0, Re), dso::relativistic_clock_correction(p, v, GM), (double)((U0 + V2) / C) * 2e-14, "no_j2_equals_monopole", tag);
  c.event("clock corrections", 5);
}

namespace {
using SX = dso::sinex::SolutionEstimate;
struct Site { std::string id; double x[3], v[3]; bool in_ids = true, complete = true; dso::datetime<dso::microseconds> t0; };
dso::datetime<dso::microseconds> when(vf::Rng &r) { return dso::datetime<dso::microseconds>{dso::modified_julian_day(r.i(48000, 60000)), dso::microseconds(r.p(.5) ? 0 : r.i(0, 86399) * 1000000L)}; }
std::string code(vf::Rng &r) { std::string s; for (int i = 0; i < 3; i++) s += (char)('A' + r.i(0, 25)); return s + "ABCDEF"[r.i(0, 5)]; }
void put(std::vector<SX> &v, const char *p, const Site &s, const char *u, double val, const dso::datetime<dso::microseconds> &t) {
  SX e; memset(e.m_param_type, 0, 7); memset(e.m_units, 0, 5); memset(e.m_site_code, 0, 5); memcpy(e.m_point_code, " A", 3); memcpy(e.m_soln_id, "   1", 5);
  snprintf(e.m_param_type, 7, "%-6s", p); snprintf(e.m_units, 5, "%-4s", u); snprintf(e.m_site_code, 5, "%s", s.id.c_str());
  e.m_epoch = t; e.m_estimate = val; e.m_std_deviation = 1e-3; v.push_back(e);
}
} // namespace

VF_GROUP(sinex, 2500, 50000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 6); // 0,1 all present; 2 sites absent; 3 estimates missing; 4 bad units; 5 unreadable
  int n = (int)r.i(1, 12), extra = (int)r.i(0, 6);
  std::vector<Site> sites; std::set<std::string> used;
  while ((int)sites.size() < n + extra) {
    Site s; s.id = code(r);
    if (r.p(0.3) && !sites.empty()) { s.id = sites.back().id; s.id[r.i(0, 3)] = (char)('A' + r.i(0, 25)); } // codes that differ by one character
    if (!used.insert(s.id).second) continue;
    for (int k = 0; k < 3; k++) { s.x[k] = r.u(-6.4e6, 6.4e6); s.v[k] = r.p(0.1) ? 0 : r.n() * .03; }
    s.t0 = when(r); sites.push_back(s);
  }
  int nbad = 0;
  std::string fn = "memory.snx";
  auto &doc = dso::sinex::vf_docs()[fn]; doc = {};
  if (kind >= 2 && kind < 5) nbad = (int)r.i(1, n);
  for (int i = 0; i < nbad; i++) { Site &s = sites[r.i(0, n - 1)]; if (kind == 2) s.in_ids = false; else s.complete = false; }
  if (kind == 5) { if (r.p(0.5)) doc.fail_sites = 1; else doc.fail_est = 1; }
  static const char *P[6] = {"STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"};
  for (auto &s : sites) {
    if (s.in_ids) { dso::sinex::SiteId d{}; snprintf(d.m_site_code, 5, "%s", s.id.c_str()); doc.sites.push_back(d); }
    int drop = s.complete ? -1 : (int)r.i(0, 5);
    auto t1 = r.p(0.1) ? when(r) : s.t0; bool other = r.p(0.2);
    for (int k = 0; k < 6; k++) {
      if (k == drop && kind == 3) continue;
      const char *u = k < 3 ? "m" : r.p(0.5) ? "m/y" : "m/yr";
      if (k == drop && kind == 4) u = k < 3 ? r.pick({"mm", "cm", "km", "m/y"}) : r.pick({"mm/y", "m", "m/s"});
      put(doc.est, P[k], s, u, k < 3 ? s.x[k] : s.v[k - 3], k < 3 ? s.t0 : t1);
    }
    if (other) put(doc.est, "PHASEX", s, "m", 123.4, s.t0);
  }
  auto shuffle = [&](auto &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.i(0, (long)i - 1)]); };
  shuffle(doc.sites); shuffle(doc.est);
  // beacons in a random order, not the file's
  std::vector<Site> req(sites.begin(), sites.begin() + n); shuffle(req);
  std::vector<dso::BeaconStation> bs(n);
  for (int i = 0; i < n; i++) memcpy(bs[i].m_station_id, req[i].id.c_str(), 4);
  auto t = when(r); bool strict = r.p(0.5);
  int bad = 0; for (auto &s : req) bad += !s.in_ids || !s.complete;
  std::vector<dso::BeaconCoordinates> out; bool junk = r.p(0.5);
  if (junk) { out.resize(r.i(1, 20)); for (auto &o : out) { memcpy(o.id, "JUNK", 5); o.x = o.y = o.z = 1; } }
  bool nano = r.p(0.3), raw = !nano && r.p(0.4); int err;
  if (raw) { // the caller's own list of codes and an exactly sized array
    std::vector<char *> ids; for (auto &s : req) { char *q = new char[4 + r.i(1, 3)]; memcpy(q, s.id.c_str(), 5); ids.push_back(q); }
    out.assign(n, {}); int got = (int)r.i(-3, 40); dso::BeaconCoordinates *res = new dso::BeaconCoordinates[n];
    err = strict && r.p(0.5) ? dso::extrapolate_sinex_coordinates(fn.c_str(), ids.data(), n, t, res, got) : dso::extrapolate_sinex_coordinates(fn.c_str(), ids.data(), n, t, res, got, strict);
    c.check(got >= 0 && got <= n, "result_count", "%d results of %d beacons", got, n); if (got >= 0 && got <= n) { out.assign(res, res + got); } else out.clear();
    for (int i = 0; i < n; i++) c.check(!strncmp(ids[i], req[i].id.c_str(), 5), "codes_unchanged", "beacon %d", i);
    for (auto q : ids) delete[] q; delete[] res; c.event("code list overload");
  } else if (strict && !nano && r.p(0.5)) { err = dso::extrapolate_sinex_coordinates(fn.c_str(), bs, t, out); c.event("default policy"); }
  else if (nano) err = dso::extrapolate_sinex_coordinates(fn.c_str(), bs, t.cast_to<dso::nanoseconds>(), out, strict);
  else err = dso::extrapolate_sinex_coordinates(fn.c_str(), bs, t, out, strict);
  std::string tag = vf::fmt("kind %d: %d beacons, %d without coordinates, %s", kind, n, bad, strict ? "missing is an error" : "missing is skipped");
  c.distinct(vf::fmt("%d n%d b%d x%d s%d n%d j%d", kind, n, bad, extra, strict, nano, junk));
  if (kind == 5) { c.check(err != 0, "unreadable_is_error", "%s: status 0", tag.c_str()); c.event("unreadable files"); return; }
  if (bad && strict) { c.check(err != 0, "missing_beacon_is_error", "%s: status 0 with %zu results", tag.c_str(), out.size()); c.event("missing reported"); return; }
  c.check(err == 0, "available_beacons_returned", "%s: status %d", tag.c_str(), err);
  if (err) return;
  c.check((int)out.size() == n - bad, "one_result_per_beacon", "%s: %zu results", tag.c_str(), out.size());
  size_t j = 0;
  for (int i = 0; i < n && j < out.size(); i++) {
    const Site &s = req[i];
    if (!s.in_ids || !s.complete) { c.event("missing skipped"); continue; }
    const auto &o = out[j++];
    c.check(!strncmp(o.id, s.id.c_str(), 4), "requested_order", "%s: result %zu is %.4s, expected %s", tag.c_str(), j - 1, o.id, s.id.c_str());
    ld dt = ((t.mjd() - s.t0.mjd()).as_underlying_type() + (t.sec().as_underlying_type() - s.t0.sec().as_underlying_type()) / 86400e6L) / 365.25L;
    const double g[3] = {o.x, o.y, o.z};
    for (int k = 0; k < 3; k++) c.near(g[k], (double)(s.x[k] + s.v[k] * dt), 4e-9, "coordinates_at_epoch", tag + vf::fmt(" %s comp %d", s.id.c_str(), k));
    c.event("beacons extrapolated");
  }
}

namespace {
struct Leaf { std::string k1, k2, k3, text; double num; bool is_num, depth3; };
}
VF_GROUP(configuration, 2500, 50000) {
  vf::Rng &r = c.r;
  auto key = [&] { return r.pick({std::string("data"), std::string("gravity"), std::string("degree"), std::string("a-b"), std::string("x"), std::string("eop-c04"), std::string("spice-kernels")}) + (r.p(.5) ? std::to_string(r.i(0, 5)) : ""); };
  YAML::Node root = YAML::Node::map(); std::map<std::string, YAML::Node> top; std::vector<Leaf> L; std::set<std::string> seen;
  int n = (int)r.i(1, 10);
  std::map<std::string, YAML::Node> sub;
  for (int i = 0; i < n; i++) {
    Leaf l; l.k1 = key(); l.k2 = key(); l.depth3 = r.p(.4); l.k3 = l.depth3 ? key() : "";
    std::string p2 = l.k1 + "/" + l.k2;
    if (seen.count(p2 + "/" + l.k3) || (l.depth3 ? seen.count(p2 + "/") : seen.count(p2 + "!"))) continue;
    seen.insert(p2 + "/" + l.k3); if (l.depth3) seen.insert(p2 + "!");
    l.is_num = r.p(.5); l.num = r.p(.5) ? (double)r.i(-1000, 1000) : r.n() * 1e3;
    l.text = l.is_num ? vf::fmt("%.17g", l.num) : "path/to/" + std::string((size_t)r.i(0, 60), 'x') + ".dat";
    if (!sub.count(l.k1)) { sub[l.k1] = YAML::Node::map(); root.set(l.k1, sub[l.k1]); }
    if (l.depth3) { if (!sub.count(p2)) { sub[p2] = YAML::Node::map(); sub[l.k1].set(l.k2, sub[p2]); } sub[p2].set(l.k3, YAML::Node(l.text)); }
    else sub[l.k1].set(l.k2, YAML::Node(l.text));
    L.push_back(l);
  }
  for (auto &l : L) {
    std::vector<char> buf(l.text.size() + 1, '#'); double d = -7e77; std::string s; int i = -77;
    auto get = [&](auto &val) { return l.depth3 ? dso::get_yaml_value_depth3(root, l.k1.c_str(), l.k2.c_str(), l.k3.c_str(), val) : dso::get_yaml_value_depth2(root, l.k1.c_str(), l.k2.c_str(), val); };
    char *b = buf.data();
    int e = l.depth3 ? dso::get_yaml_value_depth3(root, l.k1.c_str(), l.k2.c_str(), l.k3.c_str(), b) : dso::get_yaml_value_depth2(root, l.k1.c_str(), l.k2.c_str(), b);
    c.check(!e && l.text == buf.data(), "configured_text", "%s/%s/%s: status %d", l.k1.c_str(), l.k2.c_str(), l.k3.c_str(), e);
    e = get(s); c.check(!e && s == l.text, "configured_text", "%s/%s/%s as string: status %d", l.k1.c_str(), l.k2.c_str(), l.k3.c_str(), e);
    e = get(d); c.check(l.is_num ? (!e && d == l.num) : (e != 0 && d == -7e77), "configured_number", "%s/%s/%s=%s as number: status %d value %g", l.k1.c_str(), l.k2.c_str(), l.k3.c_str(), l.text.c_str(), e, d);
    bool integer = l.is_num && l.num == floor(l.num) && l.text.find_first_of("e.") == std::string::npos;
    e = get(i); c.check(integer ? (!e && i == (int)l.num) : e != 0, "configured_number", "%s as integer: status %d value %d", l.text.c_str(), e, i);
    c.event("values looked up", 4);
    // neighbours that are not configured
    std::string w = l.k2 + "_", keep = "unchanged"; char cb[16] = "unchanged";
    e = dso::get_yaml_value_depth2(root, l.k1.c_str(), w.c_str(), keep);
    c.check(e != 0 && keep == "unchanged", "absent_is_reported", "%s/%s: status %d", l.k1.c_str(), w.c_str(), e);
    e = dso::get_yaml_value_depth2(root, (l.k1 + "?").c_str(), l.k2.c_str(), (char *)cb);
    c.check(e != 0 && !strcmp(cb, "unchanged"), "absent_is_reported", "%s?/%s: status %d", l.k1.c_str(), l.k2.c_str(), e);
    e = dso::get_yaml_value_depth3(root, l.k1.c_str(), w.c_str(), l.k3.c_str(), (char *)cb);
    c.check(e != 0 && !strcmp(cb, "unchanged"), "absent_is_reported", "%s/%s/%s: status %d", l.k1.c_str(), w.c_str(), l.k3.c_str(), e);
    if (!l.depth3) { e = dso::get_yaml_value_depth3(root, l.k1.c_str(), l.k2.c_str(), "deeper", keep); c.check(e != 0 && keep == "unchanged", "absent_is_reported", "%s/%s/deeper: status %d", l.k1.c_str(), l.k2.c_str(), e); }
    c.distinct(vf::fnv((l.k1 + l.k2 + l.k3 + l.text).data(), (l.k1 + l.k2 + l.k3 + l.text).size()));
    c.event("absent keys looked up", 3);
  }
}
