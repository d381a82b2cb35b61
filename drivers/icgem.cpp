// C01 / C02: ICGEM reader against an independent writer/parser.
#include "icgemio.hpp"
#ifdef VARIANT_SRC
#include "egravity.hpp"
#endif
#include "vf.hpp"
#include <algorithm>
#include <fstream>
#include <sstream>

namespace {
struct Rec { int l, m; double c, s; };
struct Model {
  std::string text, name, product, norm, tide, errors;
  double gm, re; int maxdeg; bool has_norm = false;
  std::map<std::pair<int, int>, Rec> rec;
  std::vector<std::string> header, data;
  bool final_newline = true;
  std::string eol = "\n";
  std::string render() const {
    std::string t;
    for (auto &h : header) t += h + eol;
    for (size_t k = 0; k < data.size(); k++) t += data[k] + ((k + 1 < data.size() || final_newline) ? eol : "");
    return t;
  }
};

std::string blanks(vf::Rng &r, int a, int b) { return std::string((size_t)r.i(a, b), ' '); }

// prints x; whatever is printed (fewer digits, unusual but legal spellings) becomes the value of x
std::string number(vf::Rng &r, double &x, int style, bool fancy = false) {
  char b[128];
  std::string s;
  int form = fancy && r.p(0.25) ? (int)r.i(1, 8) : 0;
  if ((form == 2 || form == 5) && !(std::fabs(x) < 1e20)) form = 0;
  switch (form) {
  case 1: snprintf(b, sizeof b, "%+.*e", (int)r.i(16, 18), x); break;
  case 2: snprintf(b, sizeof b, "%.*f", (int)r.i(12, 25), x); break;
  case 3: snprintf(b, sizeof b, "%.*e", (int)r.i(28, 45), x); break;
  case 4: snprintf(b, sizeof b, "%.*e", (int)r.i(0, 5), x); break;
  case 5: snprintf(b, sizeof b, "%ld.", (long)r.i(-9, 9)); break;
  case 6: snprintf(b, sizeof b, "%s.%lde-%ld", r.p(0.5) ? "-" : "", r.i(1, 99999999), r.i(0, 12)); break;
  case 7: snprintf(b, sizeof b, "%ld%.9ld%.9lde%s%.3ld", r.i(1, 9), r.i(0, 999999999), r.i(0, 999999999), r.p(0.3) ? "+" : "-", r.i(0, 25)); break;
  case 8: snprintf(b, sizeof b, "%ld", (long)r.i(-3, 3)); break;
  default: snprintf(b, sizeof b, "%.*e", (int)r.i(16, 18), x);
  }
  s = b;
  x = strtod(b, nullptr);
  if (style == 1) for (auto &ch : s) if (ch == 'e') ch = 'D';
  if (style == 2) for (auto &ch : s) if (ch == 'e') ch = 'd';
  if (style == 3) for (auto &ch : s) if (ch == 'e') ch = 'E';
  return s;
}
std::string number(vf::Rng &r, double &&x, int style) { double y = x; return number(r, y, style); }

Model gen_model(vf::Rng &r, int maxdeg, bool plain) {
  Model m;
  static const std::vector<std::string> names = {"EGM2008", "GGM05C", "EIGEN-6S4v2", "x", "GOCO06s_with_a_rather_long_model_name_for_a_gravity_field"};
  static const std::vector<std::string> errs = {"formal", "no", "calibrated", "calibrated_and_formal"};
  static const std::vector<std::string> norms = {"fully_normalized", "unnormalized"};
  static const std::vector<std::string> tides = {"tide_free", "zero_tide", "mean_tide", "unknown"};
  m.name = r.pick(names); m.errors = r.pick(errs); m.tide = r.pick(tides); m.product = "gravity_field";
  m.has_norm = r.p(0.7);
  m.norm = m.has_norm ? r.pick(norms) : "fully_normalized";
  m.gm = 3.986004415e14 * r.u(0.5, 2); m.re = 6378136.3 * r.u(0.5, 2); m.maxdeg = maxdeg;
  const int style = plain ? 0 : (int)r.i(0, 3);
  const bool tabs = !plain && r.p(0.15);
  auto gap = [&](int a, int b) { std::string g = blanks(r, a, b); if (tabs) for (auto &ch : g) if (r.p(0.3)) ch = '\t'; return g; };
  auto trail = [&]() { return plain ? std::string() : blanks(r, 0, 3) + (r.p(0.2) ? "  some remark" : ""); };
  auto kv = [&](const char *k, const std::string &v) { return blanks(r, 0, plain ? 0 : 2) + k + gap(1, 20) + v + trail(); };
  std::vector<std::string> h = {kv("product_type", m.product), kv("modelname", m.name),
      kv("earth_gravity_constant", number(r, m.gm, style)), kv("radius", number(r, m.re, style)),
      kv("max_degree", std::to_string(maxdeg)), kv("errors", m.errors)};
  if (m.has_norm) h.push_back(kv("norm", m.norm));
  if (r.p(0.7)) h.push_back(kv("tide_system", m.tide));
  for (size_t k = h.size(); k > 1; k--) std::swap(h[k - 1], h[(size_t)r.i(0, (long)k - 1)]);
  std::vector<std::string> head;
  int nc = plain ? 0 : (int)r.i(0, 6);
  for (int k = 0; k < nc; k++) head.push_back(r.p(0.3) ? "" : (r.p(0.2) ? "   " : r.p(0.25) ? "gfc    2    0   5.0   5.0  0.0  0.0   (how records look like)" : "comment line: the modelname is below, max_degree too"));
  if (r.p(0.7)) head.push_back("begin_of_head ===========================");
  for (auto &x : h) { head.push_back(x); if (!plain && r.p(0.15)) head.push_back("key    L    M    C    S    sigma C   sigma S"); }
  if (!plain && r.p(0.3)) { // words that only begin like a keyword
    static const std::vector<std::string> dec = {"max_degree_of_errors 2", "radius_unit m", "modelname_long Another Name", "normalisation unnormalized",
        "errors_unit none", "tide_system_note mean_tide", "earth_gravity_constant_unit 7.0", "product_type_id 4", "the radius 1.0", "= max_degree 1"};
    for (long k = r.i(1, 4); k > 0; k--) head.insert(head.begin() + r.i(0, (long)head.size()), blanks(r, 0, 3) + r.pick(dec));
  }
  if (!plain && r.p(0.1)) { // up to the documented line length
    std::string l = "a long remark ";
    l.resize((size_t)r.i(200, 254), '-');
    head.insert(head.begin() + r.i(0, (long)head.size()), l);
  }
  if (!plain && r.p(0.02)) head.insert(head.begin() + r.i(0, (long)head.size()), (size_t)r.i(50, 900), "remark");
  head.push_back("end_of_head ======================================");
  m.header = head;
  bool skip1 = r.p(0.4);        // degree one not given
  bool skip1partial = r.p(0.1); // only one of them given
  for (int l = 0; l <= maxdeg; l++)
    for (int k = 0; k <= l; k++) {
      if (l == 1 && skip1) continue;
      if (l == 1 && k == 1 && skip1partial) continue;
      Rec q{l, k, r.n() * std::pow(10.0, -r.u(0, 14)), k ? r.n() * std::pow(10.0, -r.u(0, 14)) : 0.0};
      if (r.p(0.05)) q.c = 0;
      m.rec[{l, k}] = q;
      std::string line = "gfc " + gap(0, 4) + std::to_string(l) + gap(1, 5) + std::to_string(k) + gap(1, 4) + number(r, q.c, style, !plain);
      line += gap(1, 4) + (q.s == 0 && (!k || r.p(0.3)) ? std::string(r.p(0.5) ? "0.0" : style == 1 ? "0.000000000000D+00" : "0") : number(r, q.s, style, !plain && k));
      m.rec[{l, k}] = q;
      if (!plain && r.p(0.01)) { line.resize((size_t)r.i(400, 510), ' '); m.data.push_back(line); continue; }
      if (r.p(0.5)) line += " 1.0e-12 " + number(r, 3e-12, style);
      m.data.push_back(line);
      if (!plain && r.p(0.03)) m.data.push_back("");
      if (!plain && r.p(0.03)) m.data.push_back("gfct 2 0 1.0 2.0 0 0 20050101");
      if (!plain && r.p(0.03)) m.data.push_back("# gfc 1 1 9.0 9.0");
    }
  if (!plain && r.p(0.5))
    for (size_t k = m.data.size(); k > 1; k--) std::swap(m.data[k - 1], m.data[(size_t)r.i(0, (long)k - 1)]);
  m.final_newline = r.p(0.7);
  if (!plain && r.p(0.1)) m.eol = "\r\n";
  return m;
}

std::string put(vf::Ctx &c, const std::string &text) {
  std::string fn = c.scratch() + "/m.gfc";
  std::ofstream f(fn, std::ios::binary);
  f.write(text.data(), (std::streamsize)text.size());
  return fn;
}
void poison(dso::HarmonicCoeffs &h) {
  for (int n = 0; n <= h.degree(); n++)
    for (int k = 0; k <= n; k++) { h.C(n, k) = 7.125; if (k) h.S(n, k) = -7.125; }
}
} // namespace

// well-formed files: every coefficient up to (l,m), zero elsewhere, header fields
VF_GROUP(valid_load, 1200, 20000) {
  const int maxdeg = (int)c.r.i(1, c.r.p(0.1) ? 40 : 12);
  Model m = gen_model(c.r, maxdeg, false);
  std::string text = m.render();
  std::string fn = put(c, text);
  c.sample(vf::fmt("max degree %d, %zu records, %zu bytes, name %s", maxdeg, m.rec.size(), text.size(), m.name.c_str()));
  dso::Icgem g(fn.c_str());
  if (!c.check(g.parse_header() == 0, "header-accepted", "valid header refused (case text starts %s)", text.substr(0, 300).c_str())) return;
  c.check(g.degree() == maxdeg, "max-degree", "got %d expected %d", g.degree(), maxdeg);
  c.check(g.gm() == m.gm, "gm", "got %.17g expected %.17g", g.gm(), m.gm);
  c.check(g.earth_radius() == m.re, "radius", "got %.17g expected %.17g", g.earth_radius(), m.re);
#ifdef VARIANT_SRC
  c.check(g.is_normalized() == (m.norm == "fully_normalized"), "norm", "norm '%s' reported normalised=%d", m.norm.c_str(), g.is_normalized());
#endif
  for (int rep = 0; rep < 3; rep++) {
    int l = (int)c.r.i(0, maxdeg), o = (int)c.r.i(0, l);
    if (rep == 0) { l = maxdeg; o = l; }
    if (rep == 1 && c.r.p(0.3)) o = 0;
    int cap = l + (int)c.r.i(0, c.r.p(0.1) ? 30 : 3);
    dso::HarmonicCoeffs h(cap);
    poison(h);
    int rc = g.parse_data(l, o, &h);
    c.distinct(vf::fmt("%d/%d/%d/%zu/%d/%d", maxdeg, l, o, m.rec.size(), m.final_newline, (int)m.eol.size()));
    if (!c.check(rc == 0, "data-accepted", "valid data refused: deg %d ord %d max %d text %s", l, o, maxdeg, text.substr(text.size() > 300 ? text.size() - 300 : 0).c_str())) continue;
    c.event("coefficients-compared", (l + 1) * (l + 1));
#ifdef VARIANT_SRC
    c.check(h.GM() == m.gm && h.Re() == m.re, "constants", "GM/Re of the coefficients %g %g", h.GM(), h.Re());
    c.check(h.normalized() == (m.norm == "fully_normalized"), "norm-flag", "flag %d", h.normalized());
#endif
    for (int n = 0; n <= cap; n++)
      for (int k = 0; k <= n; k++) {
        double ec = 0, es = 0;
        auto it = m.rec.find({n, k});
        if (n <= l && k <= o && it != m.rec.end()) { ec = it->second.c; es = it->second.s; }
        if (h.C(n, k) != ec) { c.viol("C-value", vf::fmt("C(%d,%d)=%.17g expected %.17g, asked %d/%d", n, k, h.C(n, k), ec, l, o)); return; }
        if (k && h.S(n, k) != es) { c.viol("S-value", vf::fmt("S(%d,%d)=%.17g expected %.17g, asked %d/%d", n, k, h.S(n, k), es, l, o)); return; }
      }
  }
  // what the model does not have is an error
  {
    int big = maxdeg + (int)c.r.i(1, 5);
    dso::HarmonicCoeffs h(big + 2);
    c.check(g.parse_data(big, (int)c.r.i(0, big), &h) != 0, "degree-too-large", "degree %d of a degree %d model accepted", big, maxdeg);
    int l = (int)c.r.i(0, maxdeg);
    c.check(g.parse_data(l, l + (int)c.r.i(1, 2), &h) != 0, "order-too-large", "order > degree accepted (degree %d)", l);
    dso::HarmonicCoeffs sm(maxdeg > 1 ? maxdeg - 1 : 0);
    if (maxdeg >= 1) c.check(g.parse_data(maxdeg, maxdeg, &sm) != 0, "container-too-small", "accepted into a smaller container");
  }
#ifdef VARIANT_SRC
  {
    dso::HarmonicCoeffs h((int)c.r.i(0, 6));
    int l = (int)c.r.i(0, maxdeg), o = (int)c.r.i(0, l);
    int rc = dso::parse_gravity_model(fn.c_str(), l, o, h, false);
    if (c.check(rc == 0, "model-accepted", "parse_gravity_model refused %d/%d", l, o)) {
      c.check(h.degree() == l, "model-degree", "degree %d expected %d", h.degree(), l);
      for (int n = 0; n <= l; n++)
        for (int k = 0; k <= n; k++) {
          double ec = 0, es = 0;
          auto it = m.rec.find({n, k});
          if (k <= o && it != m.rec.end()) { ec = it->second.c; es = it->second.s; }
          if (h.C(n, k) != ec || (k && h.S(n, k) != es)) { c.viol("model-value", vf::fmt("(%d,%d) of %d/%d", n, k, l, o)); return; }
        }
    }
    // de-normalised loading
    int rc2 = dso::parse_gravity_model(fn.c_str(), l, l, h, true);
    if (c.check(rc2 == 0, "model-accepted", "parse_gravity_model(denormalize) refused %d", l)) {
      const bool wasn = m.norm == "fully_normalized";
      for (int n = 0; n <= l; n++)
        for (int k = 0; k <= n; k++) {
          long double f = 1;
          if (wasn) {
            f = (2.0L * n + 1) * (k ? 2 : 1);
            for (int q = n - k + 1; q <= n + k; q++) f /= q;
            f = sqrtl(f);
          }
          double ec = 0, es = 0;
          auto it = m.rec.find({n, k});
          if (it != m.rec.end()) { ec = (double)(it->second.c * f); es = (double)(it->second.s * f); }
          if (std::fabs(h.C(n, k) - ec) > 1e-13 * std::fabs(ec) || (k && std::fabs(h.S(n, k) - es) > 1e-13 * std::fabs(es))) {
            c.viol("model-denormalized", vf::fmt("(%d,%d): %.17g expected %.17g", n, k, h.C(n, k), ec)); return; }
        }
      c.check(!h.normalized(), "model-denormalized-flag", "still flagged normalised");
    }
    dso::HarmonicCoeffs q(1);
    c.check(dso::parse_gravity_model(fn.c_str(), maxdeg + 1, 0, q, true) != 0, "model-degree-too-large", "accepted");
    c.check(dso::parse_gravity_model((fn + ".nope").c_str(), 0, 0, q, true) != 0, "no-file", "missing file accepted");
  }
#endif
}

// degrees of real models (the record order as in published files, or by order)
VF_GROUP(large_model, 3, 24) {
  const int maxdeg = (int)c.r.i(130, c.thorough ? 700 : 380);
  Model m = gen_model(c.r, 2, true);
  std::string t;
  for (auto &h : m.header) if (h.find("max_degree") == std::string::npos) t += h.compare(0, 11, "end_of_head") ? h + "\n" : vf::fmt("max_degree %d\n", maxdeg) + h + "\n";
  auto val = [&](int n, int k, int w) { // an exact decimal that identifies the coefficient
    long v = ((long)n * 1000 + k) * 10 + w + 1;
    return vf::fmt("%s%ld.%03lde-0%d", (n + k + w) % 2 ? "-" : "", v / 1000, v % 1000, (n + k) % 9 + 1);
  };
  const bool byorder = c.idx % 2, decreasing = c.idx % 3 == 2, skip1 = c.r.p(0.5);
  std::vector<std::pair<int, int>> lk;
  if (byorder) { for (int k = 0; k <= maxdeg; k++) for (int n = k; n <= maxdeg; n++) lk.push_back({n, k}); }
  else for (int n = 0; n <= maxdeg; n++) for (int k = 0; k <= n; k++) lk.push_back({n, k});
  if (decreasing) std::reverse(lk.begin(), lk.end());
  for (auto &x : lk) {
    if (skip1 && x.first == 1) continue;
    t += vf::fmt("gfc %4d %4d ", x.first, x.second) + val(x.first, x.second, 0) + " " + (x.second ? val(x.first, x.second, 1) : std::string("0.0")) + "\n";
  }
  std::string fn = put(c, t);
  dso::Icgem g(fn.c_str());
  if (!c.check(g.parse_header() == 0, "header-accepted", "degree %d", maxdeg)) return;
  c.check(g.degree() == maxdeg, "max-degree", "got %d expected %d", g.degree(), maxdeg);
  for (int rep = 0; rep < 3; rep++) {
    int l = rep == 0 ? maxdeg : (int)c.r.i(1, maxdeg), o = rep == 0 ? l : rep == 1 ? (int)c.r.i(0, std::min(l, 4)) : (int)c.r.i(0, l);
    dso::HarmonicCoeffs h(l + (int)c.r.i(0, 2));
    poison(h);
    c.distinct(vf::fmt("degree %d by %s%s, asked %d/%d", maxdeg, byorder ? "order" : "degree", decreasing ? " decreasing" : "", l, o));
    int rc = g.parse_data(l, o, &h);
    if (!c.check(rc == 0, "data-accepted", "degree %d, asked %d/%d", maxdeg, l, o)) continue;
    c.event("coefficients-compared", (l + 1) * (l + 1));
    for (int n = 0; n <= h.degree(); n++)
      for (int k = 0; k <= n; k++) {
        const bool has = n <= l && k <= o && !(skip1 && n == 1);
        double ec = has ? strtod(val(n, k, 0).c_str(), nullptr) : 0, es = has && k ? strtod(val(n, k, 1).c_str(), nullptr) : 0;
        if (h.C(n, k) != ec || (k && h.S(n, k) != es)) { c.viol("value", vf::fmt("(%d,%d) of %d/%d: %.17g %.17g, expected %.17g %.17g", n, k, l, o, h.C(n, k), k ? h.S(n, k) : 0., ec, es)); return; }
      }
  }
}

// the fields of the header that are only printed
VF_GROUP(header_fields, 200, 4000) {
#ifdef DEBUG
  Model m = gen_model(c.r, (int)c.r.i(1, 5), false);
  if (c.r.p(0.3)) { // values up to the size of their fields
    for (auto &h : m.header) {
      size_t p = h.find_first_not_of(" \t");
      auto is = [&](const char *k) { size_t n = strlen(k); return p != std::string::npos && !h.compare(p, n, k) && (h[p + n] == ' ' || h[p + n] == '\t'); };
      if (is("modelname")) { m.name = std::string((size_t)(c.r.p(0.3) ? 127 : c.r.i(60, 126)), 'N'); h = "modelname " + m.name; }
      if (is("tide_system")) { m.tide = std::string((size_t)(c.r.p(0.3) ? 63 : c.r.i(30, 62)), 't'); h = "tide_system " + m.tide; }
    }
  }
  bool has_tide = false;
  for (auto &h : m.header) { size_t p = h.find_first_not_of(" \t"); if (p != std::string::npos && !h.compare(p, 11, "tide_system") && (h[p + 11] == ' ' || h[p + 11] == '\t')) has_tide = true; }
  if (!has_tide) m.tide = "unknown";
  std::string fn = put(c, m.render());
  dso::Icgem g(fn.c_str());
  if (!c.check(g.parse_header() == 0, "header-accepted", "%s", m.render().substr(0, 400).c_str())) return;
  fflush(stdout);
  int keep = dup(1);
  std::string cap = c.scratch() + "/printed";
  int fd = open(cap.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  g.print_details();
  fflush(stdout);
  dup2(keep, 1);
  close(keep); close(fd);
  std::ifstream in(cap);
  std::map<std::string, std::string> got;
  std::string line;
  while (std::getline(in, line)) {
    size_t p = line.find(':');
    if (p == std::string::npos) continue;
    std::string k = line.substr(0, p), v = line.substr(p + 1);
    while (!k.empty() && k.back() == ' ') k.pop_back();
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    got[k] = v;
  }
  auto eq = [&](const char *k, const std::string &e) { c.check(got[k] == e, "field", "%s: printed '%s', the file has '%s'", k, got[k].c_str(), e.c_str()); };
  eq("Product Type", m.product); eq("Model Name", m.name); eq("Tide System", m.tide); eq("Normalization", m.norm); eq("Errors", m.errors);
  eq("Max Degree", std::to_string(m.maxdeg));
  eq("GM", vf::fmt("%.10f", m.gm)); eq("R", vf::fmt("%.10f", m.re));
  c.distinct(m.name + m.tide + m.norm + m.errors);
#else
  c.distinct(vf::fmt("%ld", c.idx % 2)); // printing exists in DEBUG builds only
#endif
}

// headers without what is needed to interpret the coefficients; lines beyond the documented length
VF_GROUP(header_refuse, 400, 6000) {
  const int maxdeg = (int)c.r.i(1, 6);
  Model m = gen_model(c.r, maxdeg, true);
  static const char *need[] = {"earth_gravity_constant", "radius", "max_degree", "end_of_head"};
  static const char *keys[] = {"product_type", "modelname", "earth_gravity_constant", "radius", "max_degree", "errors"};
  const int mode = (int)c.r.i(0, 5);
  std::string what;
  auto pos = [&](const std::string &k) { for (size_t q = 0; q < m.header.size(); q++) if (!m.header[q].compare(0, k.size(), k)) return q; return m.header.size(); };
  bool header_bad = true;
  if (mode == 0) { what = c.r.pick(need); size_t q = pos(what); if (c.r.p(0.5)) m.header.erase(m.header.begin() + (long)q); else m.header[q] = "# " + m.header[q]; what = "no " + what; }
  else if (mode == 1) { what = c.r.pick(keys); m.header[pos(what)] = what + (c.r.p(0.5) ? "   " : ""); what = "no value of " + what; }
  else if (mode == 2) { what = c.r.pick({need[0], need[1], need[2]}); m.header[pos(what)] = what + std::string(" ") + c.r.pick({"abc", "-", "e5", "=6378136.3", "0", "."}); what = "unreadable " + what; }
  else if (mode == 3) { std::string l = "remark "; l.resize((size_t)c.r.i(256, 700), 'x'); m.header.insert(m.header.begin() + c.r.i(0, (long)m.header.size() - 1), l); what = vf::fmt("header line of %zu", l.size()); }
  else if (mode == 4) { what = c.r.pick({"modelname", "errors", "product_type"}); m.header[pos(what)] = what + " " + std::string((size_t)(c.r.p(0.5) ? (what == "modelname" ? 128 : 64) : what == "modelname" ? c.r.i(128, 200) : c.r.i(64, 200)), 'w'); what = "too long a value of " + what; }
  else { header_bad = false; std::string l = "gfct"; l.resize((size_t)c.r.i(512, 1500), ' '); m.data.insert(m.data.begin(), l); what = vf::fmt("data line of %zu", l.size()); }
  std::string fn = put(c, m.render());
  dso::Icgem g(fn.c_str());
  int rc = g.parse_header();
  c.distinct(what);
  if (header_bad) { c.check(rc != 0, "bad-header-reported", "%s: accepted", what.c_str()); return; }
  if (!c.check(rc == 0, "header-accepted", "%s", what.c_str())) return;
  dso::HarmonicCoeffs h(maxdeg);
  c.check(g.parse_data(maxdeg, maxdeg, &h) != 0, "long-line-reported", "%s: accepted", what.c_str());
}

// a record that is required but missing must be reported
VF_GROUP(missing_record, 400, 6000) {
  const int maxdeg = (int)c.r.i(2, 10);
  Model m = gen_model(c.r, maxdeg, true);
  int l = (int)c.r.i(2, maxdeg), o = (int)c.r.i(0, l);
  // drop one record (l>=2 or degree 0)
  std::vector<std::pair<int, int>> cand;
  for (auto &x : m.rec) if (x.first.first <= l && x.first.second <= o && x.first.first != 1) cand.push_back(x.first);
  auto drop = cand[(size_t)c.r.i(0, (long)cand.size() - 1)];
  std::vector<std::string> keep;
  for (auto &d : m.data) {
    int a = -1, b = -1;
    if (sscanf(d.c_str(), "gfc %d %d", &a, &b) == 2 && a == drop.first && b == drop.second) {
      int mode = (int)c.r.i(0, 3);
      if (mode == 1 && keep.size()) keep.push_back(keep[(size_t)c.r.i(0, (long)keep.size() - 1)]); // duplicate instead
      if (mode == 2) keep.push_back("gfct" + d.substr(3));
      if (mode == 3) keep.push_back("#" + d);
      continue;
    }
    keep.push_back(d);
  }
  m.data = keep;
  std::string fn = put(c, m.render());
  dso::Icgem g(fn.c_str());
  if (!c.check(g.parse_header() == 0, "header-accepted", "valid header refused")) return;
  dso::HarmonicCoeffs h(l);
  poison(h);
  c.distinct(vf::fmt("%d %d %d %d %d", maxdeg, l, o, drop.first, drop.second));
  c.check(g.parse_data(l, o, &h) != 0, "missing-record-reported", "record (%d,%d) missing, asked %d/%d, success reported", drop.first, drop.second, l, o);
}

namespace {
// all records of a text, read leniently by an independent scanner
struct Found { std::map<std::pair<long, long>, std::vector<std::pair<std::string, std::string>>> r; };
Found scan(const std::string &text) {
  Found f;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, 4, "gfc ")) continue;
    std::istringstream ls(line.substr(4));
    std::string a, b, x, y;
    ls >> a >> b >> x >> y;
    char *e1, *e2;
    long l = strtol(a.c_str(), &e1, 10), m = strtol(b.c_str(), &e2, 10);
    if (*e1 || *e2 || a.empty() || b.empty()) { f.r[{-1, -1}].push_back({line, ""}); continue; } // unusual spelling
    f.r[{l, m}].push_back({x, y});
  }
  return f;
}
bool strict_number(const std::string &s, double &v) {
  if (s.empty()) return false;
  std::string t = s;
  for (char ch : t) if (!strchr("+-.0123456789eEdD", ch)) return false;
  for (auto &ch : t) if (ch == 'd' || ch == 'D') ch = 'e';
  char *e; v = strtod(t.c_str(), &e);
  return *e == 0;
}
void hostile(vf::Ctx &c, const std::string &text, int l, int o) {
  std::string fn = put(c, text);
  dso::Icgem g(fn.c_str());
  int hrc = g.parse_header();
  c.event(hrc ? "header-refused" : "header-accepted");
  if (hrc) return;
  c.check(std::isfinite(g.gm()) ? g.gm() != 0 : true, "gm-unset", "header accepted without a gravity constant");
  c.check(g.degree() != 0, "max-degree-unset", "header accepted without max degree");
  c.check(g.earth_radius() != 0, "radius-unset", "header accepted without radius");
  if (l > 60) l = 60;
  dso::HarmonicCoeffs h(std::max(l, 0) + (int)c.r.i(0, 2));
  poison(h);
  int rc = g.parse_data(l, o, &h);
  c.event(rc ? "data-refused" : "data-accepted");
  if (rc) return;
  c.check(l >= 0 && o >= 0 && o <= l && l <= g.degree(), "bad-request-accepted", "asked %d/%d of %d", l, o, g.degree());
  // the data section only
  size_t p = text.find("\nend_of_head");
  if (text.compare(0, 11, "end_of_head") == 0) p = 0;
  Found f = scan(p == std::string::npos ? text : text.substr(p));
  if (f.r.count({-1, -1})) { c.event("unusual-spelling-skipped"); return; }
  for (int n = 0; n <= l; n++)
    for (int k = 0; k <= std::min(n, o); k++) {
      auto it = f.r.find({n, k});
      if (it == f.r.end()) {
        c.check(n == 1, "success-without-record", "(%d,%d) has no record, asked %d/%d", n, k, l, o);
        if (n == 1 && !(h.C(n, k) == 0 && (!k || h.S(n, k) == 0))) c.viol("degree-one-not-zero", vf::fmt("(%d,%d)=%g", n, k, h.C(n, k)));
        continue;
      }
      bool anystrict = false, match = false;
      for (auto &xy : it->second) {
        double a, b;
        if (!strict_number(xy.first, a) || !strict_number(xy.second, b)) { match = true; continue; }
        anystrict = true;
        bool ok = (h.C(n, k) == a || (a != a && h.C(n, k) != h.C(n, k)));
        if (k) ok = ok && (h.S(n, k) == b || (b != b && h.S(n, k) != h.S(n, k)));
        match = match || ok;
      }
      (void)anystrict;
      c.event("hostile-values-compared");
      if (!match) c.viol("foreign-value", vf::fmt("(%d,%d): C=%.17g not in the file", n, k, h.C(n, k)));
    }
}
} // namespace

// a requested record whose numbers cannot be read must be reported
VF_GROUP(unparsable_record, 800, 12000) {
  const int maxdeg = (int)c.r.i(1, 8);
  Model m = gen_model(c.r, maxdeg, c.r.p(0.5));
  m.eol = "\n";
  int l = (int)c.r.i(0, maxdeg), o = (int)c.r.i(0, l);
  std::vector<size_t> cand;
  std::vector<std::pair<int, int>> id(m.data.size());
  for (size_t q = 0; q < m.data.size(); q++)
    if (!m.data[q].compare(0, 4, "gfc ") && sscanf(m.data[q].c_str() + 4, "%d %d", &id[q].first, &id[q].second) == 2 && id[q].first <= l && id[q].second <= o) cand.push_back(q);
  if (cand.empty()) { c.distinct("none"); return; }
  size_t q = cand[(size_t)c.r.i(0, (long)cand.size() - 1)];
  static const char *junk[] = {"abc", "-", "--1", "D+03", "+", ".", "e", "*****", "x1", "#1", ",5", "'1'"};
  const std::string j = c.r.pick(junk);
  std::istringstream ls(m.data[q].substr(4));
  std::string n, k, C, S;
  ls >> n >> k >> C >> S;
  const int field = (int)c.r.i(0, 7);
  std::string line = "gfc ";
  switch (field) {
  case 0: line += j + " " + k + " " + C + " " + S; break;
  case 1: line += n + " " + j + " " + C + " " + S; break;
  case 2: line += n + " " + k + " " + j + " " + S; break;
  case 3: line += n + " " + k + " " + C + " " + j; break;
  case 4: line += n + " " + k + " " + C; break;
  case 5: line += n + " " + k; break;
  case 6: line += n; break;
  case 7: line += n + " " + std::to_string(id[q].first + (int)c.r.i(1, 3)) + " " + C + " " + S; break; // order above degree
  }
  if (c.r.p(0.5)) line += blanks(c.r, 0, 5);
  m.data[q] = line;
  std::string fn = put(c, m.render());
  dso::Icgem g(fn.c_str());
  if (!c.check(g.parse_header() == 0, "header-accepted", "valid header refused")) return;
  dso::HarmonicCoeffs h(l + (int)c.r.i(0, 1));
  poison(h);
  c.distinct(vf::fmt("field %d '%s' of (%d,%d), asked %d/%d", field, j.c_str(), id[q].first, id[q].second, l, o));
  // records of degree one may be missing altogether, but one that is there has to be readable
  c.check(g.parse_data(l, o, &h) != 0, "unparsable-record-reported", "[%s] accepted, asked %d/%d", line.c_str(), l, o);
}

VF_GROUP(mutated, 4000, 80000) {
  const int maxdeg = (int)c.r.i(1, 8);
  Model m = gen_model(c.r, maxdeg, c.r.p(0.5));
  std::string t = m.render();
  int l = (int)c.r.i(0, maxdeg), o = (int)c.r.i(0, l);
  if (c.r.p(0.1)) { l = (int)c.r.i(-2, maxdeg + 2); o = (int)c.r.i(-2, maxdeg + 3); }
  int nm = (int)c.r.i(1, 4);
  std::string kinds;
  for (int q = 0; q < nm && !t.empty(); q++) {
    size_t pos = (size_t)c.r.i(0, (long)t.size() - 1);
    int kind = (int)c.r.i(0, 12);
    kinds += std::to_string(kind) + ",";
    static const char *kw[] = {"product_type", "modelname", "earth_gravity_constant", "radius", "max_degree", "errors", "norm", "tide_system", "end_of_head", "begin_of_head", "gfc "};
    auto line_at = [&](size_t &a, size_t &b) { a = t.rfind('\n', pos); a = a == std::string::npos ? 0 : a + 1; b = t.find('\n', pos); if (b == std::string::npos) b = t.size(); if (a > b) a = b; };
    size_t a, b;
    switch (kind) {
    case 0: t.resize(pos); break;                                          // truncation
    case 1: t[pos] = (char)c.r.i(0, 255); break;                           // byte flip
    case 2: t.insert(pos, std::string((size_t)c.r.i(1, 700), (char)(c.r.p(0.5) ? ' ' : '9'))); break;
    case 3: line_at(a, b); t.erase(a, std::min(t.size(), b + 1) - a); break;   // drop line
    case 4: line_at(a, b); t.insert(a, t.substr(a, b - a) + "\n"); break;  // duplicate line
    case 5: { std::string k = c.r.pick(kw); size_t p = t.find(k); if (p != std::string::npos) { size_t e = t.find('\n', p); if (e != std::string::npos) t.erase(p + k.size(), e - p - k.size()); } break; } // value removed
    case 6: { std::string k = c.r.pick(kw); size_t p = t.find(k); if (p != std::string::npos) { size_t e = p + k.size(); while (e < t.size() && t[e] == ' ') e++; t.insert(e, std::string((size_t)c.r.i(20, 260), 'w')); } break; }
    case 7: { char bb[128]; snprintf(bb, sizeof bb, "gfc %ld %ld %g %g\n", c.r.i(-3, maxdeg + 3), c.r.i(-3, maxdeg + 3), c.r.n(), c.r.n()); line_at(a, b); t.insert(a, bb); break; }
    case 8: { char bb[128]; snprintf(bb, sizeof bb, "gfc %lld %lld 1.5 0.5\n", (long long)c.r.next(), (long long)c.r.i(0, 3)); line_at(a, b); t.insert(a, bb); break; }
    case 9: t.erase(pos, (size_t)c.r.i(1, 40)); break;
    case 10: { size_t p = t.find("end_of_head"); if (p != std::string::npos) t.erase(p, 11); break; }
    case 11: line_at(a, b); t.insert(b, std::string((size_t)c.r.i(1, 600), ' ')); break;
    case 12: { static const char *g[] = {"nan", "inf", "1e999", "0x1p3", "-", "1.0D", "1.0D+", "1.5d-400", "--1", "1,5"}; line_at(a, b); t.insert(b, std::string(" ") + c.r.pick(g)); break; }
    }
  }
  c.distinct(kinds + vf::fmt("%zu %d %d", t.size(), l, o));
  c.sample(vf::fmt("mutations %s of a degree %d file, %zu bytes, asked %d/%d", kinds.c_str(), maxdeg, t.size(), l, o));
  hostile(c, t, l, o);
}

// every truncation point of a small valid file
VF_GROUP(truncations, 24, 200) {
  Model m = gen_model(c.r, (int)c.r.i(1, 3), c.idx % 2);
  std::string t = m.render();
  for (size_t k = 0; k <= t.size(); k++) {
    std::string s = t.substr(0, k);
    c.distinct(vf::fmt("%ld %zu", c.idx, k));
    c.event("truncation-points");
    hostile(c, s, m.maxdeg, m.maxdeg);
  }
}

// raw bytes
VF_GROUP(garbage, 600, 10000) {
  std::string t;
  int n = (int)c.r.i(0, 3000);
  static const char *tok[] = {"gfc ", "end_of_head", "max_degree 3", "radius 6378136.3", "earth_gravity_constant 1e14", "\n", "\n", "norm", " ", "1", "0", "2", "e", "-", ".5", "\t", "\r", "errors", "gfc 0 0 1 0\n", "gfc 2 1 1 1\n"};
  while ((int)t.size() < n) { if (c.r.p(0.7)) t += c.r.pick(tok); else t += (char)c.r.i(0, 255); }
  if (c.r.p(0.5)) t = "max_degree 3\nradius 1\nearth_gravity_constant 1\nend_of_head\n" + t;
  c.distinct(vf::fnv(t.data(), t.size()));
  hostile(c, t, (int)c.r.i(0, 4), (int)c.r.i(0, 4));
}
