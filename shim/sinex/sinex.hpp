// Stand-in for the external sinex library: blocks are served from memory by the
// driver (registered under a file name); records come in file order.
#pragma once
#include "datetime/dtcalendar.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>
namespace dso {
namespace sinex {
struct SiteId { char m_site_code[5]; char m_point_code[3]; };
struct SolutionEstimate {
  int m_index = 0;
  char m_param_type[7], m_site_code[5], m_point_code[3], m_soln_id[5], m_units[5];
  dso::datetime<dso::microseconds> m_epoch;
  double m_estimate = 0, m_std_deviation = 0;
};
struct vf_doc { std::vector<SiteId> sites; std::vector<SolutionEstimate> est; int fail_sites = 0, fail_est = 0; };
inline std::map<std::string, vf_doc> &vf_docs() { static std::map<std::string, vf_doc> d; return d; }
} // namespace sinex
class Sinex {
  std::string fn_;
public:
  explicit Sinex(const char *fn) : fn_(fn) {}
  std::string filename() const noexcept { return fn_; }
  int parse_block_site_id(std::vector<sinex::SiteId> &v, int n, char **ids) {
    v.clear();
    auto it = sinex::vf_docs().find(fn_);
    if (it == sinex::vf_docs().end() || it->second.fail_sites) return 1;
    for (auto &s : it->second.sites)
      for (int i = 0; i < n; i++) if (!std::strncmp(s.m_site_code, ids[i], 4)) { v.push_back(s); break; }
    return 0;
  }
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &sites) {
    v.clear();
    auto it = sinex::vf_docs().find(fn_);
    if (it == sinex::vf_docs().end() || it->second.fail_est) return 1;
    for (auto &e : it->second.est)
      for (auto &s : sites) if (!std::strncmp(s.m_site_code, e.m_site_code, 4)) { v.push_back(e); break; }
    return 0;
  }
};
} // namespace dso
