// Minimal stand-in for the sinex library: SITE/ID and SOLUTION/ESTIMATE blocks of a SINEX file (see ../README.md).
#ifndef VF_SHIM_SINEX_HPP
#define VF_SHIM_SINEX_HPP
#include "datetime/dtcalendar.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
namespace dso {
namespace sinex {
struct SiteId { char m_site_code[5]{}; char m_point_code[3]{}; char m_domes[10]{}; };
struct SolutionEstimate {
  char m_site_code[5]{}, m_point_code[3]{}, m_soln_id[5]{}, m_param_type[7]{}, m_units[5]{};
  datetime<microseconds> m_epoch;
  double m_estimate{0e0}, m_std_deviation{0e0};
};
} // namespace sinex
class Sinex {
  std::string fn;
  static void col(char *to, const std::string &l, size_t at, size_t n) { for (size_t i = 0; i < n; i++) to[i] = at + i < l.size() ? l[at + i] : ' '; to[n] = 0; }
  template <class F> int block(const char *name, F f) {
    std::ifstream fin(fn);
    std::string l;
    if (!fin.is_open()) return 1;
    bool in = false, seen = false;
    while (std::getline(fin, l)) {
      if (l == std::string("+") + name) in = seen = true;
      else if (l == std::string("-") + name) in = false;
      else if (in && !l.empty() && l[0] == ' ' && f(l)) return 1;
    }
    return !seen;
  }
public:
  Sinex(const char *f) : fn(f) {}
  const std::string &filename() const noexcept { return fn; }
  int parse_block_site_id(std::vector<sinex::SiteId> &v, int n, char **ids) {
    v.clear();
    return block("SITE/ID", [&](const std::string &l) {
      sinex::SiteId s;
      col(s.m_site_code, l, 1, 4); col(s.m_point_code, l, 6, 2); col(s.m_domes, l, 9, 9);
      for (int i = 0; i < n; i++) if (!std::strncmp(ids[i], s.m_site_code, 4)) { v.push_back(s); break; }
      return 0;
    });
  }
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &sites) {
    v.clear();
    return block("SOLUTION/ESTIMATE", [&](const std::string &l) {
      sinex::SolutionEstimate e;
      col(e.m_param_type, l, 7, 6); col(e.m_site_code, l, 14, 4); col(e.m_point_code, l, 19, 2); col(e.m_soln_id, l, 22, 4); col(e.m_units, l, 40, 4);
      int y, d, s;
      if (l.size() < 68 || std::sscanf(l.c_str() + 27, "%2d:%3d:%5d", &y, &d, &s) != 3) return 1;
      e.m_epoch = datetime<microseconds>(year(y + (y > 50 ? 1900 : 2000)), day_of_year(d), microseconds(s * 1000000L));
      e.m_estimate = std::strtod(l.substr(47, 21).c_str(), nullptr);
      if (l.size() > 69) e.m_std_deviation = std::strtod(l.c_str() + 69, nullptr);
      for (const auto &x : sites) if (!std::strncmp(x.m_site_code, e.m_site_code, 4)) { v.push_back(e); break; }
      return 0;
    });
  }
};
} // namespace dso
#endif
