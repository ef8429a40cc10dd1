// Shared harness helpers: reads '@ n' separated scenario commands, writes one JSON event per line.
#ifndef VF_HARNESS_HPP
#define VF_HARNESS_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
namespace vf {
struct Ev {
  std::string s;
  explicit Ev(const char *name) { s = std::string("{\"event\":\"") + name + "\""; }
  Ev &i(const char *k, long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
  static std::string esc(const std::string &v) {
    std::string o = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    return o + "\"";
  }
  Ev &str(const char *k, const std::string &v) { s += std::string(",\"") + k + "\":" + esc(v); return *this; }
  Ev &raw(const char *k, const std::string &v) { s += std::string(",\"") + k + "\":" + v; return *this; }
  template <class C> Ev &arr(const char *k, const C &v) {
    s += std::string(",\"") + k + "\":[";
    bool f = true;
    for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((long)x); }
    s += "]";
    return *this;
  }
  void out() { s += "}\n"; std::fputs(s.c_str(), stdout); std::fflush(stdout); }
};
// a double that is expected to be a (small) integer; anything else maps to a value no specification uses
constexpr long WEIRD = -777777777;
inline long toi(double d) {
  if (!(std::abs(d) < 2e9)) return WEIRD;
  double r = std::nearbyint(d);
  return (std::abs(d - r) < 1e-6) ? (long)r : WEIRD;
}
inline long toi_scaled(double d, double scale, double tol = 1e-6) {
  double v = d * scale;
  if (!(std::abs(v) < 2e9)) return WEIRD;
  double r = std::nearbyint(v);
  return (std::abs(v - r) <= tol * std::max(1e0, std::abs(v))) ? (long)r : WEIRD;
}
inline std::string unhex(const std::string &h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
// driver: begin() at each scenario start, end() at its end, cmd(tokens) per line
struct Driver {
  using Toks = std::vector<std::string>;
  std::function<void()> begin = [] {}, end = [] {};
  std::function<void(std::vector<std::string> &)> cmd;
  int run() {
    std::string line;
    bool open = false;
    while (std::getline(std::cin, line)) {
      if (!line.empty() && line[0] == '@') {
        if (open) end();
        std::printf("{\"event\":\"@\",\"sc\":%s}\n", line.c_str() + 2);
        std::fflush(stdout);
        open = true;
        begin();
        continue;
      }
      std::vector<std::string> t;
      std::istringstream ss(line);
      std::string w;
      while (ss >> w) t.push_back(w);
      if (t.empty()) continue;
      if (t[0] == "E") { std::fputs((line.substr(2) + "\n").c_str(), stdout); std::fflush(stdout); continue; } // an event of the script itself
      if (t[0] == "W") { // W name hex: write a file in the working directory ("-": remove it)
        if (t.size() > 2 && t[2] == "-") std::remove(t[1].c_str());
        else if (FILE *f = std::fopen(t[1].c_str(), "wb")) { std::string b = t.size() > 2 ? unhex(t[2]) : std::string(); std::fwrite(b.data(), 1, b.size(), f); std::fclose(f); }
        continue;
      }
      cmd(t);
    }
    if (open) end();
    return 0;
  }
};
} // namespace vf
#endif
