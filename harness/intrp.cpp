// C10: table interpolators of var/intrp.cc
#include <bits/stdc++.h>
#include "harness.hpp"
namespace prog {
#define main program_main
#include "var/intrp.cc"
#undef main
} // namespace prog
static std::vector<double> xs, ys;
static double sc = 1, of = 0, ysc = 1;
static std::unique_ptr<prog::NearestNeighborInterpolator> N;
static std::unique_ptr<prog::LinearInterpolator> L;
static std::unique_ptr<prog::QuadraticInterpolator> Q;
int main() {
  vf::Driver d;
  d.cmd = [](std::vector<std::string> &t) {
    if (t[0] == "T") { // T scale offset yscale x y x y ...
      sc = std::stod(t[1]); of = std::stod(t[2]); ysc = std::stod(t[3]);
      N.reset(); L.reset(); Q.reset();
      std::vector<double>().swap(xs); std::vector<double>().swap(ys);
      std::string j = "[";
      for (size_t i = 4; i + 1 < t.size(); i += 2) {
        xs.push_back(sc * std::stol(t[i]) + of); ys.push_back(ysc * std::stol(t[i + 1]));
        j += (i > 4 ? "," : "") + std::string("{\"x\":") + t[i] + ",\"y\":" + t[i + 1] + "}";
      }
      xs.shrink_to_fit(); ys.shrink_to_fit();
      N.reset(new prog::NearestNeighborInterpolator(xs.data(), ys.data(), xs.size()));
      L.reset(new prog::LinearInterpolator(xs.data(), ys.data(), xs.size()));
      Q.reset(new prog::QuadraticInterpolator(xs.data(), ys.data(), xs.size()));
      vf::Ev("Table").raw("t", j + "]").out();
      return;
    }
    // A kind q
    double x = sc * std::stol(t[2]) + of;
    int st = 77;
    double v = t[1] == "N" ? N->value_at(x, st) : t[1] == "L" ? L->value_at(x, st) : Q->value_at(x, st);
    double w = 1000 * (v / ysc);
    vf::Ev("Ask").str("k", t[1]).i("q", std::stol(t[2])).i("st", st).i("v", std::abs(w) < 1e6 ? std::lround(w) : vf::WEIRD).out();
  };
  return d.run();
}
