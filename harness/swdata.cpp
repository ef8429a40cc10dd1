// C19: windows of space weather data.
#include "harness.hpp"
#include <limits>
#include "celestrak.hpp"
#include "swjson.hpp"
using namespace dso::utils::celestrak::details;
int main() {
  vf::Driver d;
  std::string name;
  std::vector<CelestTrakSWFlux> w;
  std::ifstream::pos_type fpos{0};
  d.begin = [&] { fpos = 0; };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "New") { // New file size
      name = t[1];
      w.assign(std::atoi(t[2].c_str()), CelestTrakSWFlux{});
      w.shrink_to_fit();
      fpos = 0;
      vf::Ev("New").raw("win", swj(w.data(), w.size())).out();
    } else if (t[0] == "Read") { // Read d b a
      const long day = std::atol(t[1].c_str());
      const int b = std::atoi(t[2].c_str()), a = std::atoi(t[3].c_str());
      if ((size_t)(a + b + 1) > w.size()) return;
      const int rc = parse_csv_for_date(dso::modified_julian_day(day), name.c_str(), w.data(), fpos, b, a);
      vf::Ev("Read").i("d", day).i("b", b).i("a", a).i("rc", rc).raw("win", swj(w.data(), w.size())).out();
    } else if (t[0] == "Next") { // Next d n
      const long day = std::atol(t[1].c_str());
      const int n = std::atoi(t[2].c_str());
      if ((size_t)n > w.size()) return;
      const int rc = get_next(dso::modified_julian_day(day), name.c_str(), w.data(), n, fpos);
      vf::Ev("Next").i("d", day).i("n", n).i("rc", rc).raw("win", swj(w.data(), w.size())).out();
    }
  };
  return d.run();
}
