// C25: fit of the receiver's frequency offsets.
#include "harness.hpp"
#include "doris_rinex.hpp"
#include <unistd.h>
typedef dso::datetime<dso::nanoseconds> T;
static T tof(const std::string &s, const T &dflt) { // day:sec:ns
  long d, a, n;
  if (std::sscanf(s.c_str(), "%ld:%ld:%ld", &d, &a, &n) != 3) return dflt;
  return T(dso::modified_julian_day(d), dso::nanoseconds(a * 1000000000L + n));
}
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] != "Fit") return; // Fit json order tai every from to nfiles file... probe...
    dso::PolynomialModel<T> fit(std::atoi(t[2].c_str()));
    for (int i = 0; i <= fit.order(); i++) fit.cf[i] = 12345e0 * (i + 1);
    const int n = std::atoi(t[7].c_str());
    std::vector<const char *> fns;
    for (int i = 0; i < n; i++) fns.push_back(t[8 + i].c_str());
    std::fflush(stdout);
    FILE *keep = stdout; // messages of the library go nowhere
    stdout = stderr;
    const int rc = dso::fit_relative_frequency_offset(fns, fit, t[3] == "1", std::atoi(t[4].c_str()), tof(t[5], T::min()), tof(t[6], T::max()));
    stdout = keep;
    std::vector<long> v;
    if (!rc) for (size_t i = 8 + n; i < t.size(); i++) { const double y = fit.value_at(tof(t[i], T::min())) * 1e3; v.push_back(std::abs(y) < 1e9 ? std::lround(y) : vf::WEIRD); }
    vf::Ev e("Fit");
    e.s += "," + t[1];
    e.i("rc", rc).arr("v", v).out();
  };
  return d.run();
}
