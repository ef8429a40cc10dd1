// C39: sequential estimate of the receiver's frequency offset.
#include "harness.hpp"
#include "doris_rinex.hpp"
#include <unistd.h>
static long sc(double v, double s) { v *= s; return std::abs(v) < 1e9 ? std::lround(v) : vf::WEIRD; }
// times in eighths of days
static long eighths(double mjd) { return vf::toi_scaled(mjd, 8e0, 1e-12); }
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] != "Kal") return; // Kal json sx sv sz file...
    std::vector<std::string> names(t.begin() + 5, t.end());
    std::vector<char *> fns;
    for (auto &n : names) fns.push_back(n.data());
    std::fflush(stdout);
    const int keep = dup(1);
    FILE *o = std::tmpfile();
    dup2(fileno(o), 1);
    const int rc = dso::fit_relative_frequency_offset(fns.data(), (int)fns.size(), std::atof(t[2].c_str()), std::atof(t[3].c_str()), std::atof(t[4].c_str()));
    std::fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::rewind(o);
    char line[512];
    std::string est, fit, model;
    long nfit = 0;
    double a, b, x0, s0, x1, s1;
    while (std::fgets(line, sizeof(line), o)) {
      char buf[200];
      if (std::sscanf(line, "Model: %lf + %lf * x", &a, &b) == 2) { std::snprintf(buf, 200, "%ld,%ld", sc(a, 1e4), sc(b, 1e4)); model = buf; }
      else if (std::sscanf(line, "Fit: %lf %lf", &a, &b) == 2) {
        ++nfit;
        const double e = a * 8e0;
        if (std::abs(e - std::nearbyint(e)) < 1e-4) { std::snprintf(buf, 200, "%s[%ld,%ld]", fit.empty() ? "" : ",", eighths(a), sc(b, 1e4)); fit += buf; }
      } else if (std::sscanf(line, "%lf %lf %lf +/- %lf %lf +/- %lf", &a, &b, &x0, &s0, &x1, &s1) == 6) {
        std::snprintf(buf, 200, "%s[%ld,%ld,%ld,%ld,%ld,%ld]", est.empty() ? "" : ",", eighths(a), vf::toi_scaled(b, 1e3), sc(x0, 1e4), sc(1e0 / (s0 * s0), 4e3), sc(x1, 1e4), sc(1e0 / (s1 * s1), 4e3));
        est += buf;
      }
    }
    std::fclose(o);
    vf::Ev e("Kal");
    e.s += "," + t[1];
    e.i("rc", rc).raw("est", "[" + est + "]").raw("model", "[" + model + "]").i("nfit", nfit).raw("fit", "[" + fit + "]").out();
  };
  return d.run();
}
