// C17: attitude queries over a record file.
#include "harness.hpp"
#include "satellites/jason3_quaternions.hpp"
#include "datetime/utcdates.hpp"
#include <memory>
using namespace dso;
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  std::unique_ptr<JasonQuaternionHunter> h;
  int axis = 0;
  d.end = [&] { h.reset(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "Open") { // Open file there axis
      int rc = 0;
      axis = std::atoi(t[3].c_str());
      h.reset();
      try { h.reset(new JasonQuaternionHunter(t[1].c_str())); } catch (std::exception &) { rc = 1; }
      vf::Ev("Open").i("there", std::atoi(t[2].c_str())).i("rc", rc).out();
    } else if (t[0] == "Query") { // Query date hms t
      int rc = 1;
      long ang = 0, other = 0;
      if (h) {
        modified_julian_day utc, tai;
        const double fday = utc_strptime_ymd_hms((t[1] + " " + t[2]).c_str(), utc);
        double m = utc2tai(utc, fday, tai);
        m += static_cast<double>(tai.as_underlying_type());
        Eigen::Quaterniond q(9, 9, 9, 9);
        rc = h->get_at(m, q);
        if (!rc) {
          const double v[3] = {q.x(), q.y(), q.z()};
          double o = std::abs(q.norm() - 1e0);
          for (int i = 0; i < 3; i++) if (i != axis) o = std::max(o, std::abs(v[i]));
          double a = 2e0 * std::atan2(v[axis], q.w());
          if (a > M_PI) a -= 2 * M_PI;
          if (a <= -M_PI) a += 2 * M_PI;
          ang = std::isfinite(a) ? std::lround(a * 1e5) : 999999;
          other = (o < 1e-8) ? 0 : 1;
        }
      }
      vf::Ev("Query").i("t", std::atol(t[3].c_str())).i("rc", rc).i("ang", ang).i("other", other).out();
    }
  };
  return d.run();
}
