// C16: reading Earth-orientation files.
#include <cassert>
#include "eop.hpp"
#include "harness.hpp"
int main() {
  vf::Driver d;
  static dso::EopLookUpTable *keep = nullptr;
  d.begin = [] { delete keep; keep = nullptr; };
  d.cmd = [](vf::Driver::Toks &t) { // Parse start end there capacity(0: reuse the previous table)
    int s = std::atoi(t[1].c_str()), e = std::atoi(t[2].c_str()), there = std::atoi(t[3].c_str()), cap = std::atoi(t[4].c_str());
    if (cap || !keep) { delete keep; keep = new dso::EopLookUpTable(cap ? cap : 10); }
    dso::EopLookUpTable &T = *keep;
    int rc = dso::parse_iers_C04(there ? "eop.txt" : "nosuch.txt", dso::modified_julian_day(s), dso::modified_julian_day(e), T);
    std::string rows = "[";
    if (!rc)
      for (int i = 0; i < T.size(); i++) {
        const dso::EopLookUpTable &c = T;
        double day = std::floor(*c.mjd(i));
        std::vector<long> v;
        for (double x : {*c.xp(i), *c.yp(i), *c.dut(i), *c.lod(i), *c.dx(i), *c.dy(i)}) v.push_back(vf::toi_scaled(x, 1e7, 1e-9));
        vf::Ev r("r");
        r.i("day", (long)day).i("ms", std::lround((*c.mjd(i) - day) * 86400e3)).arr("v", v);
        rows += (i ? "," : "") + r.s + "}";
      }
    vf::Ev("Parse").i("s", s).i("e", e).i("there", there).i("rc", rc ? 1 : 0).i("n", T.size()).raw("rows", rows + "]").out();
  };
  return d.run();
}
