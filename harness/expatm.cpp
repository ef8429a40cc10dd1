// C29: layered atmosphere density and model switches.
#include "harness.hpp"
#include <memory>
#include <limits>
#include "celestrak.hpp"
#include "atmosphere.hpp"
using dso::nrlmsise00::detail::InParamsCore;
int main() {
  vf::Driver d;
  std::unique_ptr<InParamsCore> p;
  auto out = [&](vf::Ev e, const InParamsCore &q) {
    std::vector<long> a, b;
    for (double v : q.sw.sw) a.push_back(vf::toi(v));
    for (double v : q.sw.swc) b.push_back(vf::toi(v));
    e.arr("sw", a).arr("swc", b).i("meters", q.meters()).out();
  };
  d.begin = [&] { p.reset(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "D") { // D metres side: the altitude, or its neighbour below / above
      const double m = std::atof(t[1].c_str()), k = m / 1e3;
      const int side = std::atoi(t[2].c_str());
      const double alt = side < 0 ? std::nextafter(k, 0) : side > 0 ? std::nextafter(k, 1e9) : k;
      const double r = dso::air_density_models::exponential::density(alt);
      vf::Ev("Density").i("km", (long)std::floor(alt)).i("m", (long)m).i("ln", r > 0 && std::isfinite(r) ? std::lround(-std::log(r) * 1e5) : vf::WEIRD).out();
      return;
    }
    if (t[0] == "New") { p.reset(new InParamsCore); out(vf::Ev("New"), *p); return; }
    if (!p) return;
    const int i = t.size() > 1 ? std::atoi(t[1].c_str()) : -1, v = t.size() > 2 ? std::atoi(t[2].c_str()) : 0, how = t.size() > 3 ? std::atoi(t[3].c_str()) : 0;
    if (t[0] == "Set") { how ? p->set_switch(i, (double)v) : p->sw.set_switch(i, v); out(vf::Ev("Set").i("i", i).i("v", v), *p); }
    else if (t[0] == "Null") { (v && i < 0) ? p->set_switches_off() : p->sw.set_null(i); out(vf::Ev("Null").i("i", i), *p); }
    else if (t[0] == "On") { (v && i < 0) ? p->set_switches_on() : p->sw.set_on(i); out(vf::Ev("On").i("i", i), *p); }
    else if (t[0] == "UseAp") { p->use_aparray(); out(vf::Ev("UseAp"), *p); }
    else if (t[0] == "Meters") { p->meters_on(); out(vf::Ev("Meters"), *p); }
    else if (t[0] == "Copy") {
      InParamsCore q(*p);
      p->sw.set_null(); p->sw.set_switch(3, 7);
      out(vf::Ev("Copy"), q);
      *p = q;
    }
  };
  return d.run();
}
