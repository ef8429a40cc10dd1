// C20: atmosphere model inputs fed from a space weather file.
#include "harness.hpp"
#include <memory>
#include <limits>
#include "celestrak.hpp"
#include "atmosphere.hpp"
using namespace dso::nrlmsise00;
typedef InParams<detail::FluxDataFeedType::ST_CSV_SW> In;
static std::string out(const detail::InParamsCore &p) {
  std::string s = "{\"f107A\":" + std::to_string(vf::toi_scaled(p.f107A, 10)) + ",\"f107\":" + std::to_string(vf::toi_scaled(p.f107, 10)) + ",\"ap\":" + std::to_string(vf::toi_scaled(p.ap, 10)) + ",\"a\":[";
  for (int i = 0; i < 5; i++) s += (i ? "," : "") + std::to_string(i ? vf::toi(p.aparr.a[i]) : vf::toi_scaled(p.aparr.a[i], 10));
  return s + "],\"m\":[" + std::to_string(vf::toi_scaled(p.aparr.a[5], 8)) + "," + std::to_string(vf::toi_scaled(p.aparr.a[6], 8)) + "]}";
}
static long day0(const detail::InParamsCore &p) { return dso::ydoy2mjd(p.year, p.doy).as_underlying_type(); }
int main() {
  vf::Driver d;
  std::unique_ptr<In> in;
  std::unique_ptr<detail::Nrlmsise00DataFeed> feed;
  std::unique_ptr<detail::InParamsCore> own;
  d.begin = [&] { in.reset(); feed.reset(); own.reset(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "New") { // New file day sec ; a parameter set with its feed
      in.reset(); feed.reset(); own.reset();
      const long day = std::atol(t[2].c_str());
      int rc = 0;
      std::string o = "0";
      try { in.reset(new In(t[1].c_str(), dso::modified_julian_day(day), std::atof(t[3].c_str()))); o = out(in->params_); } catch (std::exception &) { rc = 1; }
      vf::Ev("New").i("d0", day).i("sec", (long)std::floor(std::atof(t[3].c_str()))).i("name", t[1].size()).i("rc", rc).raw("out", o).out();
    } else if (t[0] == "NewFeed") { // NewFeed file day sec ; a feed alone, seconds may be of another day
      in.reset(); feed.reset(); own.reset(new detail::InParamsCore);
      const long day = std::atol(t[2].c_str());
      const auto yd = dso::modified_julian_day(day).to_ydoy();
      own->year = yd.__year.as_underlying_type(); own->doy = yd.__doy.as_underlying_type(); own->sec = std::atof(t[3].c_str());
      int rc = 0;
      std::string o = "0";
      try { feed.reset(new detail::Nrlmsise00DataFeed(t[1].c_str(), *own)); o = out(*own); } catch (std::exception &) { rc = 1; }
      vf::Ev("New").i("d0", day).i("sec", (long)std::floor(own->sec)).i("name", t[1].size()).i("rc", rc).raw("out", o).out();
    } else if (t[0] == "Update" && (in || feed)) { // Update how day sec
      const long day = std::atol(t[2].c_str());
      const double sec = std::atof(t[3].c_str());
      int rc;
      detail::InParamsCore *p = in ? &in->params_ : own.get(), other;
      if (t[1] == "params" && in && sec >= 0 && sec < 86400) rc = in->update_params((int)day, sec);
      else {
        if (t[1] == "other") { p = &other; p->f107A = p->f107 = p->ap = -1; for (double &a : p->aparr.a) a = -1; }
        const auto yd = dso::modified_julian_day(day).to_ydoy();
        p->year = yd.__year.as_underlying_type(); p->doy = yd.__doy.as_underlying_type(); p->sec = sec;
        rc = (in ? in->feed_ : *feed).update(*p);
      }
      vf::Ev("Update").i("d0", day).i("sec", (long)std::floor(sec)).i("pd", day0(*p)).i("ps", (long)std::floor(p->sec)).i("rc", rc).raw("out", rc ? "0" : out(*p)).out();
    }
  };
  return d.run();
}
