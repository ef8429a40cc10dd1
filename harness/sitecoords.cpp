// C26: coordinates of requested sites at an epoch.
#include "harness.hpp"
#include "doris_utils.hpp"
using namespace dso;
int main() {
  vf::Driver d;
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] != "Ask") return; // Ask file how strict day sec site...  (how: 0 raw arrays, 1 stations, 2 stations and another time type)
    const int how = std::atoi(t[2].c_str());
    const bool strict = t[3] == "1";
    const long day = std::atol(t[4].c_str()), sec = std::atol(t[5].c_str());
    const datetime<microseconds> q(modified_julian_day(day), microseconds(sec * 1000000L));
    const int n = t.size() - 6;
    std::vector<BeaconCoordinates> v;
    int rc;
    std::string req = "[";
    for (int i = 0; i < n; i++) req += (i ? "," : "") + vf::Ev::esc(t[6 + i]);
    if (!how) {
      std::vector<char *> ids;
      for (int i = 0; i < n; i++) ids.push_back(const_cast<char *>(t[6 + i].c_str()));
      v.resize(n);
      int found = 12345;
      rc = extrapolate_sinex_coordinates(t[1].c_str(), ids.data(), n, q, v.data(), found, strict);
      if (found >= 0 && found <= n) v.resize(found); else rc = -1;
    } else {
      std::vector<BeaconStation> b(n);
      for (int i = 0; i < n; i++) { std::memset(&b[i], 'x', sizeof(BeaconStation)); std::memcpy(b[i].m_station_id, t[6 + i].c_str(), 4); }
      v.resize(how == 1 ? 0 : 7);
      if (how == 1) rc = extrapolate_sinex_coordinates(t[1].c_str(), b, q, v, strict);
      else rc = extrapolate_sinex_coordinates(t[1].c_str(), b, datetime<nanoseconds>(modified_julian_day(day), nanoseconds(sec * 1000000000L)), v, strict);
    }
    std::string out = "[";
    if (!rc) for (const auto &c : v) {
      auto two = [](double x) { if (!(std::abs(x) < 2e9)) return std::string("[0,0]"); long h = (long)std::floor(x), l = std::lround((x - h) * 1e5); if (l == 100000) { l = 0; ++h; } return "[" + std::to_string(h) + "," + std::to_string(l) + "]"; };
      out += (out.size() > 1 ? ",{\"id\":" : "{\"id\":") + vf::Ev::esc(std::string(c.id, strnlen(c.id, 5))) + ",\"x\":[" + two(c.x) + "," + two(c.y) + "," + two(c.z) + "]}";
    }
    vf::Ev("Ask").raw("req", req + "]").i("strict", strict).raw("t", "[" + t[4] + "," + t[5] + "]").i("rc", rc).raw("out", out + "]").out();
  };
  return d.run();
}
