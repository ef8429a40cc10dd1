// C21: beacons in service at an epoch.
#include "harness.hpp"
#include "beacon_tbl.hpp"
#include <memory>
#include <cerrno>
typedef dso::datetime<dso::nanoseconds> T;
static std::string tj(const T &t) { const long n = t.sec().as_underlying_type(); return "[" + std::to_string(t.mjd().as_underlying_type()) + "," + std::to_string(n / 1000000000L) + "," + std::to_string(n % 1000000000L) + "]"; }
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  std::unique_ptr<dso::BeaconInformationTable> tb;
  d.begin = [&] { tb.reset(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "Open") { tb.reset(new dso::BeaconInformationTable(t[1].c_str())); return; }
    if (t[0] != "Load" || !tb) return; // Load day sec ns errno
    const T q(dso::modified_julian_day(std::atol(t[1].c_str())), dso::nanoseconds(std::atol(t[2].c_str()) * 1000000000L + std::atol(t[3].c_str())));
    int rc = 0;
    std::vector<dso::BeaconInformationTableEntry> v;
    errno = std::atoi(t[4].c_str());
    try { v = tb->load_to_memmory(q); } catch (std::exception &) { rc = 1; }
    std::string s = "[";
    for (const auto &e : v) s += (s.size() > 1 ? ",{\"id\":" : "{\"id\":") + vf::Ev::esc(std::string(e._4charid, 4)) + ",\"h\":" + std::to_string(vf::toi_scaled(e._height, 1e6)) + ",\"from\":" + tj(e.from) + ",\"to\":" + tj(e.to) + "}";
    vf::Ev("Load").raw("t", tj(q)).i("rc", rc).raw("out", s + "]").out();
  };
  return d.run();
}
