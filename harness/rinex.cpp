// C12, C13, C14: DORIS RINEX header, data blocks, beacon lookups.
#include "harness.hpp"
#include "doris_rinex.hpp"
#include <memory>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>
using namespace dso;
static std::string trimmed(const char *p, size_t n) {
  std::string s(p, strnlen(p, n));
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
static std::string tj(const datetime<nanoseconds> &t) {
  const long n = t.sec().as_underlying_type();
  return "[" + std::to_string(t.mjd().as_underlying_type()) + "," + std::to_string(n / 1000000000L) + "," + std::to_string(n % 1000000000L) + "]";
}
static void split(double v, double unit, long &h, long &l) {
  h = (long)std::floor(v);
  l = std::lround((v - h) * unit);
  if (l >= (long)unit) { l -= (long)unit; ++h; }
}
static std::string vj(const RinexObservationValue &v) {
  std::string s = v.m_value == OBSERVATION_VALUE_MISSING ? "m" : (v.m_value < 0 ? "-" : "+");
  long h = 0, l = 0;
  if (s != "m") { if (!(std::abs(v.m_value) < 2e9)) { h = -1; } else split(std::abs(v.m_value), 1e6, h, l); }
  auto fl = [](char c) { return vf::Ev::esc(std::string(1, c)); };
  return "{\"s\":\"" + s + "\",\"h\":" + std::to_string(h) + ",\"l\":" + std::to_string(l) + ",\"a\":" + fl(v.m_flag1) + ",\"b\":" + fl(v.m_flag2) + "}";
}
template <class C, class F> static std::string list(const C &c, F f) {
  std::string s = "[";
  bool first = true;
  for (const auto &x : c) { if (!first) s += ","; first = false; s += f(x); }
  return s + "]";
}
static std::string q4(const std::string &s, size_t n) { std::string r = s; r.resize(n, ' '); return r; }
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  std::unique_ptr<DorisObsRinex> rnx;
  std::unique_ptr<RinexDataBlockIterator> it;
  bool blk = false;
  d.begin = [&] { it.reset(); rnx.reset(); blk = false; };
  d.end = d.begin;
  auto diff = [](const datetime<nanoseconds> &a, const datetime<nanoseconds> &b) { long n = a.delta_sec(b).as_underlying_type(); return std::labs(n) < 2000000000L ? n : vf::WEIRD; };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "Open") { // Open file errno
      it.reset(); rnx.reset(); blk = false;
      int rc = 0;
      std::fflush(stdout);
      errno = std::atoi(t[2].c_str());
      FILE *keep = stdout; // header messages of the library go nowhere
      stdout = stderr;
      try { rnx.reset(new DorisObsRinex(t[1].c_str())); } catch (std::exception &) { rc = 1; }
      stdout = keep;
      vf::Ev e("Open");
      e.i("rc", rc);
      if (!rc) {
        it.reset(new RinexDataBlockIterator(rnx.get()));
        char b[32];
        e.raw("obs", list(rnx->observation_codes(), [&](const ObservationCode &c) { std::string s = c.to_str(b); return "\"" + s + "\""; }))
            .raw("st", list(rnx->stations(), [](const BeaconStation &s) {
              vf::Ev x("x");
              x.str("c", trimmed(s.m_internal_code, 3)).str("id", trimmed(s.m_station_id, 4)).str("name", trimmed(s.m_station_name, 30)).str("domes", trimmed(s.m_station_domes, 10)).i("t", s.m_type).i("k", s.m_shift_factor);
              return "{" + x.s.substr(x.s.find(',') + 1) + "}";
            }))
            .i("rcv", rnx->receiver_clock_offsets_applied()).i("off", rnx->l21_date_offset().as_underlying_type()).raw("first", tj(rnx->time_of_first_obs())).raw("refdate", tj(rnx->ref_datetime()));
      }
      e.out();
    } else if (t[0] == "Next") {
      int rc = it ? it->next() : 1;
      vf::Ev e("Next");
      e.i("rc", rc);
      blk = rc == 0;
      if (!rc) {
        const auto &h = it->cheader;
        const long n = h.m_epoch.sec().as_underlying_type();
        const bool p = h.m_clock_offset != RECEIVER_CLOCK_OFFSET_MISSING;
        e.i("d", h.m_epoch.mjd().as_underlying_type()).i("sec", n / 1000000000L).i("ns", n % 1000000000L).i("flag", h.m_flag).i("n", h.m_num_stations).i("cf", h.m_clock_flag).i("offp", p).i("off", p && std::abs(h.m_clock_offset) < 2.1 ? std::lround(h.m_clock_offset * 1e9) : 0)
            .raw("obs", list(it->cblock, [](const BeaconObservations &b) { return "{\"id\":" + vf::Ev::esc(std::string(b.m_beacon_id, 3)) + ",\"vs\":" + list(b.m_values, vj) + "}"; }));
      }
      e.out();
    } else if (t[0] == "Corr") {
      if (!blk) return;
      datetime<nanoseconds> l2;
      const auto e = it->cheader.m_epoch, t2 = it->corrected_l1_epoch(l2), t1 = it->corrected_l1_epoch();
      vf::Ev("Corr").i("t0", diff(it->proper_time(), e)).i("t1", diff(t1, e)).i("t2", diff(t2, e)).i("tl2", diff(l2, e)).out();
    } else if (t[0] == "Freq") {
      double s1 = 0, u2 = 0;
      const int k = std::atoi(t[1].c_str());
      beacon_nominal_frequency(k, s1, u2);
      long h1, l1, h2, l2;
      split(s1 - 2036250000e0, 1048576e0, h1, l1);
      split(u2 - 401250000e0, 1048576e0, h2, l2);
      vf::Ev("Freq").i("k", k).i("h1", h1).i("l1", l1).i("h2", h2).i("l2", l2).out();
    } else if (t[0] == "Type") {
      BeaconStation s{};
      std::memcpy(s.m_station_id, q4("XXX" + t[1], 4).c_str(), 4);
      std::string r = "throw";
      try { switch (s.type()) { case GroundAntennaType::Alcatel: r = "Alcatel"; break; case GroundAntennaType::Starec_B: r = "Starec_B"; break; case GroundAntennaType::Starec_C: r = "Starec_C"; break; default: r = "?"; } } catch (std::exception &) {}
      vf::Ev("Type").str("q", t[1]).str("r", r).out();
#ifdef VF_DOPPLER
    } else if (t[0] == "Counts") { // what the library prints: beacon, epoch, changes of both phases, elapsed time
      if (!rnx) return;
      std::fflush(stdout);
      const int keep = dup(1), tmp = open("counts.out", O_RDWR | O_CREAT | O_TRUNC, 0600);
      dup2(tmp, 1);
      const int rc = rnx->get_doppler_counts();
      std::fflush(stdout); std::cout.flush();
      dup2(keep, 1); close(keep); close(tmp);
      std::ifstream f("counts.out");
      std::string line, out = "[";
      while (std::getline(f, line)) {
        std::istringstream ss(line);
        std::vector<std::string> w;
        std::string x;
        while (ss >> x) w.push_back(x);
        if (line.rfind("Number of", 0) == 0) continue;
        double v[4];
        bool ok = w.size() == 5;
        for (int i = 0; i < 4 && ok; i++) { char *e; v[i] = std::strtod(w[i + 1].c_str(), &e); ok = !*e && std::isfinite(v[i]) && std::abs(v[i]) < 2e9; }
        if (!ok) { w.assign(1, "?" + line); for (auto &y : v) y = 0; }
        auto two = [](double y, double unit, const char *a, const char *b, long sgn) {
          long h, l;
          split(std::abs(y), unit, h, l);
          return std::string("{") + (sgn ? "\"s\":" + std::to_string(y < 0 ? -1 : y > 0) + "," : "") + "\"" + a + "\":" + std::to_string(h) + ",\"" + b + "\":" + std::to_string(l) + "}";
        };
        long ds = (long)std::floor(v[3]), dl = std::lround((v[3] - ds) * 1e7);
        if (dl >= 10000000) { dl -= 10000000; ++ds; }
        out += (out.size() > 1 ? ",{" : "{") + std::string("\"id\":") + vf::Ev::esc(w[0]) + ",\"at\":" + two(v[0], 1e5, "d", "l", 0) + ",\"d1\":" + two(v[1], 1e5, "h", "l", 1) + ",\"d2\":" + two(v[2], 1e5, "h", "l", 1) +
               ",\"dt\":{\"s\":" + std::to_string(ds) + ",\"l\":" + std::to_string(dl) + "}}";
      }
      vf::Ev("Counts").i("rc", rc).raw("out", out + "]").out();
#endif
    } else if (rnx) {
      const std::string q = t.size() > 1 ? t[1] : "";
      if (t[0] == "ByCode") { const char *p = rnx->beacon_internal_id2id(q4(q, 3).c_str()); vf::Ev("ByCode").str("q", q).str("r", p ? trimmed(p, 4) : "").out(); }
      else if (t[0] == "ById") { const char *p = rnx->beacon_id2internal_id(q4(q, 4).c_str()); vf::Ev("ById").str("q", q).str("r", p ? trimmed(p, 3) : "").out(); }
      else if (t[0] == "Station") { auto i = rnx->beacon_internal_id2BeaconStation(q4(q, 3).c_str()); vf::Ev("Station").str("q", q).i("ix", i == rnx->stations().cend() ? 0 : i - rnx->stations().cbegin() + 1).out(); }
      else if (t[0] == "Shift") { int k = 77777; const int rc = rnx->beacon_shift_factor(q4(q, 3).c_str(), k); vf::Ev("Shift").str("q", q).i("rc", rc).i("k", k).out(); }
      else if (t[0] == "Code") {
        const int ix = rnx->get_observation_code_index(ObservationCode(char_to_observationType(q[0]), std::atoi(q.c_str() + 1)));
        vf::Ev("Code").str("q", q).i("ix", ix < 0 ? 0 : ix + 1).out();
      } else if (t[0] == "InBlock" && blk) { auto i = it->contains_beacon(q4(q, 3).c_str()); vf::Ev("InBlock").str("q", q).i("ix", i == it->cblock.end() ? 0 : i - it->cblock.begin() + 1).out(); }
    }
  };
  return d.run();
}
