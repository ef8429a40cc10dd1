// C27: phase-centre offsets and corrections of the ground antennas.
#include "harness.hpp"
#include <cmath>
#ifdef PROTO                    // the prototype in var/antenna, a program of its own
#define main proto_main
#include "var/antenna/phselaw.cc"
#undef main
using namespace ngpt;
#else
#include "doris_system_info.hpp"
using namespace dso;
#endif
template <GroundAntennaType T, int F> static void pcv(double z, long &v, int &oob) {
  oob = -7;
  const double x = AntennaOffset<T, F>::pcv(z, oob);
  v = oob ? 0 : (std::abs(x) < 1e5 ? std::lround(x * 1e4) : vf::WEIRD);
}
template <GroundAntennaType T, int F> static void pco(vf::Ev &e) {
  using A = AntennaOffset<T, F>;
#ifdef PROTO
  const double p_[3] = {A::deast(), A::dnorth(), A::dup()}; auto p = [&](int i) { return p_[i]; };
#else
  const Eigen::Matrix<double, 3, 1> p = A::pco();
#endif
  e.i("e", vf::toi(A::deast())).i("n", vf::toi(A::dnorth())).i("u", vf::toi(A::dup())).raw("v", "[" + std::to_string(vf::toi(p(0))) + "," + std::to_string(vf::toi(p(1))) + "," + std::to_string(vf::toi(p(2))) + "]");
}
#define EACH(X) \
  if (a == "Alcatel" && f == 1) X(Alcatel, 1) else if (a == "Alcatel") X(Alcatel, 2) else if (a == "Starec_B" && f == 1) X(Starec_B, 1) else if (a == "Starec_B") X(Starec_B, 2) else if (f == 1) X(Starec_C, 1) else X(Starec_C, 2)
int main() {
  vf::Driver d;
  d.cmd = [](vf::Driver::Toks &t) {
    const std::string a = t[1];
    if (t[0] == "Pcv") { // Pcv type freq milli-degrees nudge
      const int f = std::atoi(t[2].c_str()), nudge = std::atoi(t[4].c_str());
      const long q = std::atol(t[3].c_str());
      double z = q == 90000 ? DPI / 2e0 : deg2rad<double>(q / 1e3);
      if (nudge) z = std::nextafter(z, nudge * 10e0);
      long v = 0; int oob = 0;
#define P(T, F) pcv<GroundAntennaType::T, F>(z, v, oob);
      EACH(P)
      vf::Ev("Pcv").str("a", a).i("f", f).i("z", q).i("nudge", nudge).i("v", v).i("oob", oob).out();
    } else if (t[0] == "Pco") {
      const int f = std::atoi(t[2].c_str());
      vf::Ev e("Pco");
      e.str("a", a).i("f", f);
#define C(T, F) pco<GroundAntennaType::T, F>(e);
      EACH(C)
      e.out();
#ifndef PROTO
    } else if (t[0] == "Ion") { // Ion type: of a beacon with that antenna
      BeaconStation s{};
      std::memcpy(s.m_station_id, a == "Alcatel" ? "THUA" : a == "Starec_B" ? "ADHB" : "AMVC", 4);
      const Eigen::Matrix<double, 3, 1> p = s.iono_free_phase_center();
      vf::Ev e("Ion");
      e.str("a", a).raw("v", "[" + std::to_string(std::lround(p(0) * 1e7)) + "," + std::to_string(std::lround(p(1) * 1e7)) + "," + std::to_string(std::lround(p(2) * 1e7)) + "]").out();
#endif
    }
  };
  return d.run();
}
