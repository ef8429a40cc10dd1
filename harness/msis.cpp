// C32: NRLMSISE-00 calls through several instances.
#include "harness.hpp"
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include "celestrak.hpp"
#include "atmosphere.hpp"
using namespace dso::nrlmsise00;
static std::string num(double v) {
  if (!std::isfinite(v)) return "[-1,999]";
  char b[40], o[60];
  std::snprintf(b, 40, "%.7e", v);
  const bool neg = b[0] == '-';
  const char *p = b + neg;
  char m[16]; m[0] = p[0]; std::memcpy(m + 1, p + 2, 7); m[8] = 0;
  std::snprintf(o, 60, "[%s%ld,%d]", neg ? "-" : "", std::atol(m), std::atoi(std::strchr(b, 'e') + 1));
  return o;
}
static std::string hex(const OutParams &r) {
  std::string s; char b[20];
  for (int i = 0; i < 11; i++) { double v = i < 9 ? r.d[i] : r.t[i - 9]; std::uint64_t u; std::memcpy(&u, &v, 8); std::snprintf(b, 20, "%016llx", (unsigned long long)u); s += b; }
  return s;
}
static void result(vf::Ev &e, const OutParams &r) {
  std::string d, t;
  for (double v : r.d) d += (d.empty() ? "[" : ",") + num(v);
  for (double v : r.t) t += (t.empty() ? "[" : ",") + num(v);
  e.raw("d", d + "]").raw("t", t + "]");
}
int main() {
  vf::Driver d;
  // instances are made in memory that holds something else before
  struct Del { void operator()(dso::Nrlmsise00 *m) const { m->~Nrlmsise00(); ::operator delete(m); } };
  using Ptr = std::unique_ptr<dso::Nrlmsise00, Del>;
  unsigned made = 0;
  auto make = [&] {
    void *q = ::operator new(sizeof(dso::Nrlmsise00));
    static const int fill[] = {0xff, 0x00, 0x42, 0xc1};
    std::memset(q, fill[made++ % 4], sizeof(dso::Nrlmsise00));
    __asm__ volatile("" : : "r"(q) : "memory");
    return Ptr(new (q) dso::Nrlmsise00);
  };
  std::map<int, Ptr> inst;
  double junk = 1;
  d.begin = [&] { inst.clear(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "New") { inst.clear(); vf::Ev("New").out(); return; }
    size_t k = 1;
    auto I = [&] { return k < t.size() ? std::atol(t[k++].c_str()) : 0; };
    if (t[0] != "C" && t[0] != "K") return;
    // how: bit 0 the same instance is reused, bit 1 the switches are set one by one, bit 2 the result record is reused
    const long n = I(), how = I(), kind = I(), mass = I(), meters = I();
    detail::InParamsCore p;
    p.year = I(); p.doy = I();
    const long sec = I(), alt = I(), lat = I(), lon = I(), lst = I(), fa = I(), f = I(), ap = I();
    p.sec = sec / 10.; p.alt = alt / 1000.; p.glat = lat / 100.; p.glon = lon / 100.; p.lst = lst / 1000.; p.f107A = fa / 10.; p.f107 = f / 10.; p.ap = ap / 10.;
    std::vector<long> a, s;
    double arr[7];
    for (int i = 0; i < 7; i++) { a.push_back(I()); arr[i] = a[i] / 10.; }
    for (int i = 0; i < 25; i++) s.push_back(I());
    p.set_ap_array(arr);
    for (int i = 0; i < 25; i++) if (s[i] != 1 || (how & 2)) { if (i == 8 && s[i] == -1) p.use_aparray(); else p.set_switch(i, s[i]); }
    if (meters) p.meters_on();
    auto &m = inst[(int)n];
    if (!m || !(how & 1)) m = make();
    OutParams r;
    for (double &v : r.d) v = junk;
    for (double &v : r.t) v = junk;
    junk = junk * 1.25 + 1; if (junk > 1e20) junk = -3;
    const int rc = kind ? m->gtd7d(&p, &r, (int)mass) : m->gtd7(&p, &r, (int)mass);
    if (t[0] == "K") { // published sample: the expected values follow
      std::string w;
      while (k + 1 < t.size()) { const long x = I(), y = I(); w += (w.empty() ? "[[" : ",[") + std::to_string(x) + "," + std::to_string(y) + "]"; }
      vf::Ev e("Known"); result(e, r); e.raw("want", w + "]").out();
      return;
    }
    std::vector<long> sh;
    for (int i = 0; i < 9; i++) { const double v = r.d[5] > 0 ? 1.66e-24 * (meters ? 1e-3 : 1.) * r.d[i] / r.d[5] * 1e6 : 0; sh.push_back(v >= 0 && v < 2e6 ? std::lround(v) : vf::WEIRD / 1000); }
    vf::Ev e("Call");
    e.i("inst", n).i("kind", kind).i("mass", mass).i("meters", meters).i("year", p.year).i("doy", p.doy).i("sec", sec).i("alt", alt).i("lat", lat).i("lon", lon).i("lst", lst).i("fa", fa).i("f", f).i("ap", ap).arr("aparr", a).arr("set", s).i("rc", rc);
    result(e, r);
    e.arr("sh", sh).str("bits", hex(r)).out();
  };
  return d.run();
}
