// C31: values interpolated from an Earth-orientation table.
#include <cassert>
#include "eop.hpp"
#include "harness.hpp"
static dso::EopLookUpTable *T = nullptr;
static std::string arr(const std::vector<long> &v) { vf::Ev e("x"); e.arr("q", v); return e.s.substr(e.s.find('[')); }
static std::string cols() {
  const dso::EopLookUpTable &t = *T;
  std::string s = "[";
  for (int p = 0; p < 7; p++) {
    std::vector<long> v;
    for (int i = 0; i < t.size(); i++) { const double *q[] = {t.xp(i), t.yp(i), t.dut(i), t.dx(i), t.dy(i), t.lod(i), t.omega(i)}; v.push_back(vf::toi(*q[p])); }
    s += (p ? "," : "") + arr(v);
  }
  return s + "]";
}
int main() {
  vf::Driver d;
  static long d0 = 0;
  d.begin = [] { delete T; T = nullptr; vf::Ev("Begin").out(); };
  d.cmd = [](vf::Driver::Toks &t) {
    auto A = [&](int i) { return std::atol(t[i].c_str()); };
    if (t[0] == "Fill") { // Fill d0 n 7x4 coefficients
      d0 = A(1);
      int n = A(2);
      delete T; T = new dso::EopLookUpTable(n);
      std::string c = "[";
      for (int p = 0; p < 7; p++) {
        std::vector<long> k;
        for (int j = 0; j < 4; j++) k.push_back(A(3 + 4 * p + j));
        c += (p ? "," : "") + arr(k);
        for (int i = 0; i < n; i++) { double *q[] = {T->xp(i), T->yp(i), T->dut(i), T->dx(i), T->dy(i), T->lod(i), T->omega(i)}; *q[p] = k[0] + i * (k[1] + i * (k[2] + i * (double)k[3])); *T->mjd(i) = d0 + i; }
      }
      vf::Ev("Fill").arr("a", std::vector<long>{d0, n}).raw("c", c + "]").raw("cols", cols()).out();
    } else if (t[0] == "Regularize") { T->regularize(); vf::Ev("Regularize").raw("cols", cols()).out(); }
    else {
      dso::EopRecord r{};
      double x = d0 + A(1) / 2e0;
      const dso::EopLookUpTable &t2 = *T;
      int rc = t[0] == "Interp" ? t2.interpolate(x, r, A(2)) : t2.interpolate_lagrange(x, r, A(2));
      std::vector<long> v;
      for (double z : {r.xp, r.yp, r.dut, r.dx, r.dy, r.lod}) v.push_back(rc ? 0 : vf::toi_scaled(z, 8e0, 1e-10));
      vf::Ev(t[0].c_str()).arr("a", std::vector<long>{A(1), A(2)}).i("rc", rc ? 1 : 0).i("t", rc ? 0 : vf::toi_scaled(r.mjd, 2e0, 1e-12)).arr("v", v).raw("cols", cols()).out();
    }
  };
  return d.run();
}
