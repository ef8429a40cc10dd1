// C23: histories over three polynomial models. -DCAL: over calendar date-times instead of numbers.
#include <cassert>
#include "datetime/dtfund.hpp"
#include "filters/models.hpp"
#include "heapdriver.hpp"
#ifdef CAL
using X = dso::datetime<dso::nanoseconds>;
static X mk(long h) { return X(dso::modified_julian_day(59000), dso::nanoseconds(h * 500000000L)); }
static long rd(const X &x) {
  long n = (x.mjd().as_underlying_type() - 59000) * 172800L, q = x.sec().as_underlying_type();
  n += q / 500000000L;
  return q % 500000000L || n > 2000000000L || n < -2000000000L ? vf::WEIRD : n;
}
#else
using X = double;
static X mk(long h) { return h / 2e0; }
static long rd(const X &x) { return vf::toi_scaled(x, 2e0, 0); }
#endif
using T = dso::PolynomialModel<X>;
int main() {
  static long r = 0;
  return vf::heap_main<T>(
      [](vf::Heap<T> &h, vf::Toks &t) {
        auto A = [&](int i) { return std::atol(t[i].c_str()); };
        int x = A(1) - 1;
        if (t[0] == "Make") { new (h.raw[x]) T((int)A(2)); h.st[x] = 'l'; }
        else if (t[0] == "Write") h.at(x).cf[A(2)] = A(3);
        else if (t[0] == "SetRef") h.at(x).xref = mk(A(2));
        else if (t[0] == "Fill") { h.at(x).xref = mk(A(2)); for (int i = 0; i <= h.at(x).order(); i++) h.at(x).cf[i] = A(3 + i); }
        else if (t[0] == "Resize") { h.at(x).resize((int)A(2)); h.st[x] = 'l'; }
        else if (t[0] == "Value") { const T &p = h.at(x); r = vf::toi_scaled(p.value_at(mk(A(2))), std::ldexp(1e0, p.order()), 0); }
        else return false;
        return true;
      },
      [](T &m) {
        std::vector<long> v{rd(m.xref)};
        for (int i = 0; i <= m.order(); i++) v.push_back(vf::toi(m.cf[i]));
        vf::Ev e("x");
        e.i("n", m.order()).arr("v", v);
        return e.s.substr(e.s.find(',') + 1);
      },
      [](vf::Toks &t) { return t[0] == "Value" ? "\"r\":" + std::to_string(r) : std::string(); },
      [](vf::Toks &t) {
        if (t[0] != "Line") return false;
#ifndef CAL
        dso::LinearModel<double> m;
        m.xref = std::atol(t[3].c_str()) / 2e0; m.a = std::atol(t[1].c_str()); m.b = std::atol(t[2].c_str());
        const dso::LinearModel<double> c(m);
        std::vector<long> a;
        for (int i = 1; i < 5; i++) a.push_back(std::atol(t[i].c_str()));
        vf::Ev("Line").arr("a", a).i("r", vf::toi_scaled(c.value_at(a[3] / 2e0), 2e0, 0)).i("ord", c.order()).out();
#endif
        return true;
      });
}
