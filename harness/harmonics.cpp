// C07: histories on up to three containers of harmonic coefficients. -DOLDCOPY: the var/icgem copy.
#include <new>
#include <utility>
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
#include "harness.hpp"
#include "harmonic_coeffs.hpp"
using H = dso::HarmonicCoeffs;
alignas(H) static unsigned char raw[3][sizeof(H)];
static char st[3];                       // d dead, h hollow, l live
static std::size_t live0;
static H &at(int i) { return *reinterpret_cast<H *>(raw[i]); }
static long seen(double c, int n, int m) {
  double p = 1;
  for (int i = n - m + 1; i <= n + m; i++) p *= i;
  double w = c * c * p * (c < 0 ? -1 : 1);
  if (!(std::abs(w) < 2e9)) return vf::WEIRD;
  double r = std::nearbyint(w);
  return std::abs(w - r) <= 1e-9 * std::max(1.0, std::abs(w)) ? (long)r : vf::WEIRD;
}
static std::string dump() {
  std::string s = "[";
  for (int i = 0; i < 3; i++) {
    if (i) s += ",";
    if (st[i] == 'd') { s += "{\"st\":\"dead\"}"; continue; }
    if (st[i] == 'h') { s += "{\"st\":\"hollow\"}"; continue; }
    H &h = at(i); const H &k = h;
    int d = h.degree();
    vf::Ev e("o");
    e.str("st", "live").i("deg", d);
#ifndef OLDCOPY
    e.i("gm", vf::toi(k.GM())).i("re", vf::toi(k.Re())).i("norm", k.normalized());
#else
    e.i("gm", 0).i("re", 0).i("norm", 1);
#endif
    std::vector<long> c, v;
    bool agree = true;
    for (int n = 0; n <= d; n++) for (int m = 0; m <= n; m++) {
      c.push_back(seen(h.C(n, m), n, m));
      agree = agree && &k.C(n, m) == &h.C(n, m) && h.C_row(n) + m == &h.C(n, m) && k.C_row(n) + m == &h.C(n, m);
      if (m) { v.push_back(seen(h.S(n, m), n, m)); agree = agree && &k.S(n, m) == &h.S(n, m) && h.S_row(n) + (m - 1) == &h.S(n, m) && k.S_row(n) + (m - 1) == &h.S(n, m); }
    }
    if (!agree) { c[0] = vf::WEIRD; e.str("rows", "disagree"); }
    e.arr("c", c).arr("s", v);
    s += "{" + e.s.substr(std::strlen("{\"event\":\"o\",")) + "}";
  }
  return s + "]";
}
static void destroy(int i) { at(i).~H(); st[i] = 'd'; }
int main() {
  vf::Driver d;
  { vf::Ev("warm").str("x", "y"); }
  d.begin = [] { for (int i = 0; i < 3; i++) st[i] = 'd'; vf::Ev("Begin").out(); };
  d.cmd = [](std::vector<std::string> &t) {
    std::vector<int> a;
    for (size_t i = 1; i < t.size(); i++) a.push_back(std::stoi(t[i]));
    const std::string &op = t[0];
    if (op == "Big") { // denormalised factors up to degree n against an independent long double computation
      double worst = 0;
      for (int n : {3, 40, 84, 85, 86, 100, 120}) {
        H h(n);
        for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { h.C(i, j) = 1; if (j) h.S(i, j) = -1; }
        h.denormalize();
        for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) {
          long double lf = 0.5L * (std::log((long double)(2 * i + 1)) + (j ? std::log(2.0L) : 0.0L) + std::lgamma((long double)(i - j + 1)) - std::lgamma((long double)(i + j + 1)));
          long double f = i ? std::exp(lf) : 1.0L;
          double e1 = std::abs((double)(h.C(i, j) / f - 1)), e2 = j ? std::abs((double)(-h.S(i, j) / f - 1)) : 0;
          if (!(e1 < 1e-4)) e1 = 1e-4; if (!(e2 < 1e-4)) e2 = 1e-4;
          worst = std::max(worst, std::max(e1, e2));
        }
      }
      vf::Ev("DenormBig").i("err", (long)(worst * 1e12)).out();
      return;
    }
    int x = a[0] - 1, rc = 0;
    if (op == "Begin0") { live0 = __sanitizer_get_current_allocated_bytes(); return; }
    std::size_t b0 = 0; (void)b0;
    if (op == "Make") { new (raw[x]) H(a[1]); st[x] = 'l'; }
    else if (op == "Default") { new (raw[x]) H(); st[x] = 'h'; }
    else if (op == "Destroy") destroy(x);
    else if (op == "MoveCtor") { int y = a[1] - 1; new (raw[x]) H(std::move(at(y))); st[x] = st[y]; st[y] = 'h'; }
    else if (op == "MoveAssign") { int y = a[1] - 1; at(x) = std::move(at(y)); if (x != y) { st[x] = st[y]; st[y] = 'h'; } }
    else if (op == "WriteC") at(x).C(a[1], a[2]) = a[3];
    else if (op == "WriteS") at(x).S(a[1], a[2]) = a[3];
    else if (op == "Denorm") rc = a[1] < 0 ? at(x).denormalize() : at(x).denormalize(a[1]);
#ifndef OLDCOPY
    else if (op == "MakeC") { new (raw[x]) H(a[1], a[2], a[3]); st[x] = 'l'; }
    else if (op == "Resize") { at(x).resize(a[1]); st[x] = 'l'; }
    else if (op == "SetNorm") at(x).normalized() = a[1];
    else if (op == "SetConst") { at(x).GM() = a[1]; at(x).Re() = a[2]; }
#endif
    else return;
    vf::Ev(op.c_str()).arr("a", a).i("rc", rc ? 1 : 0).raw("o", dump()).out();
  };
  d.end = [] { for (int i = 0; i < 3; i++) if (st[i] != 'd') destroy(i); };
  // the same history again without any reporting, to balance the heap
  auto cmd = d.cmd; auto begin = d.begin; auto end = d.end;
  static std::vector<std::vector<std::string>> hist;
  d.begin = [begin] { hist.clear(); begin(); };
  d.cmd = [cmd](std::vector<std::string> &t) { hist.push_back(t); cmd(t); };
  d.end = [end] {
    end();
    std::size_t b = __sanitizer_get_current_allocated_bytes();
    for (auto &t : hist) {
      if (t[0] == "Big") continue;
      int a[5] = {0, 0, 0, 0, 0};
      for (size_t i = 1; i < t.size(); i++) a[i - 1] = std::stoi(t[i]);
      int x = a[0] - 1, y = a[1] - 1;
      if (t[0] == "Make") { new (raw[x]) H(a[1]); st[x] = 'l'; }
      else if (t[0] == "Default") { new (raw[x]) H(); st[x] = 'h'; }
      else if (t[0] == "Destroy") destroy(x);
      else if (t[0] == "MoveCtor") { new (raw[x]) H(std::move(at(y))); st[x] = st[y]; st[y] = 'h'; }
      else if (t[0] == "MoveAssign") { at(x) = std::move(at(y)); if (x != y) { st[x] = st[y]; st[y] = 'h'; } }
      else if (t[0] == "WriteC") at(x).C(a[1], a[2]) = a[3];
      else if (t[0] == "WriteS") at(x).S(a[1], a[2]) = a[3];
      else if (t[0] == "Denorm") at(x).denormalize(a[1]);
#ifndef OLDCOPY
      else if (t[0] == "MakeC") { new (raw[x]) H(a[1], a[2], a[3]); st[x] = 'l'; }
      else if (t[0] == "Resize") { at(x).resize(a[1]); st[x] = 'l'; }
#endif
    }
    end();
    std::size_t e = __sanitizer_get_current_allocated_bytes();
    vf::Ev("End").i("leak", (long)e - (long)b).out();
  };
  return d.run();
}
