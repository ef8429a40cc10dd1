// C15: histories over three Earth-orientation tables.
#include <cassert>
#include "eop.hpp"
#include "heapdriver.hpp"
using T = dso::EopLookUpTable;
static double *cell(T &t, int i, int p) {
  switch (p) { case 1: return t.mjd(i); case 2: return t.xp(i); case 3: return t.yp(i); case 4: return t.dut(i); case 5: return t.dx(i); case 6: return t.dy(i); case 7: return t.lod(i); default: return t.omega(i); }
}
static const double *ccell(const T &t, int i, int p) {
  switch (p) { case 1: return t.mjd(i); case 2: return t.xp(i); case 3: return t.yp(i); case 4: return t.dut(i); case 5: return t.dx(i); case 6: return t.dy(i); case 7: return t.lod(i); default: return t.omega(i); }
}
// the first entry is what the accessors give when no index is named
static bool firsts(T &t) {
  const T &k = t;
  return t.mjd() == t.mjd(0) && t.xp() == t.xp(0) && t.yp() == t.yp(0) && t.dut() == t.dut(0) && t.dx() == t.dx(0) && t.dy() == t.dy(0) && t.lod() == t.lod(0) && t.omega() == t.omega(0) &&
         k.mjd() == k.mjd(0) && k.xp() == k.xp(0) && k.yp() == k.yp(0) && k.dut() == k.dut(0) && k.dx() == k.dx(0) && k.dy() == k.dy(0) && k.lod() == k.lod(0) && k.omega() == k.omega(0);
}
int main() {
  return vf::heap_main<T>(
      [](vf::Heap<T> &h, vf::Toks &t) {
        auto A = [&](int i) { return std::atoi(t[i].c_str()); };
        int x = A(1) - 1;
        if (t[0] == "Make") { if (A(2) == 10) new (h.raw[x]) T(); else new (h.raw[x]) T(A(2)); h.st[x] = 'l'; }
        else if (t[0] == "Write") *cell(h.at(x), A(2), A(3)) = A(4);
        else if (t[0] == "Fill") { for (int i = 0; i < h.at(x).size(); i++) for (int p = 1; p <= 8; p++) *cell(h.at(x), i, p) = A(2) + i * 8 + p; }
        else if (t[0] == "Resize") { h.at(x).resize(A(2)); h.st[x] = 'l'; }
        else return false;
        return true;
      },
      [](T &m) {
        std::vector<long> v;
        for (int i = 0; i < m.size(); i++)
          for (int p = 1; p <= 8; p++) v.push_back(cell(m, i, p) == ccell(m, i, p) ? vf::toi(*cell(m, i, p)) : -77777);
        if (m.size() > 0 && !firsts(m)) v[0] = -77778;
        vf::Ev e("x");
        e.i("n", m.size()).arr("v", v);
        return e.s.substr(e.s.find(',') + 1);
      },
      [](vf::Toks &) { return std::string(); });
}
