// C09: drives dso::EnumBitset, Sp3Flag (var/flags.cc) and the packed Flag (var/compound_measurement.cc)
#include <bits/stdc++.h>   // before the sources below are included inside namespaces
#include <cassert>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <initializer_list>
#include <random>
#include "harness.hpp"
#include "enum_bitset.hpp"
namespace sp3ns {
#define main sp3_main
#include "var/flags.cc"
#undef main
}
namespace cmns {
#define main cm_main
#include "var/compound_measurement.cc"
#undef main
}
enum class E8 : uint8_t { f0 = 1, f1 = 2, f2 = 4, f3 = 8, f4 = 16, f5 = 32, f6 = 64, f7 = 128 };
using ES = dso::EnumBitset<E8>;
static E8 ef(int i) { return static_cast<E8>(1u << i); }
static sp3ns::Sp3Event sf(int i) { return static_cast<sp3ns::Sp3Event>(i); }
static ES es[2];
static sp3ns::Sp3Flag *sp = nullptr;
static cmns::Flag *pk = nullptr;
static std::streambuf *saved;
static void emit(const char *name, const std::vector<int> &a) {
  std::vector<int> e[2], s;
  for (int o = 0; o < 2; o++) for (int i = 0; i < 8; i++) if (es[o].check(ef(i))) e[o].push_back(i);
  for (int i = 0; i < 12; i++) if (sp->is_set(sf(i))) s.push_back(i);
  std::vector<int> p{(int)pk->get_flag1(), (int)pk->get_flag2(), (int)pk->get_missing()};
  vf::Ev(name).arr("a", a).arr("e1", e[0]).arr("e2", e[1]).arr("sp", s).arr("p", p).i("c1", es[0].is_clean()).i("c2", es[1].is_clean())
      .i("cs", sp->is_clean()).i("eq", es[0] == es[1]).i("ne", es[0] != es[1]).out();
}
int main() {
  std::cout.rdbuf(nullptr); // the prototype prints from its setters
  vf::Driver d;
  d.begin = [] {
    es[0] = ES(); es[1] = ES();
    delete sp; delete pk;
    sp = new sp3ns::Sp3Flag(); pk = new cmns::Flag();
    emit("Begin", {});
  };
  d.cmd = [](std::vector<std::string> &t) {
    std::vector<int> a;
    for (size_t i = 1; i < t.size(); i++) a.push_back(std::stoi(t[i]));
    const std::string &c = t[0];
    if (c == "EsSet") es[a[0] - 1].set(ef(a[1]));
    else if (c == "EsClear") es[a[0] - 1].clear(ef(a[1]));
    else if (c == "EsReset") es[a[0] - 1].clear();
    else if (c == "EsCopy") es[a[0] - 1] = es[2 - a[0]];
    else if (c == "EsMake") {
      if (a.size() == 2) es[a[0] - 1] = ES(ef(a[1]));
      else if (a.size() == 3) es[a[0] - 1] = ES({ef(a[1]), ef(a[2])});
      else es[a[0] - 1] = ES({ef(a[1]), ef(a[2]), ef(a[3])});
    } else if (c == "SpSet") sp->set(sf(a[0]));
    else if (c == "SpClear") sp->clear(sf(a[0]));
    else if (c == "SpReset") sp->reset();
    else if (c == "SpAssign") {
      using sp3ns::operator|;
      if (a.size() == 2) sp->set(sf(a[0]) | sf(a[1]));
      else if (a.size() == 3) sp->set(sf(a[0]) | sf(a[1]) | sf(a[2]));
      else sp->set(sf(a[0]) | sf(a[1]) | sf(a[2]) | sf(a[3]));
    } else if (c == "PkSet") {
      if (a[0] == 1) pk->set_flag1(a[1]); else if (a[0] == 2) pk->set_flag2(a[1]); else pk->set_missing(a[1]);
    }
    emit(c.c_str(), a);
  };
  return d.run();
}
