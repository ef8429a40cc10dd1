// Generic driver for histories over three objects of a buffer-owning value class (spec/ValueHeap.tla).
// Replays every history twice: once reporting, once silently to balance the heap.
#ifndef VF_HEAPDRIVER_HPP
#define VF_HEAPDRIVER_HPP
#include "harness.hpp"
#include <new>
#include <utility>
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
namespace vf {
using Toks = std::vector<std::string>;
template <class T> struct Heap {
  alignas(T) unsigned char raw[3][sizeof(T)];
  char st[3] = {'d', 'd', 'd'};
  T &at(int i) { return *reinterpret_cast<T *>(raw[i]); }
  void destroy(int i) { if (st[i] != 'd') at(i).~T(); st[i] = 'd'; }
  // the operations every class has; returns false if op is not one of them
  bool common(const std::string &op, int x, int y) {
    if (op == "CopyCtor") { new (raw[x]) T(static_cast<const T &>(at(y))); st[x] = 'l'; }
    else if (op == "CopyAssign") { at(x) = static_cast<const T &>(at(y)); st[x] = st[y]; }
    else if (op == "MoveCtor") { new (raw[x]) T(std::move(at(y))); st[x] = st[y]; st[y] = 'h'; }
    else if (op == "MoveAssign") { at(x) = std::move(at(y)); if (x != y) { st[x] = st[y]; st[y] = 'h'; } }
    else if (op == "Destroy") destroy(x);
    else return false;
    return true;
  }
};
// apply(heap, tokens): performs one operation; dump(T&) -> JSON fields of a live object; extra(tokens): extra event fields
template <class T>
int heap_main(std::function<bool(Heap<T> &, Toks &)> apply, std::function<std::string(T &)> dump, std::function<std::string(Toks &)> extra,
              std::function<bool(Toks &)> other = [](Toks &) { return false; }) {
  static Heap<T> h;
  static std::vector<Toks> hist;
  auto all = [&] {
    std::string s = "[";
    for (int i = 0; i < 3; i++) {
      if (i) s += ",";
      if (h.st[i] == 'd') s += "{\"st\":\"dead\"}";
      else if (h.st[i] == 'h') s += "{\"st\":\"hollow\"}";
      else s += "{\"st\":\"live\"," + dump(h.at(i)) + "}";
    }
    return s + "]";
  };
  auto doit = [&](Toks &t) {
    int x = std::atoi(t[1].c_str()) - 1, y = t.size() > 2 ? std::atoi(t[2].c_str()) - 1 : 0;
    return h.common(t[0], x, y) || apply(h, t);
  };
  Driver d;
  d.begin = [&] { hist.clear(); Ev("Begin").out(); };
  d.cmd = [&](Toks &t) {
    if (other(t)) return;
    hist.push_back(t);
    if (!doit(t)) return;
    std::string a = "[";
    for (size_t i = 1; i < t.size(); i++) a += (i > 1 ? "," : "") + t[i];
    Ev e(t[0].c_str());
    e.raw("a", a + "]");
    std::string x = extra(t);
    if (!x.empty()) e.s += "," + x;
    e.raw("o", all()).out();
  };
  d.end = [&] {
    for (int i = 0; i < 3; i++) h.destroy(i);
    unsigned long b = __sanitizer_get_current_allocated_bytes();
    for (auto &t : hist) doit(t);
    for (int i = 0; i < 3; i++) h.destroy(i);
    unsigned long e = __sanitizer_get_current_allocated_bytes();
    Ev("End").i("leak", (long)e - (long)b).out();
  };
  return d.run();
}
} // namespace vf
#endif
