// C05 / C06: gravity model header and data. Compiled once against src/ and once against var/icgem/src (-DOLDCOPY).
#include <cassert>
#include <fstream>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include "harness.hpp"
#include "icgemio.hpp"
#ifndef OLDCOPY
namespace dso { int parse_gravity_model(const char *model_fn, int degree, int order, HarmonicCoeffs &harmonics, bool denormalize) noexcept; }
#endif
static const char *FN = "model.gfc";
static long val(double d) { return vf::toi(d); }
static long seen(double c, int n, int m) { // sign(c) c^2 (n+m)!/(n-m)!
  double p = 1;
  for (int i = n - m + 1; i <= n + m; i++) p *= i;
  return vf::toi_scaled(c * c * (c < 0 ? -1 : 1), p, 1e-9);
}
#ifdef DEBUG
// what the library itself prints about a parsed header (it has no accessors for the text values)
static std::string details(dso::Icgem &g) {
  std::fflush(stdout);
  int keep = dup(1), f = open("details.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(f, 1); close(f);
  g.print_details();
  std::fflush(stdout);
  dup2(keep, 1); close(keep);
  const char *names[][2] = {{"Product Type", "product_type"}, {"Model Name", "modelname"}, {"Tide System", "tide_system"}, {"Errors", "errors"}};
  std::string out, l;
  std::ifstream in("details.txt");
  while (std::getline(in, l)) for (auto &n : names) if (!l.compare(0, std::strlen(n[0]), n[0])) out += (out.empty() ? "\"" : ",\"") + std::string(n[1]) + "\":" + vf::Ev::esc(l.substr(l.find(": ") + 2));
  return "{" + out + "}";
}
#endif
int main() {
  vf::Driver d;
  d.cmd = [](std::vector<std::string> &t) {
    if (t[0] == "#") return;
    if (t[0] == "F") {
      std::ofstream o(FN, std::ios::binary);
      o << (t.size() > 1 ? vf::unhex(t[1]) : std::string());
    } else if (t[0] == "H") { // parse the header, then the (0,0) record
      dso::Icgem g(FN);
      int rc = g.parse_header();
      vf::Ev e("Header");
      e.i("rc", rc ? 1 : 0);
      if (!rc) {
        e.i("deg", g.degree()).i("gm", val(g.gm())).i("re", val(g.earth_radius()))
#ifdef DEBUG
            .raw("txt", details(g))
#endif
            ;
#ifdef OLDCOPY
        e.i("hasnorm", 0).i("norm", 0);
#else
        e.i("hasnorm", 1).i("norm", g.is_normalized());
#endif
        dso::HarmonicCoeffs h(0);
        h.C(0, 0) = -5;
        int r2 = g.parse_data(0, 0, &h);
        e.i("c00", r2 ? -1 : val(h.C(0, 0)));
      }
      e.out();
    } else if (t[0] == "X") { // no such file
      dso::Icgem g("does-not-exist.gfc");
      vf::Ev("NoFile").i("rc", g.parse_header() ? 1 : 0).out();
    } else if (t[0] == "D") { // D degree order container-degree : read the window
      int l = std::stoi(t[1]), m = std::stoi(t[2]), cd = std::stoi(t[3]);
      dso::Icgem g(FN);
      int rh = g.parse_header();
      dso::HarmonicCoeffs h(cd);
      for (int i = 0; i <= cd; i++) for (int j = 0; j <= i; j++) { h.C(i, j) = -4000 - 10 * i - j; if (j) h.S(i, j) = -5000 - 10 * i - j; }
#ifndef OLDCOPY
      h.GM() = -1; h.Re() = -1;
#endif
      int rc = g.parse_data(l, m, &h);
      vf::Ev e("Data");
      e.i("rh", rh ? 1 : 0).i("rc", rc ? 1 : 0);
      std::vector<long> c, s;
      for (int i = 0; i <= cd; i++) for (int j = 0; j <= i; j++) { c.push_back(val(h.C(i, j))); s.push_back(j ? val(h.S(i, j)) : 0); }
      e.arr("C", c).arr("S", s);
#ifdef OLDCOPY
      e.i("hasgm", 0).i("gm", 0).i("re", 0).i("norm", 0);
#else
      e.i("hasgm", 1).i("gm", val(h.GM())).i("re", val(h.Re())).i("norm", h.normalized());
#endif
      e.out();
    }
#ifndef OLDCOPY
    else if (t[0] == "G") { // G degree order predegree denormalize : the one-call driver
      int l = std::stoi(t[1]), m = std::stoi(t[2]), pre = std::stoi(t[3]), den = std::stoi(t[4]);
      dso::HarmonicCoeffs h(pre);
      int rc = dso::parse_gravity_model(FN, l, m, h, den);
      vf::Ev e("Model");
      e.i("rc", rc ? 1 : 0).i("cd", h.degree());
      std::vector<long> c, s;
      if (!rc) for (int i = 0; i <= h.degree(); i++) for (int j = 0; j <= i; j++) { bool in = i <= l && j <= m; c.push_back(in ? seen(h.C(i, j), i, j) : 0); s.push_back(in && j ? seen(h.S(i, j), i, j) : 0); }
      e.arr("C", c).arr("S", s).i("gm", val(h.GM())).i("re", val(h.Re())).i("norm", h.normalized()).out();
    }
#endif
  };
  return d.run();
}
