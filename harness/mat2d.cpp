// C08: histories over three compact matrices. KIND: 'R','C','T'; -DOLDCOPY: the var/icgem copy.
#ifdef OLDCOPY
#include "compact2dmat.hpp"
#else
#include "cmat2d.hpp"
#endif
#include "heapdriver.hpp"
#ifndef KIND
#define KIND 'R'
#endif
constexpr auto S = KIND == 'R' ? dso::MatrixStorageType::RowWise : KIND == 'C' ? dso::MatrixStorageType::ColumnWise : dso::MatrixStorageType::Trapezoid;
using M = dso::Mat2D<S>;
static bool in(int i, int j) { return KIND != 'T' || j <= i; }
static std::string arr(const std::vector<long> &v) { vf::Ev e("x"); e.arr("q", v); return e.s.substr(e.s.find('[')); }
int main() {
  return vf::heap_main<M>(
      [](vf::Heap<M> &h, vf::Toks &t) {
        auto A = [&](int i) { return std::atoi(t[i].c_str()); };
        int x = A(1) - 1;
        if (t[0] == "Make") { new (h.raw[x]) M(A(2), A(3)); h.st[x] = 'l'; }
        else if (t[0] == "Write") h.at(x)(A(2), A(3)) = A(4);
        else if (t[0] == "Fill") h.at(x).fill_with(A(2));
        else return false;
        return true;
      },
      [](M &m) {
        const M &k = m;
        std::vector<long> v, p;
        for (int i = 0; i < m.rows(); i++)
          for (int j = 0; j < m.cols(); j++)
            if (in(i, j)) {
              v.push_back(vf::toi(k(i, j)));
              double q = KIND == 'C' ? k.slice(j)[i] : m.slice(i)[j];
              if (&k(i, j) != &m(i, j) || k.slice(KIND == 'C' ? j : i) != m.slice(KIND == 'C' ? j : i)) q = 1e300;
              p.push_back(vf::toi(q));
            }
        return "\"sh\":[\"" + std::string(1, KIND) + "\"," + std::to_string(m.rows()) + "," + std::to_string(m.cols()) + "],\"num\":" + std::to_string(m.num_elements()) + ",\"v\":" + arr(v) + ",\"ptr\":" + arr(p);
      },
      [](vf::Toks &t) { return t[0] == "Make" ? "\"k\":\"" + std::string(1, KIND) + "\"" : std::string(); },
      [](vf::Toks &t) {
        if (t[0] != "Layout") return false;
        int r = std::atoi(t[1].c_str()), c = std::atoi(t[2].c_str());
        M m(r, c);
        const M &k = m;
        const double *d = k.data();
        std::vector<long> off, s, mir;
        for (int i = 0; i < r; i++)
          for (int j = 0; j < c; j++)
            if (in(i, j)) { off.push_back(&k(i, j) - d); mir.push_back(KIND == 'T' && i < c ? &k(j, i) - d : 0); }
        for (int i = 0; i < (KIND == 'C' ? c : r); i++) s.push_back(k.slice(i) - d);
        vf::Ev("Layout").str("k", std::string(1, KIND)).i("r", r).i("c", c).i("num", m.num_elements()).arr("off", off).arr("s", s).arr("mir", mir).out();
        return true;
      });
}
