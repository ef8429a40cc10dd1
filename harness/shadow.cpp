// C35: shadow of the Earth.
#include "harness.hpp"
#include "astrodynamics.hpp"
static const int TRI[][10] = {{1, 0, 0, 0, 1, 0, 0, 0, 1, 1}, {3, 4, 0, -4, 3, 0, 0, 0, 5, 5}, {-4, 3, 0, -3, -4, 0, 0, 0, 5, 5}, {0, -1, 0, 1, 0, 0, 0, 0, 1, 1},
                              {1, 2, 2, 2, 1, -2, 2, -2, 1, 3}, {2, 3, 6, 3, -6, 2, 6, 2, -3, 7}, {-2, 6, 9, 6, -7, 6, 9, 6, -2, 11}, {1, -4, 8, 4, -7, -4, 8, 4, 1, 9}, {0, 0, 1, 1, 0, 0, 0, 1, 0, 1}, {4, 0, -3, 3, 0, 4, 0, 1, 0, 0}};
static long mil(double v) { return std::isfinite(v) && std::abs(v) < 1e6 ? std::lround(v * 1000) : vf::WEIRD; }
int main() {
  vf::Driver d;
  d.cmd = [&](vf::Driver::Toks &t) { // S triad s a b
    const int k = std::atoi(t[1].c_str()), s = std::atoi(t[2].c_str()), a = std::atoi(t[3].c_str()), b = std::atoi(t[4].c_str());
    double m[9];
    for (int i = 0; i < 9; i++) m[i] = TRI[k][i] / (double)(TRI[k][9] ? TRI[k][9] : 5);
    if (!TRI[k][9]) m[7] = 1;
    const double u = iers2010::Re / 1000;
    double r[3], n[3];
    for (int i = 0; i < 3; i++) { r[i] = u * (s * m[i] + a * m[3 + i] + b * m[6 + i]); n[i] = iers2010::AU * m[i]; }
    const dso::Vector3 R{r[0], r[1], r[2]}, N{n[0], n[1], n[2]};
    const Eigen::Matrix<double, 3, 1> Re(r), Ne(n);
    vf::Ev("Shadow").i("s", s).i("a", a).i("b", b).i("eq", k < 4).i("cyl", mil(utest::montebruck_shadow(R, N))).i("cyle", mil(utest::montebruck_shadow(Re, Ne))).i("cone", mil(utest::vallado_shadow(R, N)))
        .i("disc", mil(utest::conical_shadow(R, N))).i("flat", mil(utest::bernese_shadow1(R, N))).out();
  };
  return d.run();
}
