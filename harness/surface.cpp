// C37: drag and solar radiation pressure.
#include "harness.hpp"
#include "astrodynamics.hpp"
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
static const int ANG[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
int main() {
  vf::Driver d;
  V3 r, v; double L = 1, scale = 1; const double W = iers2010::OmegaEarth;
  bool have = false;
  d.begin = [&] { have = false; };
  d.cmd = [&](vf::Driver::Toks &t) {
    auto I = [&](size_t k) { return k < t.size() ? std::atoi(t[k].c_str()) : 0; };
    auto D = [&](size_t k) { return k < t.size() ? std::atof(t[k].c_str()) : 0e0; };
    auto vec = [](const V3 &x, double f) { return std::vector<long>{vf::toi_scaled(x(0), f), vf::toi_scaled(x(1), f), vf::toi_scaled(x(2), f)}; };
    auto mat = [](const M3 &x, double f) { std::vector<long> o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.push_back(vf::toi_scaled(x(i, j), f)); return o; };
    (void)scale;
    if (t[0] == "Start") { // Start r v L
      L = D(7);
      r = V3(I(1), I(2), I(3)) * L; v = V3(I(4), I(5), I(6)) * (L * W); have = true;
      vf::Ev("Start").arr("r", std::vector<long>{I(1), I(2), I(3)}).arr("v", std::vector<long>{I(4), I(5), I(6)}).out();
      return;
    }
    if (!have) return;
    const double u = L * W; // unit of velocity
    if (t[0] == "Drag") { // Drag len area cd mass rho
      const double A = D(2), CD = D(3), m = D(4), rho = D(5), b = .5 * CD * A / m * rho * u * u;
      vf::Ev("Drag").i("len", I(1)).arr("a", vec(dso::drag_accel(r, v, A, CD, m, rho), 1 / b)).out();
    } else if (t[0] == "Date") { // Date len area cd mass rho ax k
      const double A = D(2), CD = D(3), m = D(4), rho = D(5), b = .5 * CD * A / m * rho * u * u;
      const int ax = I(6), i = ax % 3, j = (ax + 1) % 3; const double c = ANG[I(7)][0] / 5e0, s = ANG[I(7)][1] / 5e0;
      M3 q = M3::Identity(); q(i, i) = c; q(i, j) = s; q(j, i) = -s; q(j, j) = c;
      const V3 rc = q.transpose() * r, vc = q.transpose() * v; // r, v are of date
      vf::Ev("DragDate").i("len", I(1)).i("ax", ax).i("k", I(7)).arr("a", vec(dso::drag_accel(rc, vc, q, A, CD, m, rho), 5 / b)).out();
    } else if (t[0] == "Partials") { // Partials len area cd mass rho g1 g2 g3
      const double A = D(2), CD = D(3), m = D(4), rho = D(5), k = .5 * A / m, b = k * CD * rho * u * u, len = I(1);
      const V3 g = V3(I(6), I(7), I(8)) * (rho / L);
      M3 dr = M3::Constant(NAN), dv = M3::Constant(NAN); V3 dc = V3::Constant(NAN);
      const V3 a = dso::drag_accel(r, v, A, CD, m, rho, g, dr, dv, dc);
      vf::Ev("DragPartials").i("len", I(1)).arr("g", std::vector<long>{I(6), I(7), I(8)}).arr("a", vec(a, 1 / b)).arr("c", vec(dc, 1 / (k * rho * u * u))).arr("dv", mat(dv, len / (k * CD * rho * u))).arr("dr", mat(dr, len * L / b)).out();
    } else if (t[0] == "Light") { // Light sx sy sz len area mass C unit partials
      const double A = D(5), m = D(6), C = D(7), len = I(4);
      const V3 s(I(1) * L, I(2) * L, I(3) * L);
      const double p = 4.56316e-6 * iers2010::AU * iers2010::AU * (A / m), q = p * (C == 0 ? 1 : std::abs(C)), f = len * len * len * L * L;
      M3 dr = M3::Constant(NAN); V3 dc = V3::Constant(NAN);
      const V3 a = I(8) ? dso::solar_radiation_acceleration(r, s, A, m, C, dr, dc) : dso::solar_radiation_acceleration(r, s, A, m, C);
      vf::Ev e("Light");
      e.arr("s", std::vector<long>{I(1), I(2), I(3)}).i("len", I(4)).i("par", I(8) != 0).i("sg", (C > 0) - (C < 0)).arr("a", vec(a, f / q));
      if (I(8)) e.arr("c", vec(dc, f / p)).arr("dr", mat(dr, f * L * len * len / q));
      e.out();
    }
  };
  return d.run();
}
