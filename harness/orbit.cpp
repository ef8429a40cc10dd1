// C33: orbital elements, states, and moving along an orbit.
#include "harness.hpp"
#include "astrodynamics.hpp"
using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>;
using dso::OrbitalElements;
using dso::Vector3;
static const double PI = 3.14159265358979323846, PI2 = 2 * PI;
static const int ANG[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
static const int ECC[6][3] = {{0, 1, 1}, {3, 4, 5}, {4, 3, 5}, {5, 12, 13}, {12, 5, 13}, {7, 24, 25}};
static double ang(int k) { const double a = std::atan2(ANG[k][1], ANG[k][0]); return a < 0 ? a + PI2 : a; }
static long rnd(double v) { return std::abs(v) < 2e9 ? std::lround(v) : vf::WEIRD; }
static std::vector<long> cs(double a) { return {rnd(5e6 * std::cos(a)), rnd(5e6 * std::sin(a))}; }
static double ecc_anomaly(double e, double M) { // bisection
  M = std::fmod(M, PI2); if (M < 0) M += PI2;
  double lo = 0, hi = PI2;
  for (int i = 0; i < 80; i++) { const double m = (lo + hi) / 2; (m - e * std::sin(m) < M ? lo : hi) = m; }
  return (lo + hi) / 2;
}
int main() {
  vf::Driver d;
  double a0 = 1, GM = 1, e0 = 0, n0 = 1;
  int ke = 0, eleE = 0, yE = 0;
  OrbitalElements ele;
  V6 Y;
  bool have = false;
  auto mean = [&](int E) { return ang(E) - e0 * std::sin(ang(E)); };
  auto vecs = [&](vf::Ev &e, const V6 &y, const char *kr = "r", const char *kw = "w", double dist = -1) {
    const double s = 625e3 * ECC[ke][2], r = dist >= 0 ? dist : y.head<3>().norm() / a0, v = s * r / (n0 * a0);
    e.arr(kr, std::vector<long>{rnd(s * y(0) / a0), rnd(s * y(1) / a0), rnd(s * y(2) / a0)});
    e.arr(kw, std::vector<long>{rnd(v * y(3)), rnd(v * y(4)), rnd(v * y(5))});
  };
  auto dt = [&](int from, int to, int revs) { return (mean(to) - mean(from) + PI2 * revs) / n0; };
  auto inr = [](double x) { return x >= 0 && x <= PI2; };
  auto nd = [&](M6 m) { // states in units of a, n a
    for (int i = 3; i < 6; i++) m.row(i) /= n0;
    return m;
  };
  auto ndphi = [&](M6 m) { for (int i = 3; i < 6; i++) { m.row(i) /= n0; m.col(i) *= n0; } return m; };
  d.begin = [&] { have = false; };
  d.cmd = [&](vf::Driver::Toks &t) {
    auto I = [&](size_t k) { return k < t.size() ? std::atoi(t[k].c_str()) : 0; };
    auto D = [&](size_t k) { return k < t.size() ? std::atof(t[k].c_str()) : 0e0; };
    if (t[0] == "New") { // New e i O w E a GM turns
      ke = I(1); a0 = D(6); GM = D(7); e0 = (double)ECC[ke][0] / ECC[ke][2]; n0 = std::sqrt(GM / (a0 * a0 * a0));
      ele = OrbitalElements();
      ele.semimajor() = a0; ele.eccentricity() = e0; ele.inclination() = ang(I(2)); ele.Omega() = ang(I(3)); ele.omega() = ang(I(4));
      eleE = yE = I(5); ele.mean_anomaly() = mean(eleE) + PI2 * I(8);
      int er; Vector3 r, v; (void)er;
      dso::elements2state(ele, 0e0, r, v, GM); Y << r.x(), r.y(), r.z(), v.x(), v.y(), v.z();
      have = true;
      vf::Ev("Make").i("e", ke).i("i", I(2)).i("O", I(3)).i("w", I(4)).i("E", eleE).out();
      vf::Ev e("State"); vecs(e, Y); e.i("E", yE).i("ok", 0).out();
      return;
    }
    if (t[0] == "Kep") { // Kep e E turns which
      const double ec = (double)ECC[I(1)][0] / ECC[I(1)][2], E = ang(I(2)), M = E - ec * std::sin(E) + PI2 * I(3);
      int ok = 7; const double x = I(4) ? dso::kepler_vallado(ec, M, ok) : dso::kepler(ec, M, ok);
      vf::Ev("Kepler").i("E", I(2)).i("ok", ok).arr("x", cs(x)).out();
      return;
    }
    if (t[0] == "Any") { // Any e(1/1000) M(1e-6 rad) which
      const double ec = I(1) / 1e3, M = I(2) / 1e6;
      int ok = 7; const double x = I(3) ? dso::kepler_vallado(ec, M, ok) : dso::kepler(ec, M, ok);
      vf::Ev("KeplerAny").i("milli", I(1)).i("ok", ok).i("res", rnd(1e9 * std::remainder(x - ec * std::sin(x) - M, PI2))).out();
      return;
    }
    if (t[0] == "Ad") { // Ad a d radius
      const double s = D(3) / 25;
      const Vector3 p{s * ANG[I(2)][0] * ANG[I(1)][0], s * ANG[I(2)][0] * ANG[I(1)][1], 5 * s * ANG[I(2)][1]};
      double ra = 99, de = 99;
      const int rc = dso::pos2ad(p, ra, de);
      vf::Ev("RaDec").i("a", I(1)).i("d", I(2)).i("range", rc == 0 && inr(ra) && std::abs(de) <= PI / 2).arr("ra", cs(ra)).arr("dec", cs(de)).out();
      return;
    }
    if (!have) return;
    if (t[0] == "S") { // S E turns route: state from elements
      const int E = I(1); const double step = dt(eleE, E, I(2));
      int ok = 0; V6 y;
      switch (I(3)) {
        case 0: { Vector3 r, v; ok = dso::elements2state(ele, step, r, v, GM); y << r.x(), r.y(), r.z(), v.x(), v.y(), v.z(); break; }
        case 1: y = dso::elements2state(GM, step, ele, ok); break;
        case 2: y = dso::propagate_state(GM, ele, step); break;
        case 3: y = dso::perifocal2equatorial(ele, dso::elements2perifocal(GM, ele, step)); break;
        case 4: { OrbitalElements g = ele; g.mean_anomaly() += n0 * step; y = dso::perifocal2equatorial(g, dso::elements2perifocal(GM, g)); break; }
        default: {
          const V6 p = dso::core::elements2perifocal(GM, ang(E), ele.eccentricity(), ele.semimajor());
          Vector3 r, v; ok = dso::perifocal2equatorial(ele, Vector3{p(0), p(1), p(2)}, Vector3{p(3), p(4), p(5)}, r, v);
          y << r.x(), r.y(), r.z(), v.x(), v.y(), v.z();
        }
      }
      Y = y; yE = E;
      vf::Ev e("State"); vecs(e, Y); e.i("E", E).i("ok", ok).out();
    } else if (t[0] == "B") { // back into the plane
      V6 y;
      if (I(1)) { Vector3 r, v; dso::equatorial2perifocal(ele, Vector3{Y(0), Y(1), Y(2)}, Vector3{Y(3), Y(4), Y(5)}, r, v); y << r.x(), r.y(), r.z(), v.x(), v.y(), v.z(); }
      else y = dso::equatorial2perifocal(ele, Y);
      // in (5 Dn)ths
      const double s = 5e3 * ECC[ke][2], r = Y.head<3>().norm() / a0, v = s * r / (n0 * a0);
      vf::Ev("Plane").arr("r", std::vector<long>{rnd(s * y(0) / a0), rnd(s * y(1) / a0), rnd(s * y(2) / a0)}).arr("w", std::vector<long>{rnd(v * y(3)), rnd(v * y(4)), rnd(v * y(5))}).out();
    } else if (t[0] == "P") { // P E turns route: state from the state
      const int E = I(1); const double step = dt(yE, E, I(2));
      if (I(3) == 0) {
        Y = dso::propagate_state(GM, Y, step); yE = E;
        vf::Ev e("Move"); vecs(e, Y); e.i("E", E).i("ok", 0).out();
      } else {
        const V6 Y0 = Y; M6 phi, id, p2, p12;
        Y = dso::propagate_state(GM, Y0, step, phi); yE = E;
        dso::propagate_state(GM, Y0, 0e0, id);
        const int Em = (E + 5) % 12; const double s2 = dt(E, Em, 0);
        dso::propagate_state(GM, Y, s2, p2); dso::propagate_state(GM, Y0, step + s2, p12);
        const OrbitalElements g = dso::state2elements(GM, Y0);
        const M6 A0 = nd(dso::state_partials(GM, g, 0e0)), A1 = nd(dso::state_partials(GM, g, step));
        auto unit = [&](M6 m) { for (int i = 0; i < 3; i++) { for (int j = 3; j < 6; j++) { m(i, j) *= n0; m(j, i) /= n0; } } return m; };
        const M6 f = unit(phi), f2 = unit(p2), f12 = unit(p12), f0 = unit(id);
        M6 J = M6::Zero(); J.topRightCorner<3, 3>().setIdentity(); J.bottomLeftCorner<3, 3>() = -Eigen::Matrix3d::Identity();
        auto rel = [](const M6 &x, const M6 &y, double s) { const double e = (x - y).cwiseAbs().maxCoeff() / s; return rnd(1e9 * e); };
        const double n = std::max(1e0, f.norm());
        vf::Ev e("Transition"); vecs(e, Y);
        e.i("E", E).i("ok", 0).i("symp", rel(f.transpose() * J * f, J, n * n)).i("chain", rel(f * A0, A1, n * std::max(1e0, A0.norm()))).i("ident", rel(f0, M6::Identity(), std::max(1e0, f0.norm())))
            .i("comp", rel(f2 * f, f12, std::max(1e0, f2.norm()) * n)).out();
      }
    } else if (t[0] == "K") { // elements from the state
      if (I(1)) ele = dso::state2elements(GM, Y);
      else dso::state2elements(Vector3{Y(0), Y(1), Y(2)}, Vector3{Y(3), Y(4), Y(5)}, ele, GM);
      eleE = yE;
      vf::Ev("Elements").i("a", rnd(1e8 * ele.semimajor() / a0)).i("e", rnd(1e6 * ECC[ke][2] * ele.eccentricity())).arr("i", cs(ele.inclination())).arr("O", cs(ele.Omega())).arr("w", cs(ele.omega()))
          .arr("E", cs(ecc_anomaly(ele.eccentricity(), ele.mean_anomaly())))
          .i("range", ele.inclination() >= 0 && ele.inclination() <= PI && inr(ele.Omega()) && inr(ele.omega()) && inr(ele.mean_anomaly())).out();
    } else if (t[0] == "Z") { // Z which
      double k[6] = {-9, -9, -9, -9, -9, -9}, s[6];
      for (int i = 0; i < 6; i++) s[i] = Y(i);
      if (I(1) == 0) dso::state2kepler(s, k, GM); else if (I(1) == 1) dso::alternatives::state2kepler_vallado(s, k, GM); else dso::alternatives::state2kepler_montenbruck(s, k, GM);
      vf::Ev("Kepler6").i("h", rnd(1e6 * ECC[ke][2] * k[0] / std::sqrt(GM * a0))).i("e", rnd(1e6 * ECC[ke][2] * k[3])).arr("i", cs(k[1])).arr("O", cs(k[2])).arr("w", cs(k[4]))
          .arr("t", std::isfinite(k[5]) ? std::vector<long>{rnd(1e6 * std::cos(k[5])), rnd(1e6 * std::sin(k[5]))} : std::vector<long>{4000000, 4000000}).out();
    } else if (t[0] == "D") { // D E turns: partial derivatives of the state at E with respect to the elements
      const int E = I(1); const double step = dt(eleE, E, I(2));
      const M6 A = dso::state_partials(GM, ele, step);
      M6 F;
      const double del[6] = {a0 * 1e-5, 1e-5, 1e-5, 1e-5, 1e-5, 1e-5};
      for (int j = 0; j < 6; j++) {
        V6 y[2];
        for (int s = 0; s < 2; s++) {
          OrbitalElements g = ele; g.elements[j] += (s ? 1 : -1) * del[j];
          int ok; Vector3 r, v; (void)ok; dso::elements2state(g, step, r, v, GM); y[s] << r.x(), r.y(), r.z(), v.x(), v.y(), v.z();
        }
        F.col(j) = (y[1] - y[0]) / (2 * del[j]);
      }
      M6 An = nd(A) / a0, Fn = nd(F) / a0; An.col(0) *= a0; Fn.col(0) *= a0;
      double worst = 0;
      for (int j = 0; j < 6; j++) { const double e = (An.col(j) - Fn.col(j)).cwiseAbs().maxCoeff() / std::max(1e0, std::pow(Fn.col(j).norm(), 2)); if (!(e <= worst)) worst = std::isnan(e) ? 1e9 : e; }
      const double dist = 1 - e0 * std::cos(ang(E));
      vf::Ev e("Partials"); e.i("E", E).i("fd", rnd(std::min(1e9, worst * 1e6)));
      vecs(e, A.col(3), "Or", "Ow", dist);
      const double s = 625e3 * ECC[ke][2] * dist / a0;
      e.arr("Mr", std::vector<long>{rnd(s * A(0, 5)), rnd(s * A(1, 5)), rnd(s * A(2, 5))}).out();
    }
  };
  return d.run();
}
