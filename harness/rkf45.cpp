// C04: Runge-Kutta-Fehlberg integrator, driven through solve().
#include <map>
#include <memory>
#include "harness.hpp"
#include "rkf45.hpp"
using V = Eigen::VectorXd;
#include "odeprobs.hpp"
static std::vector<double> ex;
static std::vector<V> ey;
static void F(double x, const V &y, Eigen::Ref<V> yp, void *) {
  ex.push_back(x); ey.push_back(y);
  if (ex.size() > 60000) { std::fprintf(stderr, "terminate called: more than 60000 evaluations in one call\n"); std::_Exit(3); }
  double d[8];
  rhs(x, y, d);
  for (int i = 0; i < nq; i++) yp(i) = d[i];
}
static dso::RKF45 *ode = nullptr;
static double rel, ab, now, lasth;
static V y;
static std::map<double, int> ids;
static int id(double t) { auto it = ids.find(t); if (it != ids.end()) return it->second; int n = ids.size(); return ids[t] = n; }
static const double EPS = std::numeric_limits<double>::epsilon();
int main() {
  vf::Driver d;
  d.begin = [] { ids.clear(); };
  d.cmd = [](std::vector<std::string> &t) {
    if (t[0] == "P") {   // P prob neqn rel abs
      prob = std::stoi(t[1]); int n = std::stoi(t[2]);
      rel = std::stod(t[3]); ab = std::stod(t[4]);
      nq = n < 0 ? dims(prob) : n;
      // the object lives in a dirtied buffer, so that nothing it forgets to set is zero by luck
      alignas(dso::RKF45) static unsigned char buf[sizeof(dso::RKF45)];
      if (ode) ode->~RKF45();
      std::memset(buf, 0x5b, sizeof buf);
      ode = new (buf) dso::RKF45(F, nq, rel, ab);
      y = V::Zero(dims(prob)); exact(0, y); now = 0;
      vf::Ev("New").i("neq", nq).i("rel", rel < 0 ? -1 : rel < 2 * EPS + 1e-12 ? 0 : 1).i("abs", (ab > 0) - (ab < 0)).out();
      return;
    }
    if (t[0] == "S") { now = std::stod(t[1]); y = V::Zero(dims(prob)); exact(now, y); if (t.size() > 2) y *= std::stod(t[2]); return; }   // the caller moves
    if (t[0] != "C") return;
    double tout = t[1] == "=" ? now : t[1][0] == '+' ? now + std::stod(t[1].substr(1)) : t[1][0] == 'u' ? now : std::stod(t[1]);
    if (t[1][0] == 'u') { int k = std::stoi(t[1].substr(1)); for (int i = 0; i < std::abs(k); i++) tout = std::nextafter(tout, k > 0 ? 1e300 : -1e300); }
    const double t0 = now;
    const V y0 = y;
    const int sg = (tout > t0) - (tout < t0);
    ex.clear(); ey.clear();
    double re = rel < 2 * EPS + 1e-12 ? 2 * EPS + 1e-12 : rel;
    vf::Ev("Call").i("t0", id(t0)).i("tout", id(tout)).i("sg", sg).i("near", std::abs(tout - t0) <= 26 * EPS * std::abs(t0)).out();
    ode->solve(now, tout, y);
    double x = t0, h = 0;
    const double u = 8 * EPS * std::max(std::abs(t0), std::abs(tout));
    size_t k = 0;
    bool intry = false;
    if (k < ex.size()) { vf::Ev("Here").i("at0", ex[0] == t0 && ey[0] == y0).out(); k = 1; }
    while (k < ex.size()) {
      if (intry && std::abs(ex[k] - ex[k - 2]) <= u) {
        x = ex[k];
        vf::Ev("Accept").i("x", id(k + 1 == ex.size() && std::abs(x - tout) <= u ? tout : x)).out();
        k++; intry = false;
        continue;
      }
      if (!intry && ex.size() == 2 && k == 1) { vf::Ev("Jump").i("x", id(ex[k])).out(); k++; continue; }
      if (k + 5 > ex.size()) { vf::Ev("Odd").i("left", ex.size() - k).out(); break; }
      const double hn = ex[k + 3] - x, r = hn / h, dt = tout - x;
      const double fr[5] = {1. / 4, 3. / 8, 12. / 13, 1, 1. / 2};
      bool ok = hn * sg > 0, beyond = false;
      for (int i = 0; i < 5; i++) { ok = ok && std::abs(ex[k + i] - (x + fr[i] * hn)) <= 2 * u; beyond = beyond || (ex[k + i] - tout) * sg > u; }
      std::string cls = "[\"any\"";
      auto add = [&cls](const char *s) { cls += std::string(",\"") + s + "\""; };
      const double tol = 1e-9 + u / std::abs(h);
      if (k == 1) {
        double hh = std::abs(dt), toln = 0, dd[8];
        rhs(t0, y0, dd);
        for (int i = 0; i < nq; i++) { double tl = re * std::abs(y0(i)) + ab; if (tl > 0) { toln = tl; double yk = std::abs(dd[i]); if (yk * std::pow(hh, 5) > tl) hh = std::pow(tl / yk, .2); } }
        if (!(toln > 0)) hh = 0;
        hh = std::max(hh, 26 * EPS * std::max(std::abs(t0), std::abs(dt)));
        if (std::abs(dt) <= hh) hh = std::abs(dt); else if (std::abs(dt) < 2 * hh) hh = std::abs(dt) / 2;
        if (std::abs(std::abs(hn) - hh) <= u + 1e-9 * hh) add("start");
      } else {
        if (r >= .9 - tol && r <= 5 + tol) add("grow");
        if (r >= .9 - tol && r <= 1 + tol) add("keep");
        if (r >= .1 - tol && r <= .9 + tol) add("shrink");
        if (std::abs(hn - dt) <= u) add("last");
        if (std::abs(hn - dt / 2) <= u) add("half");
        if (r <= 1 + tol) add("nogrow");
        if (r <= 5 + tol) add("five");
      }
      cls += "]";
      vf::Ev("Trial").raw("cls", cls).i("absc", ok).i("beyond", beyond).out();
      h = hn; intry = true; k += 5;
    }
    double q = 0;
    V ye = V::Zero(dims(prob));
    bool hasx = exact(now, ye) && y.size() == ye.size(), fin = true;
    if (hasx) for (int i = 0; i < nq; i++) q = std::max(q, std::abs(y(i) - ye(i)) / (re * size_of(ye(i)) + ab));
    for (int i = 0; i < nq; i++) fin = fin && std::isfinite(y(i));
    vf::Ev("Return").i("flag", ode->flag()).i("t", id(now)).i("tsame", now == t0).i("ysame", y == y0).i("finite", fin)
        .i("hasx", hasx).i("q", hasx ? (!(q < 1e8) ? 100000000 : (long)std::ceil(q)) : 0).i("n", ex.size())
        .str("hint", t.size() > 2 ? t[2] : "any").i("qmax", t.size() > 3 ? std::stol(t[3]) : 100000000).i("nmax", t.size() > 4 ? std::stol(t[4]) : 100000000).out();
  };
  return d.run();
}
