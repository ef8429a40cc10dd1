// C01-C03: multistep integrator, driven through its public call. -DVARCOPY: the var/ode_solvers copy.
#include <map>
#include <memory>
#include <cstdint>
#include "harness.hpp"
#include "sgode.hpp"
using V = Eigen::VectorXd;
#include "odeprobs.hpp"
struct Rec { double x; V y; };
static std::vector<Rec> evals;
#ifdef VARCOPY
static void F(double x, const V &y, Eigen::Ref<V> yp, void *) {
#else
static void F(double x, const V &y, Eigen::Ref<V> yp, dso::IntegrationParameters &) noexcept {
#endif
  evals.push_back({x, y});
  if (evals.size() > 20000) { std::fprintf(stderr, "terminate called: more than 20000 evaluations in one call\n"); std::_Exit(3); }
  double d[8];
  rhs(x, y, d);
  for (int i = 0; i < nq; i++) yp(i) = d[i];
}
static std::unique_ptr<dso::SGOde> ode;
static double told, xs, hprev, rel0, abs0; // xs: point reached internally; hprev: last attempted step
static V yl;
static std::map<double, int> ids;
static int id(double t) { auto it = ids.find(t); if (it != ids.end()) return it->second; int n = ids.size(); return ids[t] = n; }
static long quant(double q) { return !(q < 1e8) ? 100000000 : (long)std::ceil(q); }
static const double EPS = std::numeric_limits<double>::epsilon();
int main() {
#ifndef VARCOPY
  static dso::IntegrationParameters dummy;
  auto *par = &dummy;
#else
  void *par = nullptr;
#endif
  vf::Driver d;
  d.begin = [] { ids.clear(); };
  d.cmd = [par](std::vector<std::string> &t) {
    if (t[0] == "P") {
      prob = std::stoi(t[1]); int n = std::stoi(t[2]);
      double r = std::stod(t[3]), a = std::stod(t[4]);
      nq = n < 0 ? dims(prob) : n;
      ode.reset(new dso::SGOde(F, nq, r, a, par));
      rel0 = r; abs0 = a; told = 0; xs = 0; hprev = 0;
      yl = V::Zero(dims(prob)); exact(0, yl);
      vf::Ev("New").i("neq", nq).i("rel", (r > 0) - (r < 0)).i("abs", (a > 0) - (a < 0)).out();
      return;
    }
    if (t[0] != "C") return;
    double t0 = t[1] == "told" ? told : std::stod(t[1]), tout = t[2][0] == 'u' || t[2] == "=" ? t0 : t[2][0] == '+' ? t0 + std::stod(t[2].substr(1)) : std::stod(t[2]);
    if (t[2][0] == 'u') { tout = t0; int k = std::stoi(t[2].substr(1)); for (int i = 0; i < std::abs(k); i++) tout = std::nextafter(tout, k > 0 ? 1e300 : -1e300); } // k ulps away
    if (t[2] == "=") tout = t0;
    if (t[3] != "keep") ode->iflag = std::stoi(t[3]);
    const int fin = ode->iflag;
    V y0 = V::Zero(dims(prob));
    if (t[1] == "told") y0 = yl; else exact(t0, y0);
    V yout = V::Constant(dims(prob), -12345.0);
    double tt = t0;
    const double r1 = ode->relerr, a1 = ode->abserr;
    const int sg = (tout > t0) - (tout < t0);
    evals.clear();
    bool van = false;
    for (int i = 0; i < nq; i++) van = van || !(r1 * std::abs(y0(i)) + a1 > 0);
    // a restart discards what is remembered; the specification decides when; the harness only needs to know from where steps are measured
    const int i0 = id(t0), i1 = id(tout);
    vf::Ev("Call").i("t0", i0).i("tout", i1).i("sg", sg).i("f", std::max(-9, std::min(9, fin))).i("van", van).out();
    const int rc = ode->de(tt, tout, y0, yout);
    const double tend = fin < 0 ? tout : t0 + 10 * (tout - t0);
    bool intry = false, first = true;
    double lastx = 0;
    const double eps0 = std::max(r1, a1);
    for (auto &e : evals) {
      const double ulp = EPS * std::max(std::abs(e.x), std::abs(tout));
      const char *k;
      std::string cls = "[";
      auto add = [&cls](const char *s) { if (cls.size() > 1) cls += ","; cls += std::string("\"") + s + "\""; };
      int at0 = 0;
      if (intry && e.x == lastx) { k = "EvalAccept"; xs = e.x; intry = false; }
      else if (first && e.x == t0 && e.x != xs) { k = "EvalHere"; xs = t0; }
      else if (!intry && e.x == xs) k = "EvalHere";
      else {
        double h = e.x - xs, tol = 4 * EPS * std::max(std::abs(e.x), std::abs(xs));
        auto near = [&](double a, double b) { return std::abs(a - b) <= tol; };
        add("any");
        if (near(h, hprev / 2)) add("half");
        if (h * hprev > 0 && std::abs(h) <= std::abs(hprev) / 2 + tol) add("less");
        if (near(h, 2 * hprev)) add("double");
        if (near(h, hprev)) add("same");
        if (h * hprev > 0 && std::abs(h) >= std::abs(hprev) / 2 - tol && std::abs(h) <= 0.9 * std::abs(hprev) + tol) add("shrink");
        if (std::abs(e.x - tend) <= tol) add("lim");
        { // first step of a start
          double dd[8]; rhs(t0, y0, dd);
          double s = 0;
          for (int i = 0; i < nq; i++) { double w = r1 / eps0 * std::abs(y0(i)) + a1 / eps0; s += dd[i] / w * dd[i] / w; }
          s = std::sqrt(s);
          double ah = std::abs(tout - t0);
          if (eps0 < 16 * s * ah * ah) ah = 0.25 * std::sqrt(eps0 / s);
          ah = std::max(ah, 4 * EPS * std::abs(t0));
          if (std::abs(std::abs(h) - ah) <= tol + 1e-9 * ah && h * sg > 0) add("start");
        }
        k = intry ? "EvalRetry" : "EvalTry";
        hprev = h; intry = true;
      }
      if (e.x == t0) at0 = (e.y.size() == y0.size() && e.y == y0) ? 1 : 0;
      cls += "]";
      vf::Ev(k).raw("cls", cls).i("bt", (e.x - tout) * sg > 2 * ulp).i("be", (e.x - tend) * sg > 20 * ulp).i("bh", (e.x - t0) * sg < 0).i("at0", at0).out();
      lastx = e.x; first = false;
    }
    double q = 0;
    V ye = V::Zero(dims(prob));
    bool hasx = exact(tt, ye) && yout.size() == ye.size();
    if (hasx) for (int i = 0; i < nq; i++) q = std::max(q, std::abs(yout(i) - ye(i)) / (ode->relerr * size_of(ye(i)) + ode->abserr));
    bool fin_ok = true;
    for (int i = 0; i < nq; i++) fin_ok = fin_ok && std::isfinite(yout(i));
    const int fl = ode->flag();
    bool touched = false;
    for (int i = 0; i < yout.size(); i++) touched = touched || yout(i) != -12345.0;
    const bool up = ode->relerr >= r1 && ode->abserr >= a1 && (ode->relerr > r1 || ode->abserr > a1) && ode->relerr < 1e4 * std::max(eps0, 1e-16) && ode->abserr < 1e4 * std::max(eps0, 1e-16);
    const bool ratio = std::abs(ode->relerr * a1 - ode->abserr * r1) <= 1e-9 * ode->relerr * a1 && (r1 > 0) == (ode->relerr > 0) && (a1 > 0) == (ode->abserr > 0);
    vf::Ev("Return").i("rc", rc ? 1 : 0).i("flag", fl).i("t", id(tt)).i("atxs", tt == xs).i("tsame", tt == t0).i("between", (tt - t0) * sg >= 0)
        .i("tolsame", ode->relerr == r1 && ode->abserr == a1).i("tolup", up && ratio).i("touched", touched).i("finite", fin_ok)
        .i("hasx", hasx).i("q", hasx ? quant(q) : 0).i("n", evals.size()).str("hint", t.size() > 4 ? t[4] : "any").i("qmax", t.size() > 5 ? std::stol(t[5]) : 100000000).i("nmax", t.size() > 6 ? std::stol(t[6]) : 100000).out();
    if (fl != 6) { told = tt; yl = yout; }
  };
  return d.run();
}
