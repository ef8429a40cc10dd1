// C22: layout, setters and updates of the orbit-determination filter.
#include "harness.hpp"
#include "datetime/dtcalendar.hpp"
#include <cmath>
#include "filters/filters.hpp"
#include <memory>
using namespace dso;
using Epoch = datetime<nanoseconds>;
static Epoch at(long sec) { Epoch t(modified_julian_day(58849), nanoseconds(0)); t.add_seconds(nanoseconds(sec * 1000000000L)); return t; }
struct Base {
  virtual ~Base() {}
  virtual void op(vf::Driver::Toks &t) = 0;
};
template <int Np, BeaconClockModel M> struct Impl : Base {
  EkfFilter<Np, M> f;
  int ns;
  bool timed = false;
  static constexpr bool lin = M == BeaconClockModel::Linear;
  Impl(int n) : f(n, at(0)), ns(n) {
    auto list = [&](bool tropo) { std::string s = "["; for (int i = 0; i < ns; i++) s += (i ? "," : "") + std::to_string(1 + (long)(tropo ? f.tropo_index(i) : f.rfoff_index(i))); return s + "]"; };
    long drag = 0;
    if constexpr (Np >= 1) drag = 1 + (long)f.drag_coef_index();
    vf::Ev e("New");
    e.i("np", Np).raw("lin", lin ? "true" : "false").i("ns", ns).i("n", (long)f.num_params()).raw("tropo", list(true)).raw("rf", list(false)).i("drag", drag);
    show(e, 1);
  }
  void show(vf::Ev &e, long d) {
    const Eigen::MatrixXd x = f.estimates();
    const Eigen::MatrixXd &P = f.P();
    auto num = [&](double v) { return std::to_string(vf::toi_scaled(v, (double)d, 1e-8)); };
    std::string s = "[", p = "[";
    for (int i = 0; i < x.rows(); i++) s += (i ? "," : "") + num(x(i, 0));
    for (int i = 0; i < P.rows(); i++) { p += i ? ",[" : "["; for (int j = 0; j < P.cols(); j++) p += (j ? "," : "") + num(P(i, j)); p += "]"; }
    e.i("tt", timed ? f._ekf._ekf.time().delta_sec(at(0)).as_underlying_type() / 1000000000L : -1);
    e.i("same", f._ekf._ekf.state() == Eigen::VectorXd(x));
    e.i("d", d).raw("x", s + "]").raw("P", p + "]").out();
  }
  void op(vf::Driver::Toks &t) override { // op d ...   (beacon numbers from 1, 0: all)
    const long d = std::atol(t[1].c_str());
    auto arg = [&](size_t i) { return std::atol(t[i].c_str()); };
    vf::Ev e(t[0].c_str());
    if (t[0] == "SetTropo") { if (arg(2) == 0 && arg(3) % 2) f.set_tropo_apriori(arg(3)); else f.set_tropo_apriori(arg(3), arg(2) - 1); e.i("b", arg(2)).i("v", arg(3)); }
    else if (t[0] == "TropoRef") { f.tropo_estimate(arg(2) - 1) = arg(3); e = vf::Ev("SetTropo"); e.i("b", arg(2)).i("v", arg(3)); }
    else if (t[0] == "SetTropoSigma") { if (arg(2) == 0 && arg(3) % 2) f.set_tropo_apriori_sigma(arg(3)); else f.set_tropo_apriori_sigma(arg(3), arg(2) - 1); e.i("b", arg(2)).i("v", arg(3)); }
    else if (t[0] == "SetRf") { const bool all = arg(2) == 0 && arg(3) % 2; if constexpr (lin) { if (all) f.set_rfoff_apriori(arg(3), arg(4)); else f.set_rfoff_apriori(arg(3), arg(4), arg(2) - 1); } else { if (all) f.set_rfoff_apriori(arg(3)); else f.set_rfoff_apriori(arg(3), arg(2) - 1); } e.i("b", arg(2)).i("v", arg(3)).i("w", arg(4)); }
    else if (t[0] == "RfRef") { if constexpr (!lin) f.rfoff_estimate(arg(2) - 1) = arg(3); e = vf::Ev("SetRf"); e.i("b", arg(2)).i("v", arg(3)).i("w", 0); }
    else if (t[0] == "SetRfSigma") { const bool all = arg(2) == 0 && arg(3) % 2; if constexpr (lin) { if (all) f.set_rfoff_apriori_sigma(arg(3), arg(4)); else f.set_rfoff_apriori_sigma(arg(3), arg(4), arg(2) - 1); } else { if (all) f.set_rfoff_apriori_sigma(arg(3)); else f.set_rfoff_apriori_sigma(arg(3), arg(2) - 1); } e.i("b", arg(2)).i("v", arg(3)).i("w", arg(4)); }
    else if (t[0] == "SetDrag" || t[0] == "DragRef" || t[0] == "SetDragSigma") {
      if constexpr (Np >= 1) { if (t[0] == "SetDrag") f.set_drag_coef_apriori(arg(2)); else if (t[0] == "DragRef") f.drag_coef() = arg(2); else f.set_drag_coef_apriori_sigma(arg(2)); }
      if (t[0] == "DragRef") e = vf::Ev("SetDrag");
      e.i("v", arg(2));
    } else if (t[0] == "Start") { // Start d sec n x1..xn p1..pn: begin anew from an epoch, estimates and (diagonal) covariance
      const int n = arg(3);
      Eigen::VectorXd x0(n); Eigen::MatrixXd P0 = Eigen::MatrixXd::Zero(n, n); std::string xs = "[", ps = "[";
      for (int i = 0; i < n; i++) { x0(i) = arg(4 + i); P0(i, i) = arg(4 + n + i); xs += (i ? "," : "") + t[4 + i]; ps += (i ? "," : "") + t[4 + n + i]; }
      f._ekf._ekf = ExtendedKalmanFilter<nanoseconds>(at(arg(2)), x0, P0); timed = true;
      e.raw("xk", xs + "]").raw("p", ps + "]").i("t", arg(2));
    } else if (t[0] == "Time") { // Time d sec n x1..xn  (i j v)*
      const int n = arg(3);
      Eigen::VectorXd xk(n);
      Eigen::MatrixXd phi = Eigen::MatrixXd::Identity(n, n);
      std::string xs = "[", ps = "[";
      for (int i = 0; i < n; i++) { xk(i) = arg(4 + i); xs += (i ? "," : "") + t[4 + i]; }
      for (size_t k = 4 + n; k + 2 < t.size() && t[k] != "Q"; k += 3) { phi(arg(k) - 1, arg(k + 1) - 1) = arg(k + 2); ps += (ps.size() > 1 ? ",[" : "[") + t[k] + "," + t[k + 1] + "," + t[k + 2] + "]"; }
      // a tail "Q i q ..." adds process noise
      size_t qk = 4 + n;
      while (qk < t.size() && t[qk] != "Q") qk++;
      std::string qs = "[";
      if (qk < t.size()) {
        Eigen::MatrixXd Q = Eigen::MatrixXd::Zero(n, n);
        for (size_t k = qk + 1; k + 1 < t.size(); k += 2) { Q(arg(k) - 1, arg(k) - 1) = arg(k + 1); qs += (qs.size() > 1 ? ",[" : "[") + t[k] + "," + t[k + 1] + "]"; }
        f._ekf._ekf.time_update(at(arg(2)), xk, phi, Q);
      } else f.time_update(at(arg(2)), xk, phi);
      e.raw("xk", xs + "]").raw("phi", ps + "]").raw("q", qs + "]").i("t", arg(2));
      timed = true;
    } else if (t[0] == "Obs") { // Obs d z g sigma n (i v)*
      const int n = arg(5);
      Eigen::VectorXd H = Eigen::VectorXd::Zero(n);
      std::string hs = "[";
      for (size_t k = 6; k + 1 < t.size(); k += 2) { H(arg(k) - 1) = arg(k + 1); hs += (hs.size() > 1 ? ",[" : "[") + t[k] + "," + t[k + 1] + "]"; }
      f.observation_update(arg(2), arg(3), arg(4), H);
      e.i("z", arg(2)).i("g", arg(3)).i("s", arg(4)).raw("H", hs + "]");
    } else { // Get d b dt
      const int b = arg(2) - 1;
      double rf, drag = 0;
      const auto &cf = f;
      if constexpr (lin) rf = cf.rfoff_estimate(b, at(arg(3))); else rf = cf.rfoff_estimate(b);
      if constexpr (Np >= 1) drag = cf.drag_coef();
      auto num = [&](double v) { return vf::toi_scaled(v, (double)d, 1e-8); };
      e.i("b", arg(2)).i("dt", arg(3)).i("d", d).i("tropo", num(cf.tropo_estimate(b))).i("rf", num(rf)).i("drag", num(drag)).out();
      return;
    }
    show(e, d);
  }
};
int main() {
  vf::Driver d;
  std::unique_ptr<Base> p;
  d.begin = [&] { p.reset(); };
  d.end = d.begin;
  d.cmd = [&](vf::Driver::Toks &t) {
    if (t[0] == "New") { // New np lin ns
      const int np = std::atoi(t[1].c_str()), lin = std::atoi(t[2].c_str()), ns = std::atoi(t[3].c_str());
      constexpr auto L = BeaconClockModel::Linear, N = BeaconClockModel::None;
      switch (np * 2 + lin) {
        case 0: p.reset(new Impl<0, N>(ns)); break;
        case 1: p.reset(new Impl<0, L>(ns)); break;
        case 2: p.reset(new Impl<1, N>(ns)); break;
        case 3: p.reset(new Impl<1, L>(ns)); break;
        case 4: p.reset(new Impl<2, N>(ns)); break;
        default: p.reset(new Impl<2, L>(ns));
      }
    } else if (p) p->op(t);
  };
  return d.run();
}
