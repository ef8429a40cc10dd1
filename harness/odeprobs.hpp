// right-hand sides with (mostly) known solutions, shared by the integrator harnesses
#ifndef VF_ODEPROBS_HPP
#define VF_ODEPROBS_HPP
static int prob = 0, nq = 1;
static void rhs(double x, const V &y, double *d) {
  switch (prob) {
  case 0: d[0] = std::cos(x); break;
  case 1: d[0] = -y(0); break;
  case 2: d[0] = y(1); d[1] = -y(0); break;
  case 3: d[0] = y(0) * (1 - y(0)); break;
  case 4: d[0] = 3 * x * x - 2 * x; break;
  case 5: d[0] = -500 * (y(0) - std::cos(x)); break;                       // stiff
  case 6: d[0] = (((long)std::floor(x * 2.3 + 1000)) & 1) ? 5 : -3; break; // jumps
  case 7: d[0] = y(0) * y(0); break;                                       // pole at 1 from y(0) = 1
  case 8: d[0] = y(1) * y(2); d[1] = -y(0) * y(2); d[2] = -0.51 * y(0) * y(1); break;
  case 9: d[0] = 1 / (1e-4 + (x - 0.3) * (x - 0.3)); break;                // spike
  case 10: d[0] = 0; break;
  case 11: d[0] = 50 * std::cos(50 * x); break;                            // fast but not stiff
  case 12: d[0] = x > 0.5 ? 1e6 : 1; break;                                // one big jump
  case 13: d[0] = y(1); d[1] = -y(0) / std::pow(y(0) * y(0) + y(2) * y(2), 1.5); d[2] = y(3); d[3] = -y(2) / std::pow(y(0) * y(0) + y(2) * y(2), 1.5); break; // circular orbit
  case 14: for (int i = 0; i < 7; i++) d[i] = -0.3 * (i + 1) * y(i); break; // seven decaying components of very different size
  default: d[0] = 1;
  }
}
static int dims(int p) { return p == 2 ? 2 : p == 8 ? 3 : p == 13 ? 4 : p == 14 ? 7 : 1; }
static bool exact(double x, V &y) {
  switch (prob) {
  case 0: y(0) = std::sin(x); return true;
  case 1: y(0) = std::exp(-x); return true;
  case 2: y(0) = std::sin(x); y(1) = std::cos(x); return true;
  case 3: y(0) = 1 / (1 + 3 * std::exp(-x)); return true;
  case 4: y(0) = x * x * x - x * x + 1; return true;
  case 5: y(0) = (250000 * std::cos(x) + 500 * std::sin(x)) / 250001; return true;
  case 6: y(0) = 1; return false;
  case 7: y(0) = x < 0.9 ? 1 / (1 - x) : 1; return x < 0.9;
  case 8: y(0) = 0; y(1) = 1; y(2) = 1; return x == 0;
  case 9: y(0) = 100 * std::atan(100 * (x - 0.3)); return true;
  case 10: y(0) = 7; return true;
  case 11: y(0) = std::sin(50 * x); return true;
  case 12: y(0) = x > 0.5 ? 0.5 + 1e6 * (x - 0.5) : x; return true;
  case 13: y(0) = std::cos(x); y(1) = -std::sin(x); y(2) = std::sin(x); y(3) = std::cos(x); return true;
  case 14: for (int i = 0; i < 7; i++) y(i) = std::pow(10., 3 - i) * std::exp(-0.3 * (i + 1) * x); return true;
  default: y(0) = 1 + x; return true;
  }
}
// the size a component has over a whole period: errors of oscillating components are measured against it, not against a zero crossing
static double size_of(double ye) { double a = std::abs(ye); return prob == 0 || prob == 2 || prob == 4 || prob == 13 ? std::max(a, 1.) : a; }
#endif
