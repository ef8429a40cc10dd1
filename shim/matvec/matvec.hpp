// Minimal stand-in for the matvec library (see ../README.md).
#ifndef VF_SHIM_MATVEC_HPP
#define VF_SHIM_MATVEC_HPP
#include <cmath>
#include <initializer_list>
namespace dso {
struct Vector3 {
  double data[3] = {0, 0, 0};
  Vector3() = default;
  Vector3(std::initializer_list<double> l) { int i = 0; for (double d : l) if (i < 3) data[i++] = d; }
  static Vector3 to_vec3(const double *p) { return Vector3{p[0], p[1], p[2]}; }
  double &x() { return data[0]; } double &y() { return data[1]; } double &z() { return data[2]; }
  double x() const { return data[0]; } double y() const { return data[1]; } double z() const { return data[2]; }
  double &operator()(int i) { return data[i]; } double operator()(int i) const { return data[i]; }
  double &operator[](int i) { return data[i]; } double operator[](int i) const { return data[i]; }
  double dot_product(const Vector3 &b) const { return data[0] * b.data[0] + data[1] * b.data[1] + data[2] * b.data[2]; }
  double norm_squared() const { return dot_product(*this); }
  double norm() const { return std::sqrt(norm_squared()); }
  Vector3 cross_product(const Vector3 &b) const { return Vector3{data[1] * b.data[2] - data[2] * b.data[1], data[2] * b.data[0] - data[0] * b.data[2], data[0] * b.data[1] - data[1] * b.data[0]}; }
  Vector3 normalize() const { double n = norm(); return Vector3{data[0] / n, data[1] / n, data[2] / n}; }
  Vector3 &operator+=(const Vector3 &b) { for (int i = 0; i < 3; i++) data[i] += b.data[i]; return *this; }
  Vector3 &operator-=(const Vector3 &b) { for (int i = 0; i < 3; i++) data[i] -= b.data[i]; return *this; }
  Vector3 &operator/=(double s) { for (int i = 0; i < 3; i++) data[i] /= s; return *this; }
  Vector3 &operator*=(double s) { for (int i = 0; i < 3; i++) data[i] *= s; return *this; }
};
inline Vector3 operator+(Vector3 a, const Vector3 &b) { return a += b; }
inline Vector3 operator-(Vector3 a, const Vector3 &b) { return a -= b; }
inline Vector3 operator*(Vector3 a, double s) { return a *= s; }
inline Vector3 operator*(double s, Vector3 a) { return a *= s; }
inline Vector3 operator/(Vector3 a, double s) { return a *= (1e0 / s); }
struct Mat3x3 {
  double data[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  Mat3x3() = default;
  Mat3x3(std::initializer_list<double> l) { int i = 0; for (double d : l) if (i < 9) data[i++] = d; }
  double &operator()(int r, int c) { return data[3 * r + c]; } double operator()(int r, int c) const { return data[3 * r + c]; }
  Mat3x3 &transpose_inplace() { for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { double t = data[3 * i + j]; data[3 * i + j] = data[3 * j + i]; data[3 * j + i] = t; } return *this; }
};
inline Vector3 operator*(const Mat3x3 &m, const Vector3 &v) { Vector3 r; for (int i = 0; i < 3; i++) r.data[i] = m(i, 0) * v.data[0] + m(i, 1) * v.data[1] + m(i, 2) * v.data[2]; return r; }
} // namespace dso
#endif
