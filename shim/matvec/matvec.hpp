// Stand-in for the external (ggeodesy) matvec library: plain 3-vectors and 3x3 matrices.
#ifndef VF_SHIM_MATVEC_HPP
#define VF_SHIM_MATVEC_HPP
#include <cmath>
namespace dso {
struct Vector3 {
  double data[3];
  static Vector3 to_vec3(const double *p) noexcept { return Vector3{{p[0], p[1], p[2]}}; }
  static Vector3 ptr2vec(const double *p) noexcept { return Vector3{{p[0], p[1], p[2]}}; }
  double &x() noexcept { return data[0]; }
  double &y() noexcept { return data[1]; }
  double &z() noexcept { return data[2]; }
  double x() const noexcept { return data[0]; }
  double y() const noexcept { return data[1]; }
  double z() const noexcept { return data[2]; }
  double &operator()(int i) noexcept { return data[i]; }
  double operator()(int i) const noexcept { return data[i]; }
  double &operator[](int i) noexcept { return data[i]; }
  double operator[](int i) const noexcept { return data[i]; }
  double dot_product(const Vector3 &v) const noexcept { return data[0] * v.data[0] + data[1] * v.data[1] + data[2] * v.data[2]; }
  double norm_squared() const noexcept { return dot_product(*this); }
  double norm() const noexcept { return std::sqrt(norm_squared()); }
  Vector3 normalize() const noexcept { double n = norm(); return Vector3{{data[0] / n, data[1] / n, data[2] / n}}; }
  Vector3 cross_product(const Vector3 &v) const noexcept {
    return Vector3{{data[1] * v.data[2] - data[2] * v.data[1], data[2] * v.data[0] - data[0] * v.data[2],
                    data[0] * v.data[1] - data[1] * v.data[0]}};
  }
  Vector3 operator+(const Vector3 &v) const noexcept { return Vector3{{data[0] + v.data[0], data[1] + v.data[1], data[2] + v.data[2]}}; }
  Vector3 operator-(const Vector3 &v) const noexcept { return Vector3{{data[0] - v.data[0], data[1] - v.data[1], data[2] - v.data[2]}}; }
  Vector3 operator-() const noexcept { return Vector3{{-data[0], -data[1], -data[2]}}; }
  Vector3 operator*(double s) const noexcept { return Vector3{{data[0] * s, data[1] * s, data[2] * s}}; }
  Vector3 operator/(double s) const noexcept { return Vector3{{data[0] / s, data[1] / s, data[2] / s}}; }
  double operator*(const Vector3 &v) const noexcept { return dot_product(v); }
  Vector3 &operator+=(const Vector3 &v) noexcept { for (int i = 0; i < 3; i++) data[i] += v.data[i]; return *this; }
  Vector3 &operator-=(const Vector3 &v) noexcept { for (int i = 0; i < 3; i++) data[i] -= v.data[i]; return *this; }
  Vector3 &operator*=(double s) noexcept { for (int i = 0; i < 3; i++) data[i] *= s; return *this; }
  Vector3 &operator/=(double s) noexcept { for (int i = 0; i < 3; i++) data[i] /= s; return *this; }
};
inline Vector3 operator*(double s, const Vector3 &v) noexcept { return v * s; }

// row-major 3x3
struct Mat3x3 {
  double data[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  Mat3x3() noexcept {}
  Mat3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i) noexcept
      : data{a, b, c, d, e, f, g, h, i} {}
  double &operator()(int i, int j) noexcept { return data[i * 3 + j]; }
  double operator()(int i, int j) const noexcept { return data[i * 3 + j]; }
  static Mat3x3 RotZ(double a) noexcept { double s = std::sin(a), c = std::cos(a); return Mat3x3(c, s, 0, -s, c, 0, 0, 0, 1); }
  void set_identity() noexcept { *this = Mat3x3(); }
  Mat3x3 transpose() const noexcept { return Mat3x3(data[0], data[3], data[6], data[1], data[4], data[7], data[2], data[5], data[8]); }
  Mat3x3 &transpose_inplace() noexcept { *this = transpose(); return *this; }
  Mat3x3 operator*(const Mat3x3 &b) const noexcept {
    Mat3x3 r(0, 0, 0, 0, 0, 0, 0, 0, 0);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r(i, j) += (*this)(i, k) * b(k, j);
    return r;
  }
  Mat3x3 operator*(double s) const noexcept { Mat3x3 r(*this); for (double &v : r.data) v *= s; return r; }
  Vector3 operator*(const Vector3 &v) const noexcept {
    Vector3 r{{0, 0, 0}};
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) r.data[i] += (*this)(i, k) * v.data[k];
    return r;
  }
  // post-composition with axis rotations
  void rotz(double a) noexcept { *this = RotZ(a) * *this; }
  void rotx(double a) noexcept { double s = std::sin(a), c = std::cos(a); *this = Mat3x3(1, 0, 0, 0, c, s, 0, -s, c) * *this; }
  void roty(double a) noexcept { double s = std::sin(a), c = std::cos(a); *this = Mat3x3(c, 0, -s, 0, 1, 0, s, 0, c) * *this; }
};
} // namespace dso
#endif
