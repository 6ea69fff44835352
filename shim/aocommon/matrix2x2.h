// Stand-in for aocommon/matrix2x2.h (the library is not installed here).
#ifndef AOCOMMON_MATRIX_2X2_H_
#define AOCOMMON_MATRIX_2X2_H_
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <limits>
#include <ostream>
namespace aocommon {
template <class T> class MC2x2DiagBase;
template <class T> class MC2x2Base {
 public:
  using C = std::complex<T>;
  using value_type = C;
  MC2x2Base() : v_{} {}
  template <class O> MC2x2Base(const MC2x2Base<O>& o) { for (size_t i = 0; i < 4; ++i) v_[i] = C(o.Get(i)); }
  template <class O> explicit MC2x2Base(const std::complex<O>* p) { for (size_t i = 0; i < 4; ++i) v_[i] = C(p[i]); }
  MC2x2Base(C a, C b, C c, C d) : v_{a, b, c, d} {}
  MC2x2Base(T a, T b, T c, T d) : v_{C(a), C(b), C(c), C(d)} {}
  explicit inline MC2x2Base(const MC2x2DiagBase<T>& d);
  static MC2x2Base Zero() { return MC2x2Base(C(0), C(0), C(0), C(0)); }
  static MC2x2Base Unity() { return MC2x2Base(C(1), C(0), C(0), C(1)); }
  static MC2x2Base NaN() { const T n = std::numeric_limits<T>::quiet_NaN(); return MC2x2Base(C(n, n), C(n, n), C(n, n), C(n, n)); }
  C& operator[](size_t i) { return v_[i]; }
  const C& operator[](size_t i) const { return v_[i]; }
  C Get(size_t i) const { return v_[i]; }
  void Set(size_t i, C x) { v_[i] = x; }
  template <class O> void AssignTo(std::complex<O>* p) const { for (size_t i = 0; i < 4; ++i) p[i] = std::complex<O>(v_[i]); }
  MC2x2Base& operator+=(const MC2x2Base& o) { for (size_t i = 0; i < 4; ++i) v_[i] += o.v_[i]; return *this; }
  MC2x2Base& operator-=(const MC2x2Base& o) { for (size_t i = 0; i < 4; ++i) v_[i] -= o.v_[i]; return *this; }
  MC2x2Base& operator*=(const MC2x2Base& o) { return *this = *this * o; }
  MC2x2Base& operator*=(C x) { for (C& e : v_) e *= x; return *this; }
  MC2x2Base& operator*=(T x) { for (C& e : v_) e *= x; return *this; }
  MC2x2Base& operator/=(C x) { for (C& e : v_) e /= x; return *this; }
  MC2x2Base operator+(const MC2x2Base& o) const { MC2x2Base r(*this); return r += o; }
  MC2x2Base operator-(const MC2x2Base& o) const { MC2x2Base r(*this); return r -= o; }
  MC2x2Base operator*(const MC2x2Base& o) const {
    return MC2x2Base(v_[0] * o.v_[0] + v_[1] * o.v_[2], v_[0] * o.v_[1] + v_[1] * o.v_[3], v_[2] * o.v_[0] + v_[3] * o.v_[2], v_[2] * o.v_[1] + v_[3] * o.v_[3]);
  }
  MC2x2Base operator*(T x) const { MC2x2Base r(*this); return r *= x; }
  MC2x2Base operator*(C x) const { MC2x2Base r(*this); return r *= x; }
  MC2x2Base operator/(C x) const { MC2x2Base r(*this); return r /= x; }
  MC2x2Base HermTranspose() const { return MC2x2Base(std::conj(v_[0]), std::conj(v_[2]), std::conj(v_[1]), std::conj(v_[3])); }
  MC2x2Base Transpose() const { return MC2x2Base(v_[0], v_[2], v_[1], v_[3]); }
  MC2x2Base Conjugate() const { return MC2x2Base(std::conj(v_[0]), std::conj(v_[1]), std::conj(v_[2]), std::conj(v_[3])); }
  MC2x2Base Multiply(const MC2x2Base& o) const { return *this * o; }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return *this * o.HermTranspose(); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose() * o; }
  MC2x2Base HermThenMultiplyHerm(const MC2x2Base& o) const { return HermTranspose() * o.HermTranspose(); }
  C Determinant() const { return v_[0] * v_[3] - v_[1] * v_[2]; }
  C Trace() const { return v_[0] + v_[3]; }
  bool Invert() {
    const C d = Determinant();
    if (d == C(0)) return false;
    *this = MC2x2Base(v_[3] / d, -v_[1] / d, -v_[2] / d, v_[0] / d);
    return true;
  }
  MC2x2Base Inverse() const { MC2x2Base r(*this); if (!r.Invert()) return NaN(); return r; }
  bool IsFinite() const { for (const C& e : v_) if (!std::isfinite(e.real()) || !std::isfinite(e.imag())) return false; return true; }
  friend MC2x2Base operator*(C x, const MC2x2Base& m) { return m * x; }
  friend MC2x2Base operator*(T x, const MC2x2Base& m) { return m * x; }
  friend bool operator==(const MC2x2Base& a, const MC2x2Base& b) { return a.v_ == b.v_; }
 private:
  std::array<C, 4> v_;
};
struct Matrix2x2 {
  template <class T> static bool IsFinite(const std::complex<T>* p) { return MC2x2Base<T>(p).IsFinite(); }
};
using MC2x2 = MC2x2Base<double>;
using MC2x2F = MC2x2Base<float>;
template <class T> MC2x2Base<T> HermTranspose(const MC2x2Base<T>& m) { return m.HermTranspose(); }
template <class T> T Norm(const MC2x2Base<T>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)) + std::norm(m.Get(2)) + std::norm(m.Get(3)); }
template <class T> T RootMeanSquare(const MC2x2Base<T>& m) { return std::sqrt(Norm(m) / 4); }
template <class T> std::complex<T> Trace(const MC2x2Base<T>& m) { return m.Trace(); }
template <class T> MC2x2Base<T> ElementProduct(const MC2x2Base<T>& a, const MC2x2Base<T>& b) { return MC2x2Base<T>(a.Get(0) * b.Get(0), a.Get(1) * b.Get(1), a.Get(2) * b.Get(2), a.Get(3) * b.Get(3)); }
template <class T> MC2x2Base<T> HermitianSquare(const MC2x2Base<T>& m) { return m.HermThenMultiply(m); }
template <class T> std::ostream& operator<<(std::ostream& o, const MC2x2Base<T>& m) { return o << m.Get(0) << m.Get(1) << m.Get(2) << m.Get(3); }
}  // namespace aocommon
#include "aocommon/matrix2x2diag.h"
#endif
