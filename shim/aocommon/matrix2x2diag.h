// Stand-in for aocommon/matrix2x2diag.h (the library is not installed here).
#ifndef AOCOMMON_MATRIX_2X2_DIAG_H_
#define AOCOMMON_MATRIX_2X2_DIAG_H_
#include "aocommon/matrix2x2.h"
namespace aocommon {
template <class T> class MC2x2DiagBase {
 public:
  using C = std::complex<T>;
  using value_type = C;
  MC2x2DiagBase() : v_{} {}
  MC2x2DiagBase(C a, C b) : v_{a, b} {}
  MC2x2DiagBase(T a, T b) : v_{C(a), C(b)} {}
  template <class O> explicit MC2x2DiagBase(const std::complex<O>* p) : v_{C(p[0]), C(p[1])} {}
  template <class O> MC2x2DiagBase(const MC2x2DiagBase<O>& o) : v_{C(o.Get(0)), C(o.Get(1))} {}
  static MC2x2DiagBase Zero() { return MC2x2DiagBase(C(0), C(0)); }
  static MC2x2DiagBase Unity() { return MC2x2DiagBase(C(1), C(1)); }
  static MC2x2DiagBase NaN() { const T n = std::numeric_limits<T>::quiet_NaN(); return MC2x2DiagBase(C(n, n), C(n, n)); }
  C& operator[](size_t i) { return v_[i]; }
  const C& operator[](size_t i) const { return v_[i]; }
  C Get(size_t i) const { return v_[i]; }
  void Set(size_t i, C x) { v_[i] = x; }
  template <class O> void AssignTo(std::complex<O>* p) const { p[0] = std::complex<O>(v_[0]); p[1] = std::complex<O>(v_[1]); }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { v_[0] += o.v_[0]; v_[1] += o.v_[1]; return *this; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { v_[0] -= o.v_[0]; v_[1] -= o.v_[1]; return *this; }
  MC2x2DiagBase& operator*=(C x) { v_[0] *= x; v_[1] *= x; return *this; }
  MC2x2DiagBase& operator*=(T x) { v_[0] *= x; v_[1] *= x; return *this; }
  MC2x2DiagBase operator+(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r += o; }
  MC2x2DiagBase operator-(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r -= o; }
  MC2x2DiagBase operator*(const MC2x2DiagBase& o) const { return MC2x2DiagBase(v_[0] * o.v_[0], v_[1] * o.v_[1]); }
  MC2x2DiagBase operator*(C x) const { return MC2x2DiagBase(v_[0] * x, v_[1] * x); }
  MC2x2DiagBase operator*(T x) const { return MC2x2DiagBase(v_[0] * x, v_[1] * x); }
  MC2x2Base<T> operator*(const MC2x2Base<T>& m) const { return MC2x2Base<T>(v_[0] * m[0], v_[0] * m[1], v_[1] * m[2], v_[1] * m[3]); }
  MC2x2Base<T> MultiplyHerm(const MC2x2Base<T>& m) const { return *this * m.HermTranspose(); }
  MC2x2DiagBase MultiplyHerm(const MC2x2DiagBase& m) const { return *this * m.HermTranspose(); }
  MC2x2DiagBase HermTranspose() const { return MC2x2DiagBase(std::conj(v_[0]), std::conj(v_[1])); }
  MC2x2DiagBase Conjugate() const { return HermTranspose(); }
  bool IsFinite() const { for (const C& e : v_) if (!std::isfinite(e.real()) || !std::isfinite(e.imag())) return false; return true; }
 private:
  std::array<C, 2> v_;
};
using MC2x2Diag = MC2x2DiagBase<double>;
using MC2x2FDiag = MC2x2DiagBase<float>;
template <class T> MC2x2Base<T>::MC2x2Base(const MC2x2DiagBase<T>& d) : v_{d.Get(0), C(0), C(0), d.Get(1)} {}
template <class T> MC2x2Base<T> operator*(const MC2x2Base<T>& m, const MC2x2DiagBase<T>& d) { return MC2x2Base<T>(m[0] * d[0], m[1] * d[1], m[2] * d[0], m[3] * d[1]); }
template <class T> MC2x2DiagBase<T> Diagonal(const MC2x2Base<T>& m) { return MC2x2DiagBase<T>(m.Get(0), m.Get(3)); }
template <class T> MC2x2DiagBase<T> Diagonal(const MC2x2DiagBase<T>& m) { return m; }
template <class T> MC2x2DiagBase<T> HermTranspose(const MC2x2DiagBase<T>& m) { return m.HermTranspose(); }
template <class T> T Norm(const MC2x2DiagBase<T>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <class T> std::complex<T> Trace(const MC2x2DiagBase<T>& m) { return m.Get(0) + m.Get(1); }
}  // namespace aocommon
#endif
