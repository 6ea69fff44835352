// Stand-in for xsimd (the library is not installed here): batches of a fixed
// size, computed element by element.
#ifndef VERIF_XSIMD_HPP
#define VERIF_XSIMD_HPP
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <stdexcept>
namespace xsimd {
template <class T> struct batch_size { static constexpr size_t value = 16 / sizeof(T); };
template <class T> struct batch_size<std::complex<T>> { static constexpr size_t value = 16 / sizeof(T); };
template <class T> class batch {
 public:
  static constexpr size_t size = batch_size<T>::value;
  using value_type = T;
  std::array<T, size> v;
  batch() = default;
  batch(T x) { v.fill(x); }
  static batch load_unaligned(const T* p) { batch b; for (size_t i = 0; i < size; ++i) b.v[i] = p[i]; return b; }
  static batch load_aligned(const T* p) { return load_unaligned(p); }
  void store_unaligned(T* p) const { for (size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_aligned(T* p) const { store_unaligned(p); }
  batch& operator*=(const batch& o) { for (size_t i = 0; i < size; ++i) v[i] *= o.v[i]; return *this; }
  batch& operator+=(const batch& o) { for (size_t i = 0; i < size; ++i) v[i] += o.v[i]; return *this; }
  batch& operator-=(const batch& o) { for (size_t i = 0; i < size; ++i) v[i] -= o.v[i]; return *this; }
  batch operator-() const { batch b; for (size_t i = 0; i < size; ++i) b.v[i] = -v[i]; return b; }
  friend batch operator+(batch a, const batch& b) { return a += b; }
  friend batch operator-(batch a, const batch& b) { return a -= b; }
  friend batch operator*(batch a, const batch& b) { return a *= b; }
};
template <class T> struct batch_bool { std::array<bool, batch_size<T>::value> v; };
template <class T> batch<T> broadcast(T x) { return batch<T>(x); }
template <class T> batch_bool<T> gt(const batch<T>& a, const batch<T>& b) { batch_bool<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[i] > b.v[i]; return r; }
template <class T> batch_bool<T> lt(const batch<T>& a, const batch<T>& b) { batch_bool<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[i] < b.v[i]; return r; }
template <class T> batch<T> select(const batch_bool<T>& m, const batch<T>& a, const batch<T>& b) { batch<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = m.v[i] ? a.v[i] : b.v[i]; return r; }
template <class T> batch<T> arg(const batch<std::complex<T>>& a) { batch<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::arg(a.v[i]); return r; }
template <class T> batch<T> abs(const batch<std::complex<T>>& a) { batch<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::abs(a.v[i]); return r; }
template <class T> batch<std::complex<T>> polar(const batch<T>& m, const batch<T>& p) { batch<std::complex<T>> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::polar(m.v[i], p.v[i]); return r; }
template <class U, class G> struct generated_constant {
  static constexpr U get(size_t i, size_t n) { return G::get(U(i), U(n)); }
};
template <class U, class G> constexpr generated_constant<U, G> make_batch_constant() { return {}; }
template <class T, class U, class G> batch<T> swizzle(const batch<T>& a, generated_constant<U, G>) { batch<T> r; for (size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[G::get(U(i), U(batch<T>::size))]; return r; }
}  // namespace xsimd
#endif
