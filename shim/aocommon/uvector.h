// Stand-in for aocommon/uvector.h: a vector that (unlike std::vector<bool>)
// keeps real elements, with uninitialised growth replaced by value growth.
#ifndef AOCOMMON_UVECTOR_H_
#define AOCOMMON_UVECTOR_H_
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <stdexcept>
namespace aocommon {
template <typename T, typename A = std::allocator<T>>
class UVector {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using size_type = size_t;
  using reference = T&;
  using const_reference = const T&;
  UVector() = default;
  explicit UVector(size_t n) : p_(n ? new T[n]() : nullptr), n_(n), c_(n) {}
  UVector(size_t n, const T& v) : UVector(n) { std::fill(begin(), end(), v); }
  UVector(std::initializer_list<T> l) : UVector(l.size()) { std::copy(l.begin(), l.end(), begin()); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  UVector(It b, It e) : UVector(size_t(std::distance(b, e))) { std::copy(b, e, begin()); }
  UVector(const UVector& o) : UVector(o.n_) { std::copy(o.begin(), o.end(), begin()); }
  UVector(UVector&& o) noexcept { swap(o); }
  UVector& operator=(const UVector& o) { UVector t(o); swap(t); return *this; }
  UVector& operator=(UVector&& o) noexcept { UVector t(std::move(o)); swap(t); return *this; }
  void swap(UVector& o) noexcept { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(c_, o.c_); }
  T* begin() { return p_.get(); }
  T* end() { return p_.get() + n_; }
  const T* begin() const { return p_.get(); }
  const T* end() const { return p_.get() + n_; }
  const T* cbegin() const { return p_.get(); }
  const T* cend() const { return p_.get() + n_; }
  T* data() { return p_.get(); }
  const T* data() const { return p_.get(); }
  size_t size() const { return n_; }
  size_t capacity() const { return c_; }
  bool empty() const { return n_ == 0; }
  T& operator[](size_t i) { return p_[i]; }
  const T& operator[](size_t i) const { return p_[i]; }
  T& at(size_t i) { if (i >= n_) throw std::out_of_range("UVector"); return p_[i]; }
  const T& at(size_t i) const { if (i >= n_) throw std::out_of_range("UVector"); return p_[i]; }
  T& front() { return p_[0]; }
  T& back() { return p_[n_ - 1]; }
  const T& front() const { return p_[0]; }
  const T& back() const { return p_[n_ - 1]; }
  void reserve(size_t c) {
    if (c > c_) { std::unique_ptr<T[]> q(new T[c]()); std::move(begin(), end(), q.get()); p_ = std::move(q); c_ = c; }
  }
  void resize(size_t n) { if (n > c_) reserve(n); n_ = n; }
  void resize(size_t n, const T& v) { size_t o = n_; resize(n); for (size_t i = o; i < n; ++i) p_[i] = v; }
  void assign(size_t n, const T& v) { T c(v); n_ = 0; resize(n); std::fill(begin(), end(), c); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void assign(It b, It e) { UVector t(b, e); swap(t); }
  void clear() { n_ = 0; }
  void push_back(const T& v) { T c(v); if (n_ == c_) reserve(c_ ? 2 * c_ : 4); p_[n_++] = c; }
  void push_back(T&& v) { T c(std::move(v)); if (n_ == c_) reserve(c_ ? 2 * c_ : 4); p_[n_++] = std::move(c); }
  template <class... Args> void emplace_back(Args&&... a) { push_back(T(std::forward<Args>(a)...)); }
  void pop_back() { --n_; }
  void insert(iterator pos, size_t n, const T& v) { UVector t(n, v); const size_t at = size_t(pos - begin()); insert(begin() + at, t.begin(), t.end()); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void insert(iterator pos, It b, It e) {
    size_t off = pos - begin(); UVector t(b, e); size_t old = n_; resize(n_ + t.size());
    std::move_backward(begin() + off, begin() + old, end()); std::copy(t.begin(), t.end(), begin() + off);
  }
  bool operator==(const UVector& o) const { return n_ == o.n_ && std::equal(begin(), end(), o.begin()); }
  bool operator!=(const UVector& o) const { return !(*this == o); }
 private:
  std::unique_ptr<T[]> p_;
  size_t n_ = 0, c_ = 0;
};
}  // namespace aocommon
#endif
