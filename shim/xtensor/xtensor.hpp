// A small stand-in for the part of xtensor that DP3 uses: dense row-major
// tensors, views, element-wise expressions and a few reductions. Elements of
// a tensor made without a value are filled with a recognisable pattern, and
// every index is checked.
#ifndef VERIF_XTENSOR
#define VERIF_XTENSOR
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace xt {
enum class layout_type { dynamic = 0, any = 0xff, row_major = 1, column_major = 2 };
inline constexpr size_t kMaxDim = 8;
using Index = std::array<size_t, kMaxDim>;

[[noreturn]] inline void Fail(const char* what) {
  std::fprintf(stderr, "xtensor stand-in: %s\n", what);
  std::abort();
}

struct xbase {};
template <class T>
inline constexpr bool is_expr = std::is_base_of_v<xbase, std::decay_t<T>>;

template <class T> struct is_complex : std::false_type {};
template <class T> struct is_complex<std::complex<T>> : std::true_type {};

template <class T>
struct Garbage { static T Value(size_t) { T t; std::memset(static_cast<void*>(&t), 0xA5, sizeof(T)); return t; } };
template <> struct Garbage<bool> { static bool Value(size_t i) { return i % 3 == 1; } };
template <> struct Garbage<float> { static float Value(size_t i) { return i % 2 ? std::numeric_limits<float>::quiet_NaN() : -7.7e33f; } };
template <> struct Garbage<double> { static double Value(size_t i) { return i % 2 ? std::numeric_limits<double>::quiet_NaN() : -7.7e233; } };
template <class T> struct Garbage<std::complex<T>> { static std::complex<T> Value(size_t i) { return {Garbage<T>::Value(i), Garbage<T>::Value(i + 1)}; } };
template <> struct Garbage<std::string> { static std::string Value(size_t) { return {}; } };

// Iterates over any expression in row-major order.
template <class E>
class ExprIterator {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = typename E::value_type;
  using difference_type = std::ptrdiff_t;
  using reference = decltype(std::declval<E&>().element(std::declval<const size_t*>()));
  using pointer = std::remove_reference_t<reference>*;
  ExprIterator() = default;
  ExprIterator(E* e, size_t pos) : e_(e), pos_(pos) {}
  reference operator*() const { Index i{}; Unravel(i); return e_->element(i.data()); }
  reference operator[](difference_type n) const { return *(*this + n); }
  pointer operator->() const { return &**this; }
  ExprIterator& operator++() { ++pos_; return *this; }
  ExprIterator operator++(int) { auto c = *this; ++pos_; return c; }
  ExprIterator& operator--() { --pos_; return *this; }
  ExprIterator operator--(int) { auto c = *this; --pos_; return c; }
  ExprIterator& operator+=(difference_type n) { pos_ += n; return *this; }
  ExprIterator& operator-=(difference_type n) { pos_ -= n; return *this; }
  ExprIterator operator+(difference_type n) const { auto c = *this; c.pos_ += n; return c; }
  ExprIterator operator-(difference_type n) const { auto c = *this; c.pos_ -= n; return c; }
  friend ExprIterator operator+(difference_type n, const ExprIterator& i) { return i + n; }
  difference_type operator-(const ExprIterator& o) const { return difference_type(pos_) - difference_type(o.pos_); }
  bool operator==(const ExprIterator& o) const { return pos_ == o.pos_; }
  bool operator!=(const ExprIterator& o) const { return pos_ != o.pos_; }
  bool operator<(const ExprIterator& o) const { return pos_ < o.pos_; }
  bool operator>(const ExprIterator& o) const { return pos_ > o.pos_; }
  bool operator<=(const ExprIterator& o) const { return pos_ <= o.pos_; }
  bool operator>=(const ExprIterator& o) const { return pos_ >= o.pos_; }

 private:
  void Unravel(Index& i) const {
    size_t r = pos_;
    for (size_t d = e_->dimension(); d-- > 0;) { i[d] = r % e_->extent(d); r /= e_->extent(d); }
    if (r) Fail("iterator out of range");
  }
  E* e_ = nullptr;
  size_t pos_ = 0;
};

// Common part of all expressions. D has value_type, dimension(), extent(d), element(const size_t*).
template <class D>
class xexpression : public xbase {
 public:
  const D& derived_cast() const { return static_cast<const D&>(*this); }
  D& derived_cast() { return static_cast<D&>(*this); }
  size_t Count() const {
    size_t n = 1;
    for (size_t d = 0; d < derived_cast().dimension(); ++d) n *= derived_cast().extent(d);
    return n;
  }
  size_t size() const { return Count(); }
  bool empty() const { return Count() == 0; }
  size_t shape(size_t d) const { return derived_cast().extent(d); }
  std::vector<size_t> shape() const {
    std::vector<size_t> s;
    for (size_t d = 0; d < derived_cast().dimension(); ++d) s.push_back(derived_cast().extent(d));
    return s;
  }
  auto begin() const { return ExprIterator<const D>(&derived_cast(), 0); }
  auto end() const { return ExprIterator<const D>(&derived_cast(), Count()); }
  auto cbegin() const { return begin(); }
  auto cend() const { return end(); }
  template <class... I>
  decltype(auto) operator()(I... i) const {
    const Index ix = MakeIndex(i...);
    return derived_cast().element(ix.data());
  }
  template <class... I> decltype(auto) at(I... i) const { return (*this)(i...); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  decltype(auto) operator[](I i) const { return (*this)(i); }

 protected:
  template <class... I>
  Index MakeIndex(I... i) const {
    Index ix{};
    const size_t dim = derived_cast().dimension();
    const std::array<size_t, sizeof...(I) + 1> in{size_t(i)..., 0};
    const size_t n = sizeof...(I);
    for (size_t k = 0; k < n; ++k) {
      const long d = long(dim) - long(n) + long(k);
      if (d < 0) { if (in[k]) Fail("too many indices"); continue; }
      ix[d] = in[k];
      const size_t extent = derived_cast().extent(d);
      if (extent == 1) ix[d] = 0;  // as in xtensor: the stride of such an axis is zero
      else if (ix[d] >= extent) Fail("index out of range");
    }
    return ix;
  }
};

// Copies an expression, broadcasting it to the shape of the target.
template <class Dst, class Src, class Op>
void Assign(Dst& dst, const Src& src, Op op) {
  const size_t nd = dst.dimension(), ns = src.dimension();
  if (ns > nd) Fail("cannot assign an expression with more dimensions");
  for (size_t d = 0; d < ns; ++d) {
    const size_t e = src.extent(d), t = dst.extent(nd - ns + d);
    if (e != t && e != 1) Fail("shapes do not match in an assignment");
  }
  size_t n = 1;
  for (size_t d = 0; d < nd; ++d) n *= dst.extent(d);
  Index i{}, s{};
  for (size_t k = 0; k < n; ++k) {
    for (size_t d = 0; d < ns; ++d) s[d] = src.extent(d) == 1 ? 0 : i[nd - ns + d];
    op(dst.element(i.data()), src.element(s.data()));
    for (size_t d = nd; d-- > 0;) {
      if (++i[d] < dst.extent(d)) break;
      i[d] = 0;
    }
  }
}

template <class T>
class xscalar : public xexpression<xscalar<T>> {
 public:
  using value_type = T;
  explicit xscalar(T v) : v_(v) {}
  size_t dimension() const { return 0; }
  size_t extent(size_t) const { return 1; }
  T element(const size_t*) const { return v_; }
 private:
  T v_;
};

struct AssignTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(b); } };
struct AddTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a + b); } };
struct SubTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a - b); } };
struct MulTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a * b); } };
struct DivTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a / b); } };
struct AndTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a & b); } };
struct OrTo { template <class A, class B> void operator()(A&& a, const B& b) const { a = static_cast<std::decay_t<A>>(a | b); } };

// Adds assignment operators to an expression with assignable elements.
template <class D>
class xassignable : public xexpression<D> {
 public:
  using xexpression<D>::begin;
  using xexpression<D>::end;
  using xexpression<D>::operator();
  using xexpression<D>::operator[];
  auto begin() { return ExprIterator<D>(&this->derived_cast(), 0); }
  auto end() { return ExprIterator<D>(&this->derived_cast(), this->Count()); }
  template <class... I>
  decltype(auto) operator()(I... i) {
    const Index ix = this->MakeIndex(i...);
    return this->derived_cast().element(ix.data());
  }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  decltype(auto) operator[](I i) { return (*this)(i); }
  template <class V> void fill(const V& v) { Apply(xscalar<V>(v), AssignTo()); }
#define VERIF_XT_OP(OP, F)                                         \
  template <class E> D& operator OP(const E& e) {                  \
    if constexpr (is_expr<E>) Apply(e, F()); else Apply(xscalar<E>(e), F()); \
    return this->derived_cast();                                   \
  }
  VERIF_XT_OP(+=, AddTo) VERIF_XT_OP(-=, SubTo) VERIF_XT_OP(*=, MulTo) VERIF_XT_OP(/=, DivTo)
  VERIF_XT_OP(&=, AndTo) VERIF_XT_OP(|=, OrTo)
#undef VERIF_XT_OP
 protected:
  template <class E, class F>
  void Apply(const E& e, F f) {
    // Evaluate first, so that overlapping views are safe.
    if constexpr (std::is_same_v<std::decay_t<E>, xscalar<typename E::value_type>>) {
      Assign(this->derived_cast(), e, f);
    } else {
      Assign(this->derived_cast(), Evaluated<typename E::value_type>(e), f);
    }
  }
  template <class V>
  struct Evaluated {
    template <class E> explicit Evaluated(const E& e) : dim(e.dimension()) {
      size_t n = 1;
      for (size_t d = 0; d < dim; ++d) { ext[d] = e.extent(d); n *= ext[d]; }
      values.reset(new V[n ? n : 1]);
      Index i{};
      for (size_t k = 0; k < n; ++k) {
        values[k] = e.element(i.data());
        for (size_t d = dim; d-- > 0;) { if (++i[d] < ext[d]) break; i[d] = 0; }
      }
    }
    size_t dimension() const { return dim; }
    size_t extent(size_t d) const { return ext[d]; }
    const V& element(const size_t* i) const { size_t o = 0; for (size_t d = 0; d < dim; ++d) o = o * ext[d] + i[d]; return values[o]; }
    size_t dim; Index ext{}; std::unique_ptr<V[]> values;
  };
};

// A dense row-major container. Shape is std::array (xtensor) or std::vector (xarray).
template <class T, class Shape>
class xcontainer : public xassignable<xcontainer<T, Shape>> {
  using Base = xassignable<xcontainer<T, Shape>>;
  static constexpr bool kFixed = !std::is_same_v<Shape, std::vector<size_t>>;
 public:
  using value_type = T;
  using shape_type = Shape;
  using size_type = size_t;
  using iterator = T*;
  using const_iterator = const T*;
  static constexpr layout_type static_layout = layout_type::row_major;

  xcontainer() { InitShape(); Allocate(); if (n_) Clear(); }
  explicit xcontainer(const Shape& s) : shape_(s) { Allocate(); }
  xcontainer(const Shape& s, const T& v) : shape_(s) { Allocate(); std::fill_n(data_.get(), n_, v); }
  xcontainer(const xcontainer& o) : shape_(o.shape_) { Allocate(); Copy(o); }
  xcontainer(xcontainer&& o) : shape_(o.shape_), data_(std::move(o.data_)), n_(o.n_) { o.InitShape(); o.Allocate(); if (o.n_) o.Clear(); }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xcontainer>, int> = 0>
  xcontainer(const E& e) { FromExpr(e); }
  template <class U, class S2> xcontainer(xcontainer<U, S2>&& e) { FromExpr(e); }
  // Nested initializer lists (values).
  template <bool F = kFixed, std::enable_if_t<F, int> = 0>
  xcontainer(std::initializer_list<std::initializer_list<T>> rows) {
    if constexpr (std::tuple_size<Shape>::value == 2) {
      shape_ = {rows.size(), rows.size() ? rows.begin()->size() : 0};
      Allocate();
      T* p = data_.get();
      for (auto& r : rows) for (auto& v : r) *p++ = v;
    } else Fail("unsupported initializer");
  }
  xcontainer& operator=(const xcontainer& o) { if (this != &o) { shape_ = o.shape_; Allocate(); Copy(o); } return *this; }
  xcontainer& operator=(xcontainer&& o) {
    if (this != &o) { shape_ = o.shape_; data_ = std::move(o.data_); n_ = o.n_; o.InitShape(); o.Allocate(); if (o.n_) o.Clear(); }
    return *this;
  }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xcontainer>, int> = 0>
  xcontainer& operator=(const E& e) { xcontainer c(e); return *this = std::move(c); }

  static xcontainer from_shape(const Shape& s) { return xcontainer(s); }

  template <class S> void resize(const S& s, bool force = false) {
    (void)force;
    Shape n{}; CopyShape(s, n);
    if (n == shape_) return;
    shape_ = n; Allocate();
  }
  void resize(const Shape& s, bool = false) { resize(std::vector<size_t>(s.begin(), s.end())); }
  template <class I> void resize(std::initializer_list<I> s) { resize(std::vector<size_t>(s.begin(), s.end())); }
  template <class S> void reshape(const S& s) {
    Shape n{}; CopyShape(s, n); size_t c = 1; for (size_t x : n) c *= x;
    if (c != n_) Fail("reshape to another size");
    shape_ = n;
  }
  size_t dimension() const { return shape_.size(); }
  size_t extent(size_t d) const { return shape_[d]; }
  const Shape& shape() const { return shape_; }
  size_t shape(size_t d) const { if (d >= shape_.size()) Fail("shape axis"); return shape_[d]; }
  size_t size() const { return n_; }
  T& element(const size_t* i) { return data_[Offset(i)]; }
  const T& element(const size_t* i) const { return data_[Offset(i)]; }
  T* data() { return data_.get(); }
  const T* data() const { return data_.get(); }
  T* begin() { return data_.get(); }
  T* end() { return data_.get() + n_; }
  const T* begin() const { return data_.get(); }
  const T* end() const { return data_.get() + n_; }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return end(); }
  T& flat(size_t i) { if (i >= n_) Fail("flat index"); return data_[i]; }
  using Base::operator[];
  template <size_t K> T& operator[](const std::array<size_t, K>& i) { Check(i); return element(i.data()); }
  template <size_t K> const T& operator[](const std::array<size_t, K>& i) const { Check(i); return element(i.data()); }
  T& front() { return data_[0]; }
  T& back() { return data_[n_ - 1]; }
  template <class V> void fill(const V& v) { std::fill_n(data_.get(), n_, T(v)); }
  operator T() const { if (!shape_.empty()) Fail("not a scalar"); return data_[0]; }
  std::vector<std::ptrdiff_t> strides() const {
    std::vector<std::ptrdiff_t> s(shape_.size());
    std::ptrdiff_t k = 1;
    for (size_t d = shape_.size(); d-- > 0;) { s[d] = shape_[d] == 1 ? 0 : k; k *= shape_[d]; }
    return s;
  }

 private:
  template <class S> static void CopyShape(const S& s, Shape& n) {
    if constexpr (!kFixed) n.resize(s.size());
    if (n.size() != s.size()) Fail("shape of another dimension");
    std::copy(s.begin(), s.end(), n.begin());
  }
  template <class A> void Check(const A& i) const { for (size_t d = 0; d < shape_.size(); ++d) if (i[d] >= shape_[d]) Fail("index out of range"); }
  void InitShape() { if constexpr (kFixed) shape_.fill(0); else shape_.clear(); }
  void Clear() { for (size_t i = 0; i < n_; ++i) data_[i] = T(); }
  void Allocate() {
    n_ = 1;
    for (size_t s : shape_) n_ *= s;
    data_.reset(new T[n_ ? n_ : 1]);
    for (size_t i = 0; i < n_; ++i) data_[i] = Garbage<T>::Value(i);
  }
  void Copy(const xcontainer& o) { std::copy_n(o.data_.get(), n_, data_.get()); }
  template <class E> void FromExpr(const E& e) {
    if constexpr (!kFixed) shape_.resize(e.dimension());
    // xtensor pads the shape of an expression with fewer dimensions with ones.
    if (e.dimension() > shape_.size()) Fail("expression has too many dimensions");
    const size_t pad = shape_.size() - e.dimension();
    for (size_t d = 0; d < shape_.size(); ++d) shape_[d] = d < pad ? 1 : e.extent(d - pad);
    Allocate();
    Assign(*this, e, AssignTo());
  }
  size_t Offset(const size_t* i) const { size_t o = 0; for (size_t d = 0; d < shape_.size(); ++d) o = o * shape_[d] + i[d]; return o; }
  Shape shape_;
  std::unique_ptr<T[]> data_;
  size_t n_ = 0;
};

template <class T, size_t N, layout_type L = layout_type::row_major>
using xtensor = xcontainer<T, std::array<size_t, N>>;
template <class T, layout_type L = layout_type::row_major>
using xarray = xcontainer<T, std::vector<size_t>>;

template <class T, class S1, class S2>
bool operator==(const xcontainer<T, S1>& a, const xcontainer<T, S2>& b) {
  return a.dimension() == b.dimension() && std::equal(a.shape().begin(), a.shape().end(), b.shape().begin()) && std::equal(a.begin(), a.end(), b.begin());
}
template <class T, class S1, class S2>
bool operator!=(const xcontainer<T, S1>& a, const xcontainer<T, S2>& b) { return !(a == b); }

// Memory of someone else, seen as a tensor.
template <class T>
class xadaptor : public xassignable<xadaptor<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  xadaptor(T* p, std::vector<size_t> s) : p_(p), shape_(std::move(s)) {}
  xadaptor(const xadaptor&) = default;
  size_t dimension() const { return shape_.size(); }
  size_t extent(size_t d) const { return shape_[d]; }
  T& element(const size_t* i) { return p_[Offset(i)]; }
  T& element(const size_t* i) const { return p_[Offset(i)]; }
  T* data() const { return p_; }
  template <class E> xadaptor& operator=(const E& e) {
    if constexpr (is_expr<E>) this->Apply(e, AssignTo()); else this->fill(e);
    return *this;
  }
  xadaptor& operator=(const xadaptor& e) { this->Apply(e, AssignTo()); return *this; }
 private:
  size_t Offset(const size_t* i) const { size_t o = 0; for (size_t d = 0; d < shape_.size(); ++d) o = o * shape_[d] + i[d]; return o; }
  T* p_;
  std::vector<size_t> shape_;
};
struct no_ownership {};
struct acquire_ownership {};
template <class T, class S> auto adapt(T* p, const S& s) { return xadaptor<T>(p, std::vector<size_t>(s.begin(), s.end())); }
template <class T, class S> auto adapt(T* p, size_t n, no_ownership, const S& s) {
  size_t c = 1; for (auto x : s) c *= x; if (c != n) Fail("adapt: size and shape differ");
  return xadaptor<T>(p, std::vector<size_t>(s.begin(), s.end()));
}
template <class T, class A, class S> auto adapt(std::vector<T, A>& v, const S& s) {
  size_t c = 1; for (auto x : s) c *= x; if (c != v.size()) Fail("adapt: size and shape differ");
  return xadaptor<T>(v.data(), std::vector<size_t>(s.begin(), s.end()));
}
template <class T, class A, class S> auto adapt(const std::vector<T, A>& v, const S& s) {
  size_t c = 1; for (auto x : s) c *= x; if (c != v.size()) Fail("adapt: size and shape differ");
  return xadaptor<const T>(v.data(), std::vector<size_t>(s.begin(), s.end()));
}
template <class T, size_t N> xtensor<T, 1> adapt(const std::array<T, N>& v) { xtensor<T, 1> r(std::array<size_t, 1>{N}); std::copy(v.begin(), v.end(), r.data()); return r; }
template <class T, class A> auto adapt(std::vector<T, A>& v) { return xadaptor<T>(v.data(), std::vector<size_t>{v.size()}); }
template <class T, class A> auto adapt(const std::vector<T, A>& v) { return xadaptor<const T>(v.data(), std::vector<size_t>{v.size()}); }

template <class T, class I, size_t N> auto adapt(T* p, const I (&s)[N]) { return adapt(p, std::vector<size_t>(s, s + N)); }
template <class T, class A, class I, size_t N> auto adapt(std::vector<T, A>& v, const I (&s)[N]) { return adapt(v, std::vector<size_t>(s, s + N)); }
template <class T, class A, class I, size_t N> auto adapt(const std::vector<T, A>& v, const I (&s)[N]) { return adapt(v, std::vector<size_t>(s, s + N)); }

template <class T, size_t N> auto empty(const std::array<size_t, N>& s) { return xtensor<T, N>(s); }
template <class T, class I, size_t N> auto empty(const I (&s)[N]) { std::array<size_t, N> a; std::copy_n(s, N, a.begin()); return xtensor<T, N>(a); }
template <class T, size_t N> auto zeros(const std::array<size_t, N>& s) { return xtensor<T, N>(s, T(0)); }
template <class T, class I, size_t N> auto zeros(const I (&s)[N]) { std::array<size_t, N> a; std::copy_n(s, N, a.begin()); return xtensor<T, N>(a, T(0)); }
template <class T, class I, size_t N> auto ones(const I (&s)[N]) { std::array<size_t, N> a; std::copy_n(s, N, a.begin()); return xtensor<T, N>(a, T(1)); }
template <class I, size_t N> std::array<size_t, N> shape(const I (&s)[N]) { std::array<size_t, N> a; std::copy_n(s, N, a.begin()); return a; }

// ---- views -------------------------------------------------------------
struct xall {};
inline xall all() { return {}; }
struct xrange { size_t begin, end; };
template <class A, class B> xrange range(A a, B b) { return {size_t(a), size_t(b)}; }
struct xkeep { std::vector<size_t> list; };
template <class C> xkeep keep(const C& c) { return {std::vector<size_t>(c.begin(), c.end())}; }
inline xkeep keep(std::initializer_list<size_t> c) { return {std::vector<size_t>(c)}; }
struct xnewaxis {};
inline xnewaxis newaxis() { return {}; }

struct Slice { enum Kind { kOne, kRange, kKeep } kind; size_t begin = 0, end = 0; std::vector<size_t> list; };

template <class CT>  // CT: E&, const E& or E
class xview : public xassignable<xview<CT>> {
  using E = std::remove_reference_t<CT>;
  using ElementRef = decltype(std::declval<E&>().element(std::declval<const size_t*>()));
 public:
  using value_type = typename std::decay_t<E>::value_type;
  template <class... S>
  xview(CT e, const S&... s) : e_(std::forward<CT>(e)) {
    (Add(s), ...);
    while (slices_.size() < e_.dimension()) Add(xall());
    if (slices_.size() != e_.dimension()) Fail("too many slices");
    for (size_t k = 0; k < slices_.size(); ++k) if (slices_[k].kind != Slice::kOne) axes_.push_back(k);
  }
  xview(const xview&) = default;
  size_t dimension() const { return axes_.size() + n_new_; }
  size_t extent(size_t d) const {
    if (d >= axes_.size()) return 1;  // a new axis, supported at the end only
    const Slice& s = slices_[axes_[d]];
    return s.kind == Slice::kRange ? s.end - s.begin : s.list.size();
  }
  ElementRef element(const size_t* i) { const Index x = Map(i); return e_.element(x.data()); }
  decltype(auto) element(const size_t* i) const { const Index x = Map(i); return e_.element(x.data()); }
  template <class V> xview& operator=(const V& v) {
    if constexpr (is_expr<V>) this->Apply(v, AssignTo()); else this->fill(v);
    return *this;
  }
  xview& operator=(const xview& v) { this->Apply(v, AssignTo()); return *this; }
  // Defined when the selected elements are contiguous or at least start there.
  auto data() { Index z{}; return &element(z.data()); }
  auto data() const { Index z{}; return &element(z.data()); }

 private:
  size_t Axis() const { return slices_.size(); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  void Add(I i) { if (size_t(i) >= e_.extent(Axis()) && e_.extent(Axis()) != 1) Fail("view index out of range"); const size_t v = e_.extent(Axis()) == 1 ? 0 : size_t(i); slices_.push_back({Slice::kOne, v, 0, {}}); }
  void Add(xnewaxis) { if (slices_.size() != e_.dimension()) Fail("newaxis is supported at the end only"); ++n_new_; }
  void Add(xall) { slices_.push_back({Slice::kRange, 0, e_.extent(Axis()), {}}); }
  void Add(xrange r) { const size_t n = e_.extent(Axis()); r.end = std::min(r.end, n); r.begin = std::min(r.begin, r.end); slices_.push_back({Slice::kRange, r.begin, r.end, {}}); }
  void Add(const xkeep& k) { for (size_t v : k.list) if (v >= e_.extent(Axis())) Fail("keep index out of range"); slices_.push_back({Slice::kKeep, 0, 0, k.list}); }
  Index Map(const size_t* i) const {
    Index x{};
    for (size_t k = 0; k < slices_.size(); ++k) x[k] = slices_[k].begin;
    for (size_t d = 0; d < axes_.size(); ++d) {
      const Slice& s = slices_[axes_[d]];
      x[axes_[d]] = s.kind == Slice::kRange ? s.begin + i[d] : s.list[i[d]];
    }
    return x;
  }
  CT e_;
  std::vector<Slice> slices_;
  std::vector<size_t> axes_;
  size_t n_new_ = 0;
};
// The elements of a contiguous expression in another shape.
template <class CT>
class xreshaped : public xassignable<xreshaped<CT>> {
  using E = std::remove_reference_t<CT>;
  using ElementRef = decltype(std::declval<E&>().element(std::declval<const size_t*>()));
 public:
  using value_type = typename std::decay_t<E>::value_type;
  xreshaped(CT e, std::vector<size_t> shape) : e_(std::forward<CT>(e)), shape_(std::move(shape)) {
    size_t n = 1, m = 1;
    for (size_t x : shape_) n *= x;
    for (size_t d = 0; d < e_.dimension(); ++d) m *= e_.extent(d);
    if (n != m) Fail("reshape to another size");
  }
  size_t dimension() const { return shape_.size(); }
  size_t extent(size_t d) const { return shape_[d]; }
  ElementRef element(const size_t* i) const {
    size_t flat = 0;
    for (size_t d = 0; d < shape_.size(); ++d) { if (i[d] >= shape_[d]) Fail("reshaped index out of range"); flat = flat * shape_[d] + i[d]; }
    Index x{};
    for (size_t d = e_.dimension(); d-- > 0;) { x[d] = flat % e_.extent(d); flat /= e_.extent(d); }
    return const_cast<E&>(e_).element(x.data());
  }
  template <class... I> ElementRef operator()(I... i) const { const size_t x[] = {size_t(i)...}; if (sizeof...(I) != shape_.size()) Fail("number of indices"); return element(x); }
  template <class V> xreshaped& operator=(const V& v) {
    if constexpr (is_expr<V>) this->Apply(v, AssignTo()); else this->fill(v);
    return *this;
  }
 private:
  CT e_;
  std::vector<size_t> shape_;
};
template <class E> auto reshape_view(E& e, std::initializer_list<size_t> s) { return xreshaped<E&>(e, std::vector<size_t>(s)); }
template <class E, class S, std::enable_if_t<!std::is_integral_v<S>, int> = 0> auto reshape_view(E& e, const S& s) { return xreshaped<E&>(e, std::vector<size_t>(s.begin(), s.end())); }
// Assignment to the elements for which the mask is set.
template <class E, class M>
class xmasked {
 public:
  xmasked(E& e, M m) : e_(e), m_(m) {}
  template <class V> void fill(const V& v) {
    Index i{};
    if (m_.dimension() > e_.dimension()) Fail("mask has more dimensions");
    size_t n = 1;
    for (size_t d = 0; d < e_.dimension(); ++d) n *= e_.extent(d);
    const size_t off = e_.dimension() - m_.dimension();
    for (size_t d = 0; d < m_.dimension(); ++d) if (m_.extent(d) != 1 && m_.extent(d) != e_.extent(d + off)) Fail("mask does not broadcast");
    for (size_t f = 0; f < n; ++f) {
      size_t r = f;
      for (size_t d = e_.dimension(); d-- > 0;) { i[d] = r % e_.extent(d); r /= e_.extent(d); }
      Index j{};
      for (size_t d = 0; d < m_.dimension(); ++d) j[d] = m_.extent(d) == 1 ? 0 : i[d + off];
      if (m_.element(j.data())) e_.element(i.data()) = v;
    }
  }
  template <class V> xmasked& operator=(const V& v) { fill(v); return *this; }
 private:
  E& e_;
  M m_;
};
template <class E, class M> auto masked_view(E& e, const M& m) { return xmasked<E, M>(e, m); }
template <class E, class... S>
auto view(E&& e, const S&... s) {
  if constexpr (std::is_lvalue_reference_v<E>) return xview<E>(e, s...);
  else return xview<std::decay_t<E>>(std::move(e), s...);
}

// ---- element-wise expressions -------------------------------------------
template <class E> using Closure = std::conditional_t<std::is_lvalue_reference_v<E>, const std::decay_t<E>&, std::decay_t<E>>;

template <class F, class A>
class xunary : public xexpression<xunary<F, A>> {
 public:
  xunary(F f, A a) : f_(f), a_(std::forward<A>(a)) {}
  using value_type = std::decay_t<decltype(std::declval<F>()(std::declval<typename std::decay_t<A>::value_type>()))>;
  size_t dimension() const { return a_.dimension(); }
  size_t extent(size_t d) const { return a_.extent(d); }
  value_type element(const size_t* i) const { return f_(a_.element(i)); }
 private:
  F f_; A a_;
};
template <class F, class A, class B>
class xbinary : public xexpression<xbinary<F, A, B>> {
 public:
  xbinary(F f, A a, B b) : f_(f), a_(std::forward<A>(a)), b_(std::forward<B>(b)) {
    for (size_t d = 0; d < dimension(); ++d) extent(d);
  }
  using value_type = std::decay_t<decltype(std::declval<F>()(std::declval<typename std::decay_t<A>::value_type>(), std::declval<typename std::decay_t<B>::value_type>()))>;
  size_t dimension() const { return std::max(a_.dimension(), b_.dimension()); }
  size_t extent(size_t d) const {
    const size_t ea = Ext(a_, d), eb = Ext(b_, d);
    if (ea != eb && ea != 1 && eb != 1) Fail("shapes do not broadcast");
    return ea == 1 ? eb : ea;
  }
  value_type element(const size_t* i) const { return f_(El(a_, i), El(b_, i)); }
 private:
  template <class X> size_t Ext(const X& x, size_t d) const { const size_t off = dimension() - x.dimension(); return d < off ? 1 : x.extent(d - off); }
  template <class X> auto El(const X& x, const size_t* i) const {
    Index j{}; const size_t off = dimension() - x.dimension();
    for (size_t d = 0; d < x.dimension(); ++d) j[d] = x.extent(d) == 1 ? 0 : i[d + off];
    return typename X::value_type(x.element(j.data()));
  }
  F f_; A a_; B b_;
};
template <class F, class A> auto MakeUnary(F f, A&& a) { return xunary<F, Closure<A&&>>(f, std::forward<A>(a)); }
template <class X> struct Wrap { using type = std::conditional_t<is_expr<X>, Closure<X>, xscalar<std::decay_t<X>>>; };
template <class F, class A, class B>
auto MakeBinary(F f, A&& a, B&& b) {
  if constexpr (is_expr<A> && is_expr<B>) return xbinary<F, Closure<A&&>, Closure<B&&>>(f, std::forward<A>(a), std::forward<B>(b));
  else if constexpr (is_expr<A>) return xbinary<F, Closure<A&&>, xscalar<std::decay_t<B>>>(f, std::forward<A>(a), xscalar<std::decay_t<B>>(b));
  else return xbinary<F, xscalar<std::decay_t<A>>, Closure<B&&>>(f, xscalar<std::decay_t<A>>(a), std::forward<B>(b));
}
#define VERIF_XT_BIN(NAME, EXPR)                                                               \
  template <class A, class B, std::enable_if_t<is_expr<A> || is_expr<B>, int> = 0>              \
  auto NAME(A&& a, B&& b) {                                                                     \
    return MakeBinary([](const auto& x, const auto& y) { return EXPR; }, std::forward<A>(a), std::forward<B>(b)); \
  }
VERIF_XT_BIN(operator+, x + y) VERIF_XT_BIN(operator-, x - y) VERIF_XT_BIN(operator*, x * y) VERIF_XT_BIN(operator/, x / y)
VERIF_XT_BIN(operator<, x < y) VERIF_XT_BIN(operator>, x > y) VERIF_XT_BIN(operator<=, x <= y) VERIF_XT_BIN(operator>=, x >= y)
VERIF_XT_BIN(operator&&, x && y) VERIF_XT_BIN(operator||, x || y) VERIF_XT_BIN(operator&, x & y) VERIF_XT_BIN(operator|, x | y)
VERIF_XT_BIN(equal, x == y) VERIF_XT_BIN(not_equal, x != y) VERIF_XT_BIN(pow, std::pow(x, y)) VERIF_XT_BIN(maximum, x < y ? y : x) VERIF_XT_BIN(minimum, y < x ? y : x)
#undef VERIF_XT_BIN
template <class T> inline bool FiniteOf(const T& x) { if constexpr (is_complex<T>::value) return std::isfinite(x.real()) && std::isfinite(x.imag()); else return std::isfinite(x); }
template <class T> inline bool NanOf(const T& x) { if constexpr (is_complex<T>::value) return std::isnan(x.real()) || std::isnan(x.imag()); else return std::isnan(x); }
#define VERIF_XT_UN(NAME, EXPR)                                                \
  template <class A, std::enable_if_t<is_expr<A>, int> = 0>                     \
  auto NAME(A&& a) { return MakeUnary([](const auto& x) { return EXPR; }, std::forward<A>(a)); }
VERIF_XT_UN(operator-, -x) VERIF_XT_UN(operator!, !x) VERIF_XT_UN(abs, std::abs(x)) VERIF_XT_UN(arg, std::arg(x)) VERIF_XT_UN(norm, std::norm(x))
VERIF_XT_UN(real, std::real(x)) VERIF_XT_UN(imag, std::imag(x)) VERIF_XT_UN(conj, std::conj(x)) VERIF_XT_UN(sqrt, std::sqrt(x)) VERIF_XT_UN(exp, std::exp(x))
VERIF_XT_UN(isnan, NanOf(x)) VERIF_XT_UN(isfinite, FiniteOf(x)) VERIF_XT_UN(square, x * x)
#undef VERIF_XT_UN
template <class T, class A> auto cast(A&& a) { return MakeUnary([](const auto& x) { return static_cast<T>(x); }, std::forward<A>(a)); }

// ---- reductions ----------------------------------------------------------
template <class T> using SumType = std::conditional_t<std::is_same_v<T, bool> || (std::is_integral_v<T> && sizeof(T) < 4), int, T>;
template <class E> bool any(const E& e) { for (auto it = e.begin(), l = e.end(); it != l; ++it) if (*it != typename E::value_type(0)) return true; return false; }
template <class E> bool all(const E& e) { for (auto it = e.begin(), l = e.end(); it != l; ++it) if (!(*it != typename E::value_type(0))) return false; return true; }
template <class E, class R, class F>
xarray<R> Reduce(const E& e, const std::vector<size_t>& axes, R init, F f) {
  std::vector<size_t> keep, shp;
  for (size_t d = 0; d < e.dimension(); ++d)
    if (std::find(axes.begin(), axes.end(), d) == axes.end()) { keep.push_back(d); shp.push_back(e.extent(d)); }
  xarray<R> r(shp, init);
  Index i{};
  const size_t n = e.size();
  for (size_t k = 0; k < n; ++k) {
    Index o{};
    for (size_t d = 0; d < keep.size(); ++d) o[d] = i[keep[d]];
    f(r.element(o.data()), e.element(i.data()));
    for (size_t d = e.dimension(); d-- > 0;) { if (++i[d] < e.extent(d)) break; i[d] = 0; }
  }
  return r;
}
inline std::vector<size_t> AllAxes(size_t n) { std::vector<size_t> a(n); std::iota(a.begin(), a.end(), size_t(0)); return a; }
template <class E> auto sum(const E& e) { using R = SumType<typename E::value_type>; return Reduce(e, AllAxes(e.dimension()), R(0), [](R& a, const auto& b) { a += b; }); }
template <class E, class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
auto sum(const E& e, I axis) { using R = SumType<typename E::value_type>; return Reduce(e, {size_t(axis)}, R(0), [](R& a, const auto& b) { a += b; }); }
template <class E> auto sum(const E& e, std::initializer_list<size_t> axes) { using R = SumType<typename E::value_type>; return Reduce(e, std::vector<size_t>(axes), R(0), [](R& a, const auto& b) { a += b; }); }
template <class E> auto amax(const E& e) { using R = typename E::value_type; if (!e.size()) Fail("amax of nothing"); return Reduce(e, AllAxes(e.dimension()), std::numeric_limits<R>::lowest(), [](R& a, const auto& b) { if (a < b) a = b; }); }
template <class E> auto amin(const E& e) { using R = typename E::value_type; if (!e.size()) Fail("amin of nothing"); return Reduce(e, AllAxes(e.dimension()), std::numeric_limits<R>::max(), [](R& a, const auto& b) { if (b < a) a = b; }); }
template <class E> std::vector<Index> argwhere(const E& e) {
  std::vector<Index> r; Index i{}; const size_t n = e.size();
  for (size_t k = 0; k < n; ++k) {
    if (e.element(i.data())) r.push_back(i);
    for (size_t d = e.dimension(); d-- > 0;) { if (++i[d] < e.extent(d)) break; i[d] = 0; }
  }
  return r;
}
inline std::vector<size_t> flatten_indices(const std::vector<Index>& v) { std::vector<size_t> r; for (auto& i : v) r.push_back(i[0]); return r; }
}  // namespace xt
#endif
