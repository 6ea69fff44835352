// A small stand-in for the part of casacore that DP3's in-memory code uses:
// arrays, strings, regular expressions, quantities, angles and measures.
// Measure conversions use one simple model (a sphere turning once per
// sidereal day); tables are declared, but using one throws.
#ifndef VERIF_CASACORE_MINI
#define VERIF_CASACORE_MINI
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <mutex>
#include <memory>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 5

namespace casacore {
using Bool = bool; using Char = char; using uChar = unsigned char; using Short = short; using Int = int; using uInt = unsigned int;
using Int64 = long long; using uInt64 = unsigned long long; using Float = float; using Double = double;
using Complex = std::complex<float>; using DComplex = std::complex<double>;
using rownr_t = uint64_t;
inline constexpr bool True = true, False = false;
enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };
using std::string; using std::vector; using std::ostream; using std::istream;

namespace C {
inline constexpr double pi = 3.141592653589793238462643383279502884197;
inline constexpr double _2pi = 2 * pi, pi_2 = pi / 2;
inline constexpr double c = 2.99792458e+08;
inline constexpr double degree = pi / 180;
}

class AipsError : public std::runtime_error {
 public:
  explicit AipsError(const std::string& s = "") : std::runtime_error(s) {}
  std::string getMesg() const { return what(); }
};

template <class T> bool isFinite(const T& v) { return std::isfinite(v); }
inline bool isFinite(const Complex& v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }
inline bool isFinite(const DComplex& v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }
template <class T> bool isNaN(const T& v) { return std::isnan(v); }
inline bool near(double a, double b, double tol = 1e-13) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  if (a * b <= 0) return std::fabs(a - b) <= 0 || ((a == 0 || b == 0) && std::fabs(a - b) <= (1 + tol) * 2.2e-308);
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b));
}
inline bool nearAbs(double a, double b, double tol = 1e-13) { return std::fabs(a - b) <= tol; }
template <class To, class From> void objcopy(To* to, const From* from, size_t n) { std::copy_n(from, n, to); }
template <class T> inline T square(T v) { return v * v; }
template <class T> struct SumSqr { T operator()(const T& a, const T& b) const { return a + b * b; } };
inline double fmodulo(double a, double b) { return std::fmod(a, b); }

// ---- strings and regular expressions -----------------------------------
class String;
class Regex {
 public:
  Regex() : Regex(std::string()) {}
  explicit Regex(const std::string& exp, bool = false, bool = true) : exp_(exp), re_(Compiled(exp)) {}
  explicit Regex(const char* exp) : Regex(std::string(exp)) {}
  // Shell pattern to expression: * ? [..] {a,b} and backslash.
  static std::string fromPattern(const std::string& p) {
    std::string r; int brace = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (c == '\\' && i + 1 < p.size()) { r += '\\'; r += p[++i]; }
      else if (c == '*') r += ".*";
      else if (c == '?') r += '.';
      else if (c == '[') {
        size_t j = i + 1;
        r += '[';
        if (j < p.size() && (p[j] == '!' || p[j] == '^')) { r += '^'; ++j; }
        if (j < p.size() && p[j] == ']') { r += "\\]"; ++j; }
        for (; j < p.size() && p[j] != ']'; ++j) { if (p[j] == '\\' || p[j] == '[') r += '\\'; r += p[j]; }
        r += ']'; i = j;
      }
      else if (c == '{') { r += "(("; ++brace; }
      else if (c == ',' && brace) r += ")|(";
      else if (c == '}' && brace) { r += "))"; --brace; }
      else { if (std::string(".^$+()|]\\{}").find(c) != std::string::npos) r += '\\'; r += c; }
    }
    return r;
  }
  static std::string fromString(const std::string& s) {
    std::string r;
    for (char c : s) { if (!std::isalnum((unsigned char)c) && c != '_' && c != ' ') r += '\\'; r += c; }
    return r;
  }
  static std::string makeCaseInsensitive(const std::string& s) {
    std::string r;
    for (char c : s) if (std::isalpha((unsigned char)c)) { r += '['; r += std::tolower(c); r += std::toupper(c); r += ']'; } else r += c;
    return r;
  }
  const std::string& regexp() const { return exp_; }
  const std::regex& re() const { return re_; }
  size_t match(const char* s, size_t n, size_t pos = 0) const {
    std::cmatch m;
    return std::regex_search(s + pos, s + n, m, re_, std::regex_constants::match_continuous) ? size_t(m.length()) : std::string::npos;
  }
  bool fullMatch(const char* s, size_t n) const { return std::regex_match(s, s + n, re_); }
 private:
  static const std::regex& Compiled(const std::string& s) {
    static std::mutex m;
    static std::map<std::string, std::regex> known;
    std::lock_guard<std::mutex> l(m);
    auto i = known.find(s);
    if (i == known.end()) { if (known.size() > 500) known.clear(); i = known.emplace(s, std::regex(s, std::regex::ECMAScript)).first; }
    return i->second;
  }
  std::string exp_;
  std::regex re_;
};
inline const Regex RXidentifier(std::string("[A-Za-z_][A-Za-z0-9_]*"));
class String : public std::string {
 public:
  using std::string::string;
  String() = default;
  String(const std::string& s) : std::string(s) {}
  String(char c) : std::string(1, c) {}
  bool matches(const Regex& r, size_t pos = 0) const { return std::regex_match(begin() + pos, end(), r.re()); }
  bool contains(const Regex& r) const { return std::regex_search(*this, r.re()); }
  bool contains(const std::string& s) const { return find(s) != npos; }
  size_t index(const Regex& r, size_t start = 0) const {
    std::smatch m;
    if (std::regex_search(begin() + start, end(), m, r.re(), start ? std::regex_constants::match_prev_avail : std::regex_constants::match_default)) return size_t(m.position()) + start;
    return npos;
  }
  void gsub(const Regex& r, const std::string& by) { *this = String(std::regex_replace(std::string(*this), r.re(), by)); }
  void upcase() { for (char& c : *this) c = char(std::toupper((unsigned char)c)); }
  void downcase() { for (char& c : *this) c = char(std::tolower((unsigned char)c)); }
  String from(size_t p) const { return String(substr(p)); }
  String before(size_t p) const { return String(substr(0, p)); }
  String after(size_t p) const { return String(substr(p + 1)); }
  static double toDouble(const std::string& s) { double v = 0; std::istringstream(s) >> v; return v; }
  static float toFloat(const std::string& s) { float v = 0; std::istringstream(s) >> v; return v; }
  static int toInt(const std::string& s) { int v = 0; std::istringstream(s) >> v; return v; }
};
inline String upcase(const std::string& s) { String r(s); r.upcase(); return r; }
inline String downcase(const std::string& s) { String r(s); r.downcase(); return r; }

// ---- arrays (column-major, reference semantics for views) ----------------
class IPosition {
 public:
  IPosition() = default;
  explicit IPosition(size_t n) : v_(n) {}
  template <class... I> IPosition(size_t n, ssize_t first, I... rest) : v_{first, ssize_t(rest)...} {
    if (v_.size() == 1 && n > 1) v_.assign(n, first);
    if (v_.size() != n) throw AipsError("IPosition length");
  }
  IPosition(std::initializer_list<ssize_t> l) : v_(l) {}
  ssize_t& operator[](size_t i) { return v_.at(i); }
  ssize_t operator[](size_t i) const { return v_.at(i); }
  ssize_t& operator()(size_t i) { return v_.at(i); }
  ssize_t operator()(size_t i) const { return v_.at(i); }
  size_t size() const { return v_.size(); }
  size_t nelements() const { return v_.size(); }
  void resize(size_t n, bool = true) { v_.resize(n); }
  void append(const IPosition& o) { const std::vector<ssize_t> x = o.v_; v_.insert(v_.end(), x.begin(), x.end()); }
  bool empty() const { return v_.empty(); }
  ssize_t product() const { if (v_.empty()) return 0; ssize_t p = 1; for (ssize_t x : v_) p *= x; return p; }
  bool operator==(const IPosition& o) const { return v_ == o.v_; }
  bool operator!=(const IPosition& o) const { return v_ != o.v_; }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
 private:
  std::vector<ssize_t> v_;
};
inline bool operator==(const IPosition& p, ssize_t v) { for (ssize_t x : p) if (x != v) return false; return true; }
inline bool operator!=(const IPosition& p, ssize_t v) { for (ssize_t x : p) if (x != v) return true; return p.size() == 0; }
inline std::ostream& operator<<(std::ostream& os, const IPosition& p) { os << '['; for (size_t i = 0; i < p.size(); ++i) os << (i ? ", " : "") << p[i]; return os << ']'; }

class Slicer {
 public:
  enum LengthOrLast { endIsLength, endIsLast };
  Slicer() = default;
  Slicer(const IPosition& s, const IPosition& e, LengthOrLast l = endIsLength) : start_(s), length_(e) {
    if (l == endIsLast) for (size_t i = 0; i < s.size(); ++i) length_[i] = e[i] - s[i] + 1;
  }
  const IPosition& start() const { return start_; }
  const IPosition& length() const { return length_; }
 private:
  IPosition start_, length_;
};

template <class T>
class Array {
 public:
  using value_type = T;
  Array() = default;
  virtual ~Array() = default;
  explicit Array(const IPosition& s) { Make(s); }
  Array(const IPosition& s, const T& v) { Make(s); *this = v; }
  Array(const IPosition& s, T* p, StorageInitPolicy policy) {
    Make(s, policy == SHARE ? p : nullptr);
    if (policy != SHARE) std::copy_n(p, size(), data_);
    if (policy == TAKE_OVER) delete[] p;
  }
  Array(const IPosition& s, const T* p) { Make(s); std::copy_n(p, size(), data_); }
  Array(const Array& o) { *this = Array(o.shape_, 0, o); }
  Array(Array&& o) { Swap(o); }
  Array& operator=(const Array& o) {
    if (this == &o) return *this;
    if (size() == 0 && shape_.size() <= o.shape_.size()) { Array c(o.shape_, 0, o); Swap(c); }
    else { Conform(o); Each([&](size_t i) { At(i) = o.At(i); }); }
    return *this;
  }
  Array& operator=(Array&& o) { if (size() == 0) Swap(o); else *this = static_cast<const Array&>(o); return *this; }
  Array& operator=(const T& v) { Each([&](size_t i) { At(i) = v; }); return *this; }
  virtual void assign(const Array& o) { Array c(o.shape_, 0, o); Swap(c); }
  void reference(const Array& o) { owner_ = o.owner_; data_ = o.data_; shape_ = o.shape_; step_ = o.step_; }
  Array copy() const { return Array(shape_, 0, *this); }
  void resize() { *this = Array(std::move(Array())), owner_.reset(), data_ = nullptr, shape_ = IPosition(), step_.clear(); }
  virtual void resize(const IPosition& s, bool copy = false) { if (s != shape_) { Array old; old.reference(*this); Make(s); if (copy) Each([&](size_t i) { if (i < old.size()) At(i) = old.At(i); }); } }
  const IPosition& shape() const { return shape_; }
  size_t size() const { return shape_.product(); }
  size_t nelements() const { return size(); }
  bool empty() const { return size() == 0; }
  size_t ndim() const { return shape_.size(); }
  void set(const T& v) { *this = v; }
  T* data() { return data_; }
  const T* data() const { return data_; }
  T* getStorage(bool& del) { del = false; return data_; }
  const T* getStorage(bool& del) const { del = false; return data_; }
  void putStorage(T*&, bool) {}
  void freeStorage(const T*&, bool) const {}
  bool contiguousStorage() const { ssize_t k = 1; for (size_t d = 0; d < shape_.size(); ++d) { if (shape_[d] != 1 && step_[d] != k) return false; k *= shape_[d]; } return true; }
  T& operator()(const IPosition& i) { return data_[Offset(i)]; }
  const T& operator()(const IPosition& i) const { return data_[Offset(i)]; }
  Array operator()(const IPosition& b, const IPosition& e) const {
    Array r; r.reference(*this);
    for (size_t d = 0; d < shape_.size(); ++d) {
      if (b[d] < 0 || e[d] >= shape_[d] || b[d] > e[d]) throw AipsError("Array section out of bounds");
      r.data_ += b[d] * step_[d]; r.shape_[d] = e[d] - b[d] + 1;
    }
    return r;
  }
  Array operator()(const Slicer& s) const { IPosition e = s.start(); for (size_t d = 0; d < e.size(); ++d) e[d] += s.length()[d] - 1; return (*this)(s.start(), e); }
  Array reform(const IPosition& s) const { Array c = copy(); if (s.product() != ssize_t(size())) throw AipsError("reform"); c.shape_ = s; c.Steps(); return c; }
  // Element in storage order of the array itself.
  T& At(size_t k) { return data_[Linear(k)]; }
  const T& At(size_t k) const { return data_[Linear(k)]; }
  class iterator {
   public:
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = ssize_t; using pointer = T*; using reference = T&;
    iterator(const Array* a, size_t k) : a_(const_cast<Array*>(a)), k_(k) {}
    T& operator*() const { return a_->At(k_); }
    T* operator->() const { return &a_->At(k_); }
    T& operator[](ssize_t n) const { return a_->At(k_ + n); }
    iterator& operator++() { ++k_; return *this; }
    iterator operator++(int) { auto c = *this; ++k_; return c; }
    iterator& operator--() { --k_; return *this; }
    iterator& operator+=(ssize_t n) { k_ += n; return *this; }
    iterator operator+(ssize_t n) const { return {a_, k_ + n}; }
    iterator operator-(ssize_t n) const { return {a_, k_ - n}; }
    ssize_t operator-(const iterator& o) const { return ssize_t(k_) - ssize_t(o.k_); }
    bool operator==(const iterator& o) const { return k_ == o.k_; }
    bool operator!=(const iterator& o) const { return k_ != o.k_; }
    bool operator<(const iterator& o) const { return k_ < o.k_; }
   private:
    Array* a_; size_t k_;
  };
  using const_iterator = iterator;
  iterator begin() const { return {this, 0}; }
  iterator end() const { return {this, size()}; }
  using contiter = T*;
  using const_contiter = const T*;
  T* cbegin() { return data_; }
  T* cend() { return data_ + size(); }
  const T* cbegin() const { return data_; }
  const T* cend() const { return data_ + size(); }
  void tovector(std::vector<T>& v) const { v = tovector(); }
  std::vector<T> tovector() const { std::vector<T> v; for (size_t i = 0; i < size(); ++i) v.push_back(At(i)); return v; }

 protected:
  Array(const IPosition& s, int, const Array& o) { Make(s); for (size_t i = 0; i < size(); ++i) At(i) = o.At(i); }
  void Make(const IPosition& s, T* shared = nullptr) {
    shape_ = s;
    if (shared) { owner_.reset(); data_ = shared; }
    else { owner_ = std::shared_ptr<T[]>(new T[size() + 1]()); data_ = owner_.get(); }
    Steps();
  }
  void Steps() { step_.resize(shape_.size()); ssize_t k = 1; for (size_t d = 0; d < shape_.size(); ++d) { step_[d] = k; k *= shape_[d]; } }
  void Swap(Array& o) { std::swap(owner_, o.owner_); std::swap(data_, o.data_); std::swap(shape_, o.shape_); std::swap(step_, o.step_); }
  void Conform(const Array& o) const { if (shape_ != o.shape_) throw AipsError("Arrays do not conform"); }
  template <class F> void Each(F f) { const size_t n = size(); for (size_t i = 0; i < n; ++i) f(i); }
  size_t Offset(const IPosition& i) const {
    if (i.size() != shape_.size()) throw AipsError("Array index dimension");
    ssize_t o = 0;
    for (size_t d = 0; d < i.size(); ++d) { if (i[d] < 0 || i[d] >= shape_[d]) throw AipsError("Array index out of bounds"); o += i[d] * step_[d]; }
    return o;
  }
  size_t Linear(size_t k) const {
    ssize_t o = 0;
    for (size_t d = 0; d < shape_.size(); ++d) { o += ssize_t(k % shape_[d]) * step_[d]; k /= shape_[d]; }
    if (k) throw AipsError("Array index out of bounds");
    return o;
  }
  std::shared_ptr<T[]> owner_;
  T* data_ = nullptr;
  IPosition shape_;
  std::vector<ssize_t> step_;
};
template <class T> std::ostream& operator<<(std::ostream& os, const Array<T>& a) { os << '['; for (size_t i = 0; i < a.size(); ++i) os << (i ? ", " : "") << a.At(i); return os << ']'; }

template <class T>
class Vector : public Array<T> {
 public:
  using Array<T>::operator=;
  using Array<T>::operator();
  using Array<T>::resize;
  Vector() : Array<T>(IPosition(1, 0)) {}
  explicit Vector(size_t n) : Array<T>(IPosition(1, ssize_t(n))) {}
  Vector(size_t n, const T& v) : Array<T>(IPosition(1, ssize_t(n)), v) {}
  Vector(const std::vector<T>& v) : Array<T>(IPosition(1, ssize_t(v.size()))) { for (size_t i = 0; i < v.size(); ++i) this->At(i) = v[i]; }
  template <class U, std::enable_if_t<!std::is_same_v<U, T>, int> = 0>
  explicit Vector(const std::vector<U>& v) : Array<T>(IPosition(1, ssize_t(v.size()))) { for (size_t i = 0; i < v.size(); ++i) this->At(i) = T(v[i]); }
  Vector(std::initializer_list<T> v) : Vector(std::vector<T>(v)) {}
  Vector(const Array<T>& a) : Array<T>(a) { if (a.ndim() > 1) throw AipsError("not a vector"); if (a.ndim() == 0) this->Make(IPosition(1, 0)); }
  Vector(const IPosition& s, T* p, StorageInitPolicy st) : Array<T>(s, p, st) {}
  Vector(const Vector&) = default;
  Vector(Vector&&) = default;
  Vector& operator=(const Vector& o) { if (this->size() == 0 || this->size() != o.size()) this->assign(o); else Array<T>::operator=(o); return *this; }
  Vector& operator=(Vector&& o) { this->Swap(o); return *this; }
  void resize(size_t n, bool copy = false) { Array<T>::resize(IPosition(1, ssize_t(n)), copy); }
  T& operator[](size_t i) { return this->At(i); }
  const T& operator[](size_t i) const { return this->At(i); }
  T& operator()(size_t i) { return this->At(i); }
  const T& operator()(size_t i) const { return this->At(i); }
};
template <class T>
class Matrix : public Array<T> {
 public:
  using Array<T>::operator=;
  using Array<T>::operator();
  using Array<T>::resize;
  Matrix() : Array<T>(IPosition(2, 0, 0)) {}
  Matrix(size_t r, size_t c) : Array<T>(IPosition(2, ssize_t(r), ssize_t(c))) {}
  Matrix(size_t r, size_t c, const T& v) : Array<T>(IPosition(2, ssize_t(r), ssize_t(c)), v) {}
  explicit Matrix(const IPosition& s) : Array<T>(s) {}
  Matrix(const IPosition& s, const T& v) : Array<T>(s, v) {}
  Matrix(const Array<T>& a) : Array<T>(a) { if (a.ndim() != 2) throw AipsError("not a matrix"); }
  Matrix(const IPosition& s, T* p, StorageInitPolicy st) : Array<T>(s, p, st) {}
  Matrix(const Matrix&) = default;
  Matrix& operator=(const Matrix& o) { if (this->size() == 0) this->assign(o); else Array<T>::operator=(o); return *this; }
  void resize(size_t r, size_t c) { Array<T>::resize(IPosition(2, ssize_t(r), ssize_t(c))); }
  T& operator()(size_t i, size_t j) { return (*this)(IPosition(2, ssize_t(i), ssize_t(j))); }
  const T& operator()(size_t i, size_t j) const { return Array<T>::operator()(IPosition(2, ssize_t(i), ssize_t(j))); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  Vector<T> diagonal() const {
    Vector<T> r = Line(0, 0);
    struct Access : Array<T> { static void Set(Array<T>& a, T* p, ssize_t n, ssize_t s) { auto& x = static_cast<Access&>(a); x.data_ = p; x.shape_ = IPosition(1, n); x.step_ = {s}; } };
    Access::Set(r, this->data_, std::min(this->shape_[0], this->shape_[1]), this->step_[0] + this->step_[1]);
    return r;
  }
  Vector<T> Line(size_t axis, size_t at) const {
    Vector<T> r; r.reference(*this);
    struct Access : Array<T> { static void Set(Array<T>& a, T* p, ssize_t n, ssize_t s) { auto& x = static_cast<Access&>(a); x.data_ = p; x.shape_ = IPosition(1, n); x.step_ = {s}; } };
    Access::Set(r, this->data_ + ssize_t(at) * this->step_[axis], this->shape_[1 - axis], this->step_[1 - axis]);
    return r;
  }
};
template <class T>
class Cube : public Array<T> {
 public:
  using Array<T>::operator=;
  using Array<T>::operator();
  using Array<T>::resize;
  Cube() : Array<T>(IPosition(3, 0, 0, 0)) {}
  Cube(size_t a, size_t b, size_t c) : Array<T>(IPosition(3, ssize_t(a), ssize_t(b), ssize_t(c))) {}
  explicit Cube(const IPosition& s) : Array<T>(s) {}
  Cube(const Array<T>& a) { this->reference(a); }  // as in casacore
  Cube(const Cube& a) : Array<T>() { this->reference(a); }
  Cube& operator=(const Cube& a) { Array<T>::operator=(static_cast<const Array<T>&>(a)); return *this; }
  Cube(const IPosition& s, T* p, StorageInitPolicy st) : Array<T>(s, p, st) {}
  void resize(size_t a, size_t b, size_t c) { Array<T>::resize(IPosition(3, ssize_t(a), ssize_t(b), ssize_t(c))); }
  T& operator()(size_t i, size_t j, size_t k) { return (*this)(IPosition(3, ssize_t(i), ssize_t(j), ssize_t(k))); }
  const T& operator()(size_t i, size_t j, size_t k) const { return Array<T>::operator()(IPosition(3, ssize_t(i), ssize_t(j), ssize_t(k))); }
};
template <class T> class Block {
 public:
  Block() = default;
  explicit Block(size_t n) : v_(n) {}
  Block(size_t n, const T& x) : v_(n, x) {}
  size_t size() const { return v_.size(); }
  size_t nelements() const { return v_.size(); }
  void resize(size_t n, bool = false, bool = true) { v_.resize(n); }
  T& operator[](size_t i) { return reinterpret_cast<T&>(v_.at(i)); }
  const T& operator[](size_t i) const { return reinterpret_cast<const T&>(v_.at(i)); }
  Block& operator=(const T& x) { for (auto& e : v_) e = x; return *this; }
  T* begin() { return reinterpret_cast<T*>(v_.data()); }
  T* end() { return begin() + v_.size(); }
  T* data() { return begin(); }
 private:
  std::vector<std::conditional_t<std::is_same_v<T, bool>, unsigned char, T>> v_;
};
#define VERIF_ARRAY_OP(OP)                                                                                             \
  template <class T> Array<T> operator OP(const Array<T>& a, const Array<T>& b) {                                      \
    if (a.shape() != b.shape()) throw AipsError("Arrays do not conform");                                              \
    Array<T> r(a.shape()); for (size_t i = 0; i < r.size(); ++i) r.At(i) = a.At(i) OP b.At(i); return r; }             \
  template <class T> Array<T> operator OP(const Array<T>& a, const T& b) {                                             \
    Array<T> r(a.shape()); for (size_t i = 0; i < r.size(); ++i) r.At(i) = a.At(i) OP b; return r; }
template <class T> Array<T> operator&&(const Array<T>& a, const Array<T>& b) {
  if (a.shape() != b.shape()) throw AipsError("Arrays do not conform");
  Array<T> r(a.shape()); for (size_t i = 0; i < r.size(); ++i) r.At(i) = a.At(i) && b.At(i); return r; }
VERIF_ARRAY_OP(+) VERIF_ARRAY_OP(-) VERIF_ARRAY_OP(*) VERIF_ARRAY_OP(/)
#undef VERIF_ARRAY_OP
template <class T> T sum(const Array<T>& a) { T s{}; for (size_t i = 0; i < a.size(); ++i) s += a.At(i); return s; }
inline Array<double> operator*(double f, const Array<double>& a) { Array<double> r(a.copy()); for (size_t i = 0; i < r.size(); ++i) r.At(i) *= f; return r; }
template <class T> T min(const Array<T>& a) { return *std::min_element(a.begin(), a.end()); }
template <class T> T max(const Array<T>& a) { return *std::max_element(a.begin(), a.end()); }
template <class T> size_t nfalse(const Array<T>& a) { size_t n = 0; for (const auto& x : a) n += !x; return n; }
template <class T> size_t ntrue(const Array<T>& a) { return a.size() - nfalse(a); }
template <class T> bool anyEQ(const Array<T>& a, const T& v) { for (auto& x : a) if (x == v) return true; return false; }
template <class T> bool anyNE(const Array<T>& a, const T& v) { for (auto& x : a) if (!(x == v)) return true; return false; }
template <class T> bool allEQ(const Array<T>& a, const T& v) { return !anyNE(a, v); }
template <class T> bool allEQ(const Array<T>& a, const Array<T>& b) { for (size_t i = 0; i < a.size(); ++i) if (!(a.At(i) == b.At(i))) return false; return true; }
template <class T> void indgen(Array<T>& a, T start) { for (size_t i = 0; i < a.size(); ++i) a.At(i) = start + T(i); }
template <class T> void indgen(Array<T>& a) { for (size_t i = 0; i < a.size(); ++i) a.At(i) = T(i); }
template <class T> Matrix<T> transpose(const Matrix<T>& m) { Matrix<T> r(m.ncolumn(), m.nrow()); for (size_t i = 0; i < m.nrow(); ++i) for (size_t j = 0; j < m.ncolumn(); ++j) r(j, i) = m(i, j); return r; }
template <class T> Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) {
  if (a.ncolumn() != b.nrow()) throw AipsError("product: shapes");
  Matrix<T> r(a.nrow(), b.ncolumn());
  for (size_t i = 0; i < a.nrow(); ++i) for (size_t j = 0; j < b.ncolumn(); ++j) { T s{}; for (size_t k = 0; k < a.ncolumn(); ++k) s += a(i, k) * b(k, j); r(i, j) = s; }
  return r;
}
// Indirect sort: fills index so that v[index] is ascending.
template <class T, class I = uInt>
uInt genSort(Vector<I>& index, const Vector<T>& v) { index.resize(v.size()); std::iota(index.begin(), index.end(), I(0)); std::stable_sort(index.begin(), index.end(), [&](I a, I b) { return v[a] < v[b]; }); return v.size(); }
namespace GenSortHelp {
struct Order {};
}
class Sort { public: enum Option { HeapSort = 1, InsSort = 2, QuickSort = 4, NoDuplicates = 8, ParSort = 16, DefaultSort = 32 }; enum Order { Descending = -1, Ascending = 1 }; };
template <class T> uInt genSort(T* d, size_t n, Sort::Order o = Sort::Ascending, int opt = 0) {
  if (o == Sort::Ascending) std::sort(d, d + n); else std::sort(d, d + n, std::greater<T>());
  if (opt & Sort::NoDuplicates) n = std::unique(d, d + n) - d;
  return n;
}
template <class T, class C = std::less<T>> struct GenSort {
  static uInt sort(T* d, size_t n, Sort::Order o = Sort::Ascending, int opt = 0) { return genSort(d, n, o, opt); }
};
template <class T, class I = uInt> struct GenSortIndirect { static I sort(Vector<I>& index, const Vector<T>& v) { return genSort(index, v); } };
template <class T, class A> ssize_t linearSearch1(const A& a, const T& v) { for (size_t i = 0; i < a.size(); ++i) if (a[i] == v) return i; return -1; }

// ---- quantities ---------------------------------------------------------
class Unit {
 public:
  Unit(const char* u = "") : Unit(std::string(u)) {}
  Unit(const std::string& u) : name_(u) {}
  const std::string& getName() const { return name_; }
  bool empty() const { return name_.empty(); }
  double Scale() const {
    static const std::map<std::string, double> t = {
        {"", 1}, {"rad", 1}, {"deg", C::degree}, {"arcmin", C::degree / 60}, {"arcsec", C::degree / 3600}, {"mas", C::degree / 3.6e6},
        {"m", 1}, {"km", 1e3}, {"cm", 1e-2}, {"mm", 1e-3}, {"s", 1}, {"ms", 1e-3}, {"min", 60}, {"h", 3600}, {"d", 86400}, {"us", 1e-6},
        {"Hz", 1}, {"kHz", 1e3}, {"MHz", 1e6}, {"GHz", 1e9}, {"THz", 1e12}, {"mHz", 1e-3}, {"Jy", 1}, {"mJy", 1e-3}};
    auto i = t.find(name_);
    if (i == t.end()) throw AipsError("Unit " + name_ + " unknown");
    return i->second;
  }
  int Dim() const {
    static const std::set<std::string> a = {"rad", "deg", "arcmin", "arcsec", "mas"}, l = {"m", "km", "cm", "mm"}, t = {"s", "ms", "min", "h", "d", "us"}, f = {"Hz", "kHz", "MHz", "GHz", "THz", "mHz"}, j = {"Jy", "mJy"};
    return a.count(name_) ? 1 : l.count(name_) ? 2 : t.count(name_) ? 3 : f.count(name_) ? 4 : j.count(name_) ? 5 : 0;
  }
 private:
  std::string name_;
};
template <class T> class Quantum {
 public:
  Quantum() : v_() {}
  Quantum(const T& v) : v_(v) {}
  Quantum(const T& v, const Unit& u) : v_(v), u_(u) { u.Scale(); }
  const T& getValue() const { return v_; }
  T& getValue() { return v_; }
  T getValue(const Unit& u) const {
    constexpr double day = 86400 / (2 * C::pi);  // angles and times convert into each other
    if (u.Dim() == 3 && u_.Dim() == 1) return Scaled(v_, u_.Scale() * day / u.Scale());
    if (u.Dim() == 1 && u_.Dim() == 3) return Scaled(v_, u_.Scale() / day / u.Scale());
    if (u.Dim() != u_.Dim()) throw AipsError("Quantum: unit " + u.getName() + " does not conform to " + u_.getName());
    if (u.getName() == u_.getName()) return v_;
    return Scaled(v_, u_.Scale() / u.Scale());
  }
  T getValue(const Unit& u, bool) const { return getValue(u); }
  Quantum get(const Unit& u) const { return Quantum(getValue(u), u); }
  T getBaseValue() const { return Scaled(v_, u_.Scale()); }
  bool isConform(const Unit& u) const { return u.Dim() == u_.Dim(); }
  void setValue(const T& v) { v_ = v; }
  void setUnit(const Unit& u) { u_ = u; }
  const std::string& getUnit() const { return u_.getName(); }
  static bool read(Quantum& q, const std::string& s) {
    char* e = nullptr;
    const double v = std::strtod(s.c_str(), &e);
    if (e == s.c_str()) return false;
    std::string u(e);
    u.erase(0, u.find_first_not_of(' ') == std::string::npos ? u.size() : u.find_first_not_of(' '));
    try { q = Quantum(T(v), Unit(u)); } catch (const AipsError&) { return false; }
    return true;
  }
 private:
  static double Scaled(double v, double f) { return v * f; }
  template <class V> static V Scaled(const V& v, double f) { V r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i] * f; return r; }
  T v_;
  Unit u_;
};
using Quantity = Quantum<double>;

class MVAngle {
 public:
  enum formatTypes { ANGLE, TIME, CLEAN, NO_D, NO_H, NO_DM, NO_HM, ANGLE_CLEAN, TIME_CLEAN, ANGLE_NO_D, TIME_NO_H, DIG2, LOCAL };
  class Format { public: Format(formatTypes t = ANGLE, unsigned p = 0) : typ(t), prec(p) {} Format(formatTypes t, formatTypes, unsigned p) : typ(t), prec(p) {} formatTypes typ; unsigned prec; };
  MVAngle(double r = 0) : v_(r) {}
  MVAngle(const Quantity& q) : v_(q.getUnit().empty() ? q.getValue() : q.getValue("rad")) {}
  double radian() const { return v_; }
  double degree() const { return v_ / C::degree; }
  operator double() const { return v_; }
  // With a unit required, a plain number is refused.
  static bool read(Quantity& q, const std::string& in, bool unit) {
    size_t i = 0;
    while (i < in.size() && (in[i] == ' ' || in[i] == '\t')) ++i;
    char* e = nullptr;
    std::strtod(in.c_str() + i, &e);
    while (*e == ' ' || *e == '\t') ++e;
    if (unit && *e == 0) return false;
    return read(q, in);
  }
  // hh:mm:ss, 1h2m3, 1d2m3, 1.2.3 (degrees) or a value with a unit. A plain number stays without unit.
  static bool read(Quantity& q, const std::string& in) {
    std::string s;
    for (char c : in) if (c != ' ' && c != '\t') s += c;
    static const std::regex hms("([+-]?)(\\d*)[hH](?:(\\d*)[mM]?(\\d*\\.?\\d*)[sS]?)?"), col("([+-]?)(\\d+):(\\d*):?(\\d*\\.?\\d*)"),
        dms("([+-]?)(\\d*)[dD](?:(\\d*)[mM]?(\\d*\\.?\\d*)[sS]?)?"), dot("([+-]?)(\\d+)\\.(\\d+)\\.(\\d*\\.?\\d*)");
    std::smatch m;
    double f = 0;
    if (std::regex_match(s, m, hms) || std::regex_match(s, m, col)) f = 15;
    else if (std::regex_match(s, m, dot) || std::regex_match(s, m, dms)) f = 1;
    if (f) {
      auto num = [&](int k) { return m[k].matched && m[k].length() ? std::strtod(m[k].str().c_str(), nullptr) : 0.0; };
      double v = (num(2) + num(3) / 60 + num(4) / 3600) * f;
      if (m[1].str() == "-") v = -v;
      q = Quantity(v, "deg");
      return true;
    }
    Quantity t;
    if (!Quantity::read(t, s)) return false;
    if (!t.getUnit().empty() && !t.isConform("rad") && !t.isConform("s")) return false;
    if (t.isConform("s") && !t.getUnit().empty()) t = Quantity(t.getValue("h") * 15, "deg");
    if (t.getUnit().empty()) t = Quantity(t.getValue(), "rad");
    q = t;
    return true;
  }
  void print(std::ostream& os, const Format& f) const {
    double v = v_ / C::degree;
    const bool time = f.typ == TIME;
    if (time) { v = std::fmod(v / 15, 24); if (v < 0) v += 24; }
    const bool neg = v < 0; v = std::fabs(v);
    const unsigned dec = f.prec > 6 ? f.prec - 6 : 0;
    const double unit = std::pow(10.0, dec);
    long long t = std::llround(v * 3600 * unit);
    const long long per = std::llround(unit);
    const long long sf = t % per; t /= per;
    const long long sec = t % 60; t /= 60; const long long min = t % 60; t /= 60;
    char b[64];
    if (time) std::snprintf(b, sizeof b, "%02lld:%02lld:%02lld", t, min, sec); else std::snprintf(b, sizeof b, "%c%03lld.%02lld.%02lld", neg ? '-' : '+', t, min, sec);
    os << b;
    if (dec) { std::snprintf(b, sizeof b, ".%0*lld", int(dec), sf); os << b; }
  }
  std::string string(const Format& f) const { std::ostringstream o; print(o, f); return o.str(); }
  std::string string(formatTypes t, unsigned p) const { return string(Format(t, p)); }
 private:
  double v_;
};
class MVTime {
 public:
  enum formatTypes { YMD = 1, DMY, CLEAN, NO_TIME, ANGLE, TIME };
  class Format { public: Format(int t = TIME, unsigned p = 0) : typ(t), prec(p) {} int typ; unsigned prec; };
  MVTime(double d = 0) : d_(d) {}
  MVTime(const Quantity& q) : d_(q.getUnit().empty() ? q.getValue() : q.getValue("d")) {}
  double day() const { return d_; }
  operator double() const { return d_; }
  // hh:mm[:ss[.s]] (fraction of a day), a value with unit, or yyyy/mm/dd[/hh:mm:ss] and dMmmyyyy[/time].
  static bool read(Quantity& q, const std::string& in, bool = true) {
    static const std::regex ymd("(\\d{4})[/-](\\d{1,2})[/-](\\d{1,2})(?:[/T ](.*))?"), dmy("(\\d{1,2})-?([A-Za-z]{3})-?(\\d{4})(?:[/T ](.*))?"), hms("([+-]?)(\\d+)[:hH](\\d*)[:mM]?(\\d*\\.?\\d*)[sS]?");
    std::smatch m;
    std::string s(in), rest;
    s.erase(0, std::min(s.find_first_not_of(" \t"), s.size()));
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back();
    double day = 0; bool date = false;
    if (std::regex_match(s, m, ymd)) { day = Mjd(std::stoi(m[1]), std::stoi(m[2]), std::stoi(m[3])); rest = m[4]; date = true; }
    else if (std::regex_match(s, m, dmy)) {
      static const char* names = "janfebmaraprmayjunjulaugsepoctnovdec";
      std::string mn = m[2]; for (char& c : mn) c = char(std::tolower(c));
      const char* p = std::strstr(names, mn.c_str());
      if (!p || (p - names) % 3) return false;
      day = Mjd(std::stoi(m[3]), int(p - names) / 3 + 1, std::stoi(m[1])); rest = m[4]; date = true;
    } else rest = s;
    if (date && rest.empty()) { q = Quantity(day, "d"); return true; }
    if (std::regex_match(rest, m, hms)) {
      auto num = [&](int k) { return m[k].length() ? std::strtod(m[k].str().c_str(), nullptr) : 0.0; };
      double v = (num(2) + num(3) / 60 + num(4) / 3600) / 24;
      if (m[1].str() == "-") v = -v;
      q = Quantity(day + v, "d");
      return true;
    }
    if (date) return false;
    Quantity t;
    if (!Quantity::read(t, rest)) return false;
    if (!t.getUnit().empty() && !t.isConform("s") && !t.isConform("rad")) return false;
    if (t.getUnit().empty()) t = Quantity(t.getValue(), "d");
    else if (t.isConform("rad")) t = Quantity(t.getValue("deg") / 360, "d");
    q = t;
    return true;
  }
  static double Mjd(int y, int m, int d) {
    if (m <= 2) { --y; m += 12; }
    return 365.0 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + d - 678882.0;
  }
  static MVTime::Format getFormat() { return {}; }
  void print(std::ostream& os, const Format& f) const {
    const long day = long(std::floor(d_));
    long z = day + 678881 + 1; long y = 0; (void)z;
    // civil date from a day number
    long n = day + 2400001 + 68569; long c = 4 * n / 146097; n -= (146097 * c + 3) / 4; y = 4000 * (n + 1) / 1461001; n = n - 1461 * y / 4 + 31;
    long mo = 80 * n / 2447; const long dd = n - 2447 * mo / 80; n = mo / 11; mo = mo + 2 - 12 * n; y = 100 * (c - 49) + y + n;
    double s = (d_ - day) * 86400;
    const int prec = f.prec > 6 ? int(f.prec) - 6 : 0;
    char b[96];
    const int hh = int(s / 3600); s -= hh * 3600; const int mm = int(s / 60); s -= mm * 60;
    std::snprintf(b, sizeof b, "%04ld/%02ld/%02ld/%02d:%02d:%0*.*f", y, mo, dd, hh, mm, prec ? prec + 3 : 2, prec, s);
    os << b;
  }
  std::string string(int, unsigned p) const { std::ostringstream o; print(o, Format(0, p)); return o.str(); }
 private:
  double d_;
};
struct MVTimeStream { std::ostream& os; MVTime::Format f; operator std::ostream&() { return os; } };
inline MVTimeStream operator<<(std::ostream& os, const MVTime::Format& f) { return {os, f}; }
inline std::ostream& operator<<(MVTimeStream s, const MVTime& t) { t.print(s.os, s.f); return s.os; }
inline std::ostream& operator<<(std::ostream& os, const MVTime& t) { t.print(os, MVTime::Format(0, 6)); return os; }

// ---- measures -------------------------------------------------------------
class MVPosition {
 public:
  MVPosition(double x = 0, double y = 0, double z = 0) : v_{x, y, z} {}
  explicit MVPosition(const Vector<double>& v) : v_{v[0], v[1], v[2]} {}
  MVPosition(const Quantity& x, const Quantity& y, const Quantity& z) : v_{x.getValue("m"), y.getValue("m"), z.getValue("m")} {}
  Vector<double> getValue() const { return Vector<double>{v_[0], v_[1], v_[2]}; }
  Vector<double> getVector() const { return getValue(); }
  double operator()(size_t i) const { return v_.at(i); }
  MVPosition operator-(const MVPosition& o) const { return {v_[0] - o.v_[0], v_[1] - o.v_[1], v_[2] - o.v_[2]}; }
  MVPosition operator+(const MVPosition& o) const { return {v_[0] + o.v_[0], v_[1] + o.v_[1], v_[2] + o.v_[2]}; }
  double radius() const { return std::sqrt(v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2]); }
  bool operator==(const MVPosition& o) const { return v_ == o.v_; }
  MVPosition& operator+=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] += o.v_[i]; return *this; }
  MVPosition& operator*=(double f) { for (double& x : v_) x *= f; return *this; }
 protected:
  std::array<double, 3> v_;
};
class MVDirection : public MVPosition {
 public:
  MVDirection() : MVPosition(0, 0, 1) {}
  MVDirection(double ra, double dec) : MVPosition(std::cos(dec) * std::cos(ra), std::cos(dec) * std::sin(ra), std::sin(dec)) {}
  MVDirection(const Quantity& a, const Quantity& b) : MVDirection(a.getValue("rad"), b.getValue("rad")) {}
  MVDirection(const MVPosition& p) { const double r = p.radius(); v_ = {p(0) / r, p(1) / r, p(2) / r}; }
  double Lon() const { return std::atan2(v_[1], v_[0]); }
  double Lat() const { return std::atan2(v_[2], std::hypot(v_[0], v_[1])); }
  Vector<double> get() const { return Vector<double>{Lon(), Lat()}; }
  Quantum<Vector<double>> getAngle() const { return {get(), "rad"}; }
  Quantum<Vector<double>> getAngle(const std::string& unit) const {
    const Vector<double> a = get();
    return {Vector<double>{Quantity(a[0], "rad").getValue(unit), Quantity(a[1], "rad").getValue(unit)}, unit};
  }
  double getLong() const { return Lon(); }
  double getLat() const { return Lat(); }
  double separation(const MVDirection& o) const {
    const double x = v_[1] * o.v_[2] - v_[2] * o.v_[1], y = v_[2] * o.v_[0] - v_[0] * o.v_[2], z = v_[0] * o.v_[1] - v_[1] * o.v_[0];
    return std::atan2(std::sqrt(x * x + y * y + z * z), v_[0] * o.v_[0] + v_[1] * o.v_[1] + v_[2] * o.v_[2]);
  }
};
class MVBaseline : public MVPosition { public: MVBaseline() = default; MVBaseline(const MVPosition& p) : MVPosition(p) {} };
class MVEpoch {
 public:
  MVEpoch(double d = 0) : d_(d) {}
  MVEpoch(const Quantity& q) : d_(q.getValue("d")) {}
  double get() const { return d_; }
  Quantity getTime(const Unit& u = "d") const { return Quantity(d_, "d").get(u); }
 private:
  double d_;
};
class MEpoch;
class MPosition;
class MDirection;
// The frame keeps shared copies, as in casacore.
struct FrameData { double day = 0; bool hasEpoch = false; MVPosition pos; bool hasPos = false; MVDirection dir; };
class MeasFrame {
 public:
  MeasFrame() : d(std::make_shared<FrameData>()) {}
  template <class A> explicit MeasFrame(const A& a) : MeasFrame() { set(a); }
  template <class A, class B> MeasFrame(const A& a, const B& b) : MeasFrame() { set(a); set(b); }
  inline void set(const MEpoch& e); inline void set(const MPosition& p); inline void set(const MDirection& p);
  template <class A, class B> void set(const A& a, const B& b) { set(a); set(b); }
  inline void resetEpoch(const MEpoch& e); inline void resetDirection(const MDirection& p);
  void resetEpoch(double day) { d->day = day; d->hasEpoch = true; }
  std::shared_ptr<FrameData> d;
};
template <class M> class MeasRef {
 public:
  MeasRef() = default;
  MeasRef(int t) : type(t) {}
  MeasRef(int t, const MeasFrame& f) : type(t), frame(f), hasFrame(true) {}
  void set(const MeasFrame& f) { frame = f; hasFrame = true; }
  void set(int t) { type = t; }
  int getType() const { return type; }
  bool operator==(const MeasRef& o) const { return type == o.type; }
  const MeasFrame& getFrame() const { return frame; }
  int type = 0; MeasFrame frame; bool hasFrame = false;
};
class Measure { public: virtual ~Measure() = default; };
template <class M> class MeasConvert {
 public:
  MeasConvert() = default;
  MeasConvert(const M& m, const MeasRef<M>& r) : m_(m), r_(r) {}
  MeasConvert(const M& m, int t) : m_(m), r_(t) {}
  MeasConvert(const M& m, const MeasConvert& c) : m_(m), r_(c.r_) {}
  MeasConvert(int from, const MeasRef<M>& to) : r_(to) { m_.setType(from); }
  MeasConvert(const MeasRef<M>& from, const MeasRef<M>& to) : r_(to) { m_.set(from); }
  void set(const M& m, const MeasRef<M>& r) { m_ = m; r_ = r; }
  void setModel(const M& m) { m_ = m; }
  M operator()() const { return M::DoConvert(m_, r_); }
  template <class V> M operator()(const V& v) const { M m(m_); m.set(v); return M::DoConvert(m, r_); }
  M operator()(const M& m) const { return M::DoConvert(m, r_); }
 private:
  M m_; MeasRef<M> r_;
};
template <class M, class V> class MeasBase : public Measure {
 public:
  using Ref = MeasRef<M>; using Convert = MeasConvert<M>; using MVType = V;
  MeasBase() : ref_(std::make_shared<Ref>()) {}
  MeasBase(const V& v, const Ref& r) : v_(v), ref_(std::make_shared<Ref>(r)) {}
  MeasBase(const MeasBase& o) = default;
  MeasBase& operator=(const MeasBase&) = default;
  const V& getValue() const { return v_; }
  void set(const V& v) { v_ = v; }
  void set(const V& v, const Ref& r) { v_ = v; ref_ = std::make_shared<Ref>(r); }
  void set(const Ref& r) { ref_ = std::make_shared<Ref>(r); }
  void setType(int t) { ref_ = std::make_shared<Ref>(t); }
  Ref* getRefPtr() const { return ref_.get(); }
  const Ref& getRef() const { return *ref_; }
 protected:
  V v_; std::shared_ptr<Ref> ref_;
};
inline double EarthAngle(double day) { return 2 * C::pi * std::fmod(1.00273790935 * (day - 51544.5) + 0.779057, 1.0); }
inline MVPosition TurnZ(const MVPosition& p, double a) { return {p(0) * std::cos(a) - p(1) * std::sin(a), p(0) * std::sin(a) + p(1) * std::cos(a), p(2)}; }

class MEpoch : public MeasBase<MEpoch, MVEpoch> {
 public:
  enum Types { LAST, LMST, GMST1, GAST, UT1, UT2, UTC, TAI, TDT, TCG, TDB, TCB, DEFAULT = UTC };
  MEpoch() = default;
  MEpoch(const MVEpoch& v, int t = UTC) : MeasBase(v, Ref(t)) {}
  MEpoch(const MVEpoch& v, const Ref& r) : MeasBase(v, r) {}
  MEpoch(const Quantity& q, int t = UTC) : MeasBase(MVEpoch(q), Ref(t)) {}
  Quantity get(const Unit& u) const { return v_.getTime(u); }
  static MEpoch DoConvert(const MEpoch& m, const Ref& r) {
    double day = m.v_.get();
    // Local sidereal time: earth angle plus longitude, as a fraction of a day.
    if ((r.type == LAST || r.type == LMST) && m.getRef().type != r.type) {
      const auto& f = r.hasFrame ? r.frame : m.getRef().frame;
      double lst = (EarthAngle(day) + std::atan2(f.d->pos(1), f.d->pos(0))) / (2 * C::pi);
      day = std::floor(day) + (lst - std::floor(lst));
    }
    return MEpoch(MVEpoch(day), r);
  }
};
class MPosition : public MeasBase<MPosition, MVPosition> {
 public:
  enum Types { ITRF, WGS84, DEFAULT = ITRF };
  MPosition() = default;
  MPosition(const MVPosition& v, int t = ITRF) : MeasBase(v, Ref(t)) {}
  MPosition(const MVPosition& v, const Ref& r) : MeasBase(v, r) {}
  static MPosition DoConvert(const MPosition& m, const Ref& r) { return MPosition(m.v_, r); }
};
class MDirection : public MeasBase<MDirection, MVDirection> {
 public:
  enum Types { J2000, JMEAN, JTRUE, APP, B1950, BMEAN, BTRUE, GALACTIC, HADEC, AZEL, AZELSW, AZELGEO, AZELSWGEO, JNAT, ECLIPTIC, MECLIPTIC, TECLIPTIC, SUPERGAL, ITRF, TOPO, ICRS, N_Types,
               MERCURY = 32, VENUS, MARS, JUPITER, SATURN, URANUS, NEPTUNE, PLUTO, SUN, MOON, COMET, N_Planets, DEFAULT = J2000, AZELNE = AZEL };
  MDirection() = default;
  explicit MDirection(Types t) : MeasBase(MVDirection(), Ref(t)) {}
  MDirection(const MVDirection& v, int t = J2000) : MeasBase(v, Ref(t)) {}
  MDirection(const MVDirection& v, const Ref& r) : MeasBase(v, r) {}
  MDirection(const Quantity& a, const Quantity& b, int t = J2000) : MeasBase(MVDirection(a, b), Ref(t)) {}
  MDirection(const Quantity& a, const Quantity& b, const Ref& r) : MeasBase(MVDirection(a, b), r) {}
  Quantum<Vector<double>> getAngle() const { return {v_.get(), "rad"}; }
  Quantum<Vector<double>> getAngle(const Unit& u) const { return getAngle().get(u); }
  static const std::map<std::string, int>& Names() {
    static const std::map<std::string, int> n = {{"J2000", J2000}, {"JMEAN", JMEAN}, {"JTRUE", JTRUE}, {"APP", APP}, {"B1950", B1950}, {"GALACTIC", GALACTIC}, {"HADEC", HADEC}, {"AZEL", AZEL}, {"AZELGEO", AZELGEO}, {"ITRF", ITRF}, {"ICRS", ICRS},
      {"MERCURY", MERCURY}, {"VENUS", VENUS}, {"MARS", MARS}, {"JUPITER", JUPITER}, {"SATURN", SATURN}, {"URANUS", URANUS}, {"NEPTUNE", NEPTUNE}, {"PLUTO", PLUTO}, {"SUN", SUN}, {"MOON", MOON}};
    return n;
  }
  // The name of a moving source or of a known source.
  static MDirection makeMDirection(const std::string& s) {
    Types t;
    if (getType(t, s) && t >= MERCURY) return MDirection(t);
    if (upcase(s) == "CYGA") return MDirection(MVDirection(5.233686575770755, 0.7109409582180791));
    if (upcase(s) == "CASA") return MDirection(MVDirection(6.123487680622104, 1.0265153995604648));
    throw AipsError("MDirection::makeMDirection - unknown source name " + s);
  }
  static bool getType(Types& t, const std::string& s) { auto i = Names().find(upcase(s)); if (i == Names().end()) return false; t = Types(i->second); return true; }
  static std::string showType(int t) { for (auto& p : Names()) if (p.second == t) return p.first; return "?"; }
  std::string toString() const { std::ostringstream o; o << v_.Lon() << ' ' << v_.Lat(); return o.str(); }
  static MDirection DoConvert(const MDirection& m, const Ref& r) {
    const int from = m.getRef().type, to = r.type;
    const MeasFrame& f = r.hasFrame ? r.frame : m.getRef().frame;
    if (from == to) return MDirection(m.v_, r);
    MVDirection v = m.v_;
    auto need = [&](bool pos) { if (!f.d->hasEpoch || (pos && !f.d->hasPos)) throw AipsError("no epoch or position in the frame"); };
    if (from >= MERCURY) { need(false); const double a = 2 * C::pi * f.d->day / (200 + 10 * from); v = MVDirection(a, 0.3 * std::sin(a)); }
    else if (from == ITRF) { need(false); v = MVDirection(TurnZ(v, EarthAngle(f.d->day))); }
    else if (from == AZEL || from == AZELGEO) { need(true); v = MVDirection(TurnZ(FromAzEl(v, f.d->pos), EarthAngle(f.d->day))); }
    else if (from == GALACTIC) v = MVDirection(MVPosition(v(0), -v(2), v(1)));
    // v is J2000 now
    if (to == ITRF) { need(false); v = MVDirection(TurnZ(v, -EarthAngle(f.d->day))); }
    else if (to == AZEL || to == AZELGEO) { need(true); v = ToAzEl(MVDirection(TurnZ(v, -EarthAngle(f.d->day))), f.d->pos); }
    else if (to == GALACTIC) v = MVDirection(MVPosition(v(0), v(2), -v(1)));
    else if (to == HADEC) { need(true); MVDirection e(TurnZ(v, -EarthAngle(f.d->day) - std::atan2(f.d->pos(1), f.d->pos(0)))); v = MVDirection(-e.Lon(), e.Lat()); }
    return MDirection(v, r);
  }
 private:
  static void Axes(const MVPosition& p, MVPosition& e, MVPosition& n, MVPosition& u) {
    const double lon = std::atan2(p(1), p(0)), lat = std::atan2(p(2), std::hypot(p(0), p(1)));
    e = {-std::sin(lon), std::cos(lon), 0};
    n = {-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)};
    u = {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)};
  }
  static double Dot(const MVPosition& a, const MVPosition& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
  static MVDirection ToAzEl(const MVDirection& v, const MVPosition& p) { MVPosition e, n, u; Axes(p, e, n, u); return MVDirection(std::atan2(Dot(v, e), Dot(v, n)), std::asin(std::max(-1.0, std::min(1.0, Dot(v, u))))); }
  static MVPosition FromAzEl(const MVDirection& v, const MVPosition& p) {
    MVPosition e, n, u; Axes(p, e, n, u);
    const double ce = std::cos(v.Lat()), a = ce * std::sin(v.Lon()), b = ce * std::cos(v.Lon()), c = std::sin(v.Lat());
    return {a * e(0) + b * n(0) + c * u(0), a * e(1) + b * n(1) + c * u(1), a * e(2) + b * n(2) + c * u(2)};
  }
};
inline std::ostream& operator<<(std::ostream& os, const MDirection& d) { return os << d.toString(); }
class MBaseline : public MeasBase<MBaseline, MVBaseline> {
 public:
  enum Types { J2000, ITRF, DEFAULT = ITRF };
  MBaseline() { setType(ITRF); }
  MBaseline(const MVBaseline& v, int t = ITRF) : MeasBase(v, Ref(t)) {}
  MBaseline(const MVBaseline& v, const Ref& r) : MeasBase(v, r) {}
  static MBaseline DoConvert(const MBaseline& m, const Ref& r) {
    if (m.getRef().type == r.type) return MBaseline(m.v_, r);
    const MeasFrame& f = m.getRef().hasFrame ? m.getRef().frame : r.frame;
    return MBaseline(MVBaseline(TurnZ(m.v_, EarthAngle(f.d->day) * (r.type == J2000 ? 1 : -1))), r);
  }
};
class MVuvw : public MVPosition {
 public:
  MVuvw() = default;
  MVuvw(const MVBaseline& b, const MVDirection& d) {
    const double ra = d.Lon(), dec = d.Lat(), x = b(0), y = b(1), z = b(2);
    v_ = {-std::sin(ra) * x + std::cos(ra) * y, -std::sin(dec) * std::cos(ra) * x - std::sin(dec) * std::sin(ra) * y + std::cos(dec) * z,
          std::cos(dec) * std::cos(ra) * x + std::cos(dec) * std::sin(ra) * y + std::sin(dec) * z};
  }
};
class Muvw : public MeasBase<Muvw, MVuvw> { public: enum Types { J2000, ITRF }; Muvw(const MVuvw& v, int t) : MeasBase(v, Ref(t)) {} };
inline void MeasFrame::set(const MEpoch& e) { d->day = e.getValue().get(); d->hasEpoch = true; }
inline void MeasFrame::set(const MPosition& p) { d->pos = p.getValue(); d->hasPos = true; }
inline void MeasFrame::set(const MDirection& p) { d->dir = p.getValue(); }
inline void MeasFrame::resetEpoch(const MEpoch& e) { set(e); }
inline void MeasFrame::resetDirection(const MDirection& p) { set(p); }

// ---- records ------------------------------------------------------------
enum DataType { TpBool, TpChar, TpUChar, TpShort, TpUShort, TpInt, TpUInt, TpFloat, TpDouble, TpComplex, TpDComplex, TpString, TpTable, TpArrayInt, TpRecord, TpOther, TpInt64 };
class Table;
// Named values: numbers, strings, arrays, records and tables.
class Record {
 public:
  std::shared_ptr<Measure> m;
  std::map<std::string, double> v;
  std::map<std::string, std::string> s;
  std::map<std::string, std::shared_ptr<Record>> r;
  std::map<std::string, std::shared_ptr<Table>> t;
  std::map<std::string, Vector<String>> sa;
  std::map<std::string, Array<double>> da;
  std::map<std::string, Array<bool>> ba;
  std::map<std::string, std::shared_ptr<void>> other;
  std::vector<std::string> order;
  template <class T> void define(const std::string& n, const T& x) {
    Forget(n); order.push_back(n);
    if constexpr (std::is_convertible_v<T, std::string>) s[n] = x;
    else if constexpr (std::is_arithmetic_v<T>) v[n] = double(x);
    else if constexpr (std::is_same_v<T, Vector<String>>) sa[n].assign(x);
    else if constexpr (std::is_base_of_v<Array<double>, T>) da[n].assign(x);
    else if constexpr (std::is_base_of_v<Array<bool>, T>) ba[n].assign(x);
    else other[n] = std::make_shared<T>(x);
  }
  void defineRecord(const std::string& n, const Record& x) { Forget(n); order.push_back(n); r[n] = std::make_shared<Record>(x); }
  inline void defineTable(const std::string& n, const Table& x);
  void removeField(const std::string& n) { Need(n); Forget(n); }
  bool isDefined(const std::string& n) const { return std::find(order.begin(), order.end(), n) != order.end(); }
  uInt nfields() const { return order.size(); }
  std::string name(uInt i) const { return order.at(i); }
  DataType type(uInt i) const { const std::string& n = order.at(i); return t.count(n) ? TpTable : s.count(n) ? TpString : r.count(n) ? TpRecord : v.count(n) ? TpDouble : TpOther; }
  inline const Table& asTable(const std::string& n) const;
  inline const Table& asTable(uInt i) const;
  const std::string& asString(const std::string& n) const { return At(s, n); }
  const Record& asRecord(const std::string& n) const { return *At(r, n); }
  const Record& subRecord(uInt i) const { return *At(r, order.at(i)); }
  const Record& subRecord(const std::string& n) const { return *At(r, n); }
  const Vector<String>& asArrayString(const std::string& n) const { return At(sa, n); }
  double asDouble(const std::string& n) const { return At(v, n); }
  bool asBool(const std::string& n) const { return At(v, n) != 0; }
  const Array<double>& asArrayDouble(const std::string& n) const { return At(da, n); }
  // Also makes an array of a scalar.
  Array<double> toArrayDouble(const std::string& n) const { auto i = v.find(n); return i == v.end() ? At(da, n).copy() : Array<double>(Vector<double>(1, i->second)); }
  Array<bool> toArrayBool(const std::string& n) const { auto i = v.find(n); return i == v.end() ? At(ba, n).copy() : Array<bool>(Vector<bool>(1, i->second != 0)); }
  int asInt(const std::string& n) const { return At(v, n); }
  uInt asuInt(const std::string& n) const { return At(v, n); }

 private:
  template <class M> static const typename M::mapped_type& At(const M& m, const std::string& n) { auto i = m.find(n); if (i == m.end()) throw AipsError("no record field " + n); return i->second; }
  void Need(const std::string& n) const { if (!isDefined(n)) throw AipsError("no record field " + n); }
  void Forget(const std::string& n) { v.erase(n); s.erase(n); r.erase(n); t.erase(n); sa.erase(n); da.erase(n); ba.erase(n); other.erase(n); order.erase(std::remove(order.begin(), order.end(), n), order.end()); }
};
using TableRecord = Record;
template <class T> class RecordFieldPtr {
 public:
  RecordFieldPtr(Record& r, const std::string& n) : p_(&r.v[n]) {}
  double& operator*() { return *p_; }
 private:
  double* p_;
};
class MeasureHolder {
 public:
  MeasureHolder() = default;
  explicit MeasureHolder(const MDirection& m) : m_(std::make_shared<MDirection>(m)) {}
  explicit MeasureHolder(const MPosition& m) : m_(std::make_shared<MPosition>(m)) {}
  bool toRecord(String&, Record& r) const { r.m = m_; return bool(m_); }
  void toRecord(Record& r) const { r.m = m_; }
  bool fromRecord(String&, const Record& r) {
    if (auto d = std::dynamic_pointer_cast<MDirection>(r.m)) m_ = std::make_shared<MDirection>(d->getValue(), MDirection::Ref(d->getRef().type));
    else if (auto p = std::dynamic_pointer_cast<MPosition>(r.m)) m_ = std::make_shared<MPosition>(p->getValue(), MPosition::Ref(p->getRef().type));
    return bool(m_);
  }
  bool isMDirection() const { return bool(std::dynamic_pointer_cast<MDirection>(m_)); }
  const MDirection& asMDirection() const { return *std::dynamic_pointer_cast<MDirection>(m_); }
  const MPosition& asMPosition() const { return *std::dynamic_pointer_cast<MPosition>(m_); }
 private:
  std::shared_ptr<Measure> m_;
};

#include "casacore/tables.h"
}  // namespace casacore
using std::string;
using std::vector;
#endif
