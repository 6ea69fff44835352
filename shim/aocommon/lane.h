// Stand-in for aocommon::Lane: a bounded queue between threads.
#ifndef VERIF_AOLANE
#define VERIF_AOLANE
#include <condition_variable>
#include <deque>
#include <mutex>
namespace aocommon {
template <class T>
class Lane {
 public:
  using value_type = T; using size_type = size_t;
  Lane() : cap_(0) {}
  explicit Lane(size_t n) : cap_(n) {}
  void resize(size_t n) { std::lock_guard<std::mutex> l(m_); cap_ = n; q_.clear(); end_ = false; }
  void clear() { std::lock_guard<std::mutex> l(m_); q_.clear(); end_ = false; }
  template <class U> void write(U&& v) { emplace(std::forward<U>(v)); }
  template <class... A> void emplace(A&&... a) {
    std::unique_lock<std::mutex> l(m_);
    w_.wait(l, [&] { return q_.size() < cap_ || end_; });
    if (!end_) q_.emplace_back(std::forward<A>(a)...);
    r_.notify_one();
  }
  void write(const T* e, size_t n) { for (size_t i = 0; i < n; ++i) write(e[i]); }
  void move_write(T* e, size_t n) { for (size_t i = 0; i < n; ++i) write(std::move(e[i])); }
  bool read(T& v) {
    std::unique_lock<std::mutex> l(m_);
    r_.wait(l, [&] { return !q_.empty() || end_; });
    if (q_.empty()) return false;
    v = std::move(q_.front()); q_.pop_front(); w_.notify_one();
    return true;
  }
  size_t read(T* v, size_t n) {
    std::unique_lock<std::mutex> l(m_);
    size_t k = 0;
    while (k < n) {
      r_.wait(l, [&] { return !q_.empty() || end_; });
      if (q_.empty()) break;
      for (; k < n && !q_.empty(); ++k) { v[k] = std::move(q_.front()); q_.pop_front(); }
      w_.notify_all();
    }
    return k;
  }
  void write_end() { std::lock_guard<std::mutex> l(m_); end_ = true; r_.notify_all(); w_.notify_all(); }
  void wait_for_empty() {}
  size_t size() const { std::lock_guard<std::mutex> l(m_); return q_.size(); }
  bool empty() const { return size() == 0; }
  size_t capacity() const { return cap_; }
  bool is_end() const { std::lock_guard<std::mutex> l(m_); return end_; }
 private:
  mutable std::mutex m_; std::condition_variable r_, w_; std::deque<T> q_; size_t cap_; bool end_ = false;
};
}
#endif
