// Stand-in for aocommon/queue.h (the library is not installed here).
#ifndef AOCOMMON_QUEUE_H_
#define AOCOMMON_QUEUE_H_
#include <cassert>
#include <deque>
namespace aocommon {
template <class T> class Queue {
 public:
  void PushBack(const T& t) { q_.push_back(t); }
  void PushBack(T&& t) { q_.push_back(std::move(t)); }
  void PopFront() { q_.pop_front(); }
  void Clear() { q_.clear(); }
  bool Empty() const { return q_.empty(); }
  size_t Size() const { return q_.size(); }
  T& operator[](size_t i) { return q_.at(i); }
  const T& operator[](size_t i) const { return q_.at(i); }
  auto begin() { return q_.begin(); }
  auto end() { return q_.end(); }
  auto begin() const { return q_.begin(); }
  auto end() const { return q_.end(); }
 private:
  std::deque<T> q_;
};
}
#endif
