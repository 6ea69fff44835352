// Stand-in for schaapcommon's thread pool and parallel loops. It starts real
// threads, and varies how the work is divided.
#ifndef VERIF_THREADPOOL
#define VERIF_THREADPOOL
#include <aocommon/system.h>
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <exception>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
namespace schaapcommon {
class ThreadPool {
 public:
  static ThreadPool& GetInstance() { static ThreadPool p; return p; }
  size_t NThreads() const { return n_; }
  void SetNThreads(size_t n) { n_ = std::min<size_t>(n ? n : 1, limit_); }
  // For the harness: the number of threads whatever the code under test asks.
  void Force(size_t n) { limit_ = n; n_ = n; }
  void StartParallelExecution(std::function<void(size_t)> f) {
    f_ = std::move(f);
    for (size_t i = 1; i < n_; ++i) threads_.emplace_back([this, i] { Run(i); });
  }
  void FinishParallelExecution() {
    Run(0);
    for (auto& t : threads_) t.join();
    threads_.clear();
    f_ = nullptr;
    std::exception_ptr e; std::swap(e, error_);
    if (e) std::rethrow_exception(e);
  }
  void ExecuteInParallel(std::function<void(size_t)> f) { StartParallelExecution(std::move(f)); FinishParallelExecution(); }
  // Inside a parallel loop, a nested loop runs in the calling thread.
  static int& Depth() { static thread_local int d = 0; return d; }
 private:
  void Run(size_t i) { struct In { In() { ++Depth(); } ~In() { --Depth(); } } in; try { f_(i); } catch (...) { std::lock_guard<std::mutex> l(m_); error_ = std::current_exception(); } }
  size_t n_ = 2, limit_ = 3;
  std::function<void(size_t)> f_;
  std::vector<std::thread> threads_;
  std::mutex m_;
  std::exception_ptr error_;
};
// The range in at most n_threads parts, each run by one thread.
template <class F> void Constrained(size_t start, size_t end, size_t n_threads, F& f) {
  if (start >= end) return;
  const size_t count = end - start, n = std::max<size_t>(1, std::min({n_threads, count, ThreadPool::GetInstance().NThreads()}));
  auto part = [&](size_t t) {
    const size_t a = start + count * t / n, b = start + count * (t + 1) / n;
    if constexpr (std::is_invocable_v<F, size_t, size_t, size_t>) f(a, b, t); else f(a, b);
  };
  if (n == 1 || ThreadPool::Depth() > 0) { for (size_t t = 0; t < n; ++t) part(t); return; }
  ThreadPool::GetInstance().ExecuteInParallel([&](size_t t) { if (t < n) part(t); });
}
template <class T, class F> void RunConstrainedStaticFor(T start, T end, size_t n_threads, F f) { Constrained(size_t(start), size_t(end), n_threads, f); }
template <class T, class F> void RunStaticFor(T start, T end, F f) { Constrained(size_t(start), size_t(end), ThreadPool::GetInstance().NThreads(), f); }
template <typename Iter>
class StaticFor {
 public:
  template <class F> void ConstrainedRun(Iter start, Iter end, size_t n_threads, F f) { Constrained(size_t(start), size_t(end), n_threads, f); }
  void Run(Iter start, Iter end, std::function<void(Iter, Iter)> f) { Run(start, end, [&](Iter a, Iter b, size_t) { f(a, b); }); }
  void Run(Iter start, Iter end, std::function<void(Iter, Iter, size_t)> f) {
    const size_t count = end > start ? size_t(end - start) : 0, n = std::min(count, ThreadPool::GetInstance().NThreads());
    if (n <= 1) { if (count) f(start, end, 0); return; }
    ThreadPool::GetInstance().ExecuteInParallel([&](size_t t) { if (t < n) f(start + Iter(count * t / n), start + Iter(count * (t + 1) / n), t); });
  }
};
template <typename Iter>
class DynamicFor {
 public:
  void Run(Iter start, Iter end, std::function<void(Iter)> f) { Run(start, end, [&](Iter a, size_t) { f(a); }); }
  void Run(Iter start, Iter end, std::function<void(Iter, size_t)> f) {
    if (!(end > start)) return;
    if (end - start == Iter(1)) { f(start, 0); return; }
    std::atomic<size_t> next{0};
    const size_t count = size_t(end - start);
    ThreadPool::GetInstance().ExecuteInParallel([&](size_t t) { for (size_t i; (i = next++) < count;) f(start + Iter(i), t); });
  }
};
class RecursiveFor {
 public:
  static RecursiveFor* GetInstance() { return nullptr; }
  template <class A, class B, class F> void Run(A start, B end, F f) { Loop(start, end, f); }
  template <class A, class B, class F> void ConstrainedRun(A start, B end, size_t n_threads, F f) {
    if constexpr (std::is_invocable_v<F, size_t, size_t, size_t>) Constrained(start, end, n_threads, f); else Loop(start, end, f);
  }
  template <class A, class B, class F> static void NestedRun(A start, B end, F f) {
    for (size_t i = start; i < size_t(end); ++i) Call(f, i, 0);
  }

 private:
  template <class F> static void Call(F& f, size_t i, size_t thread) {
    if constexpr (std::is_invocable_v<F, size_t, size_t>) f(i, thread); else f(i);
  }
  template <class F> static void Loop(size_t start, size_t end, F& f) {
    if (start >= end) return;
    DynamicFor<size_t>().Run(start, end, [&](size_t i, size_t thread) { Call(f, i, thread); });
  }
};
}
#endif
