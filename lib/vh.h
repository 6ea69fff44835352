// Common runtime of the monitoring harnesses.
//
// A harness registers one function per property; such a function runs "cases".
// Every case has its own random stream, derived from (seed, section, index),
// so that one case can be replayed on its own. The monitor records how many
// cases were run, how many distinct non-trivial ones there were, and named
// event counters; violations go to the result file with a key.
#ifndef VH_H_
#define VH_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t HashString(const std::string& s, uint64_t h = 14695981039346656037ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : state_(seed) {}
  uint64_t u64() {
    state_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [lo, hi], both inclusive.
  int64_t range(int64_t lo, int64_t hi) {
    const uint64_t span = uint64_t(hi) - uint64_t(lo);
    if (span == ~0ull) return int64_t(u64());
    return int64_t(uint64_t(lo) + u64() % (span + 1));
  }
  size_t below(size_t n) { return size_t(u64() % n); }
  bool chance(double p) { return unit() < p; }
  double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double gauss() {
    const double u = 1.0 - unit();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * unit());
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }

 private:
  uint64_t state_;
};

inline std::string JsonEscape(const std::string& s) {
  std::string out;
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(buf, sizeof buf, "\\u%04x", unsigned(c));
      out += buf;
    } else {
      out += char(c);
    }
  }
  return out;
}

class Run {
 public:
  static Run& I() {
    static Run r;
    return r;
  }
  uint64_t seed = 1;
  bool thorough = false;
  std::string property;
  std::string out_path;
  std::string only_section;
  int64_t only_index = -1;
  std::string scratch = "/tmp";

  // Number of cases: quick or thorough.
  size_t n(size_t quick, size_t thorough_n) const {
    return thorough ? thorough_n : quick;
  }

  void Count(const std::string& name, uint64_t k = 1) { counters_[name] += k; }
  // Record that the current case exercised something: canonical description.
  void Nontrivial(const std::string& canonical) {
    if (distinct_.insert(HashString(section_ + "|" + canonical)).second &&
        samples_.size() < 40) {
      std::vector<std::string>& s = samples_by_section_[section_];
      if (s.size() < 3) {
        s.push_back(canonical.substr(0, 300));
        samples_.push_back(section_ + ": " + canonical.substr(0, 300));
      }
    }
  }
  void Nontrivial() { Nontrivial(desc_); }
  void Describe(const std::string& d) {
    desc_ = d;
    if (current_) {
      const std::string s =
          section_ + "\n" + std::to_string(index_) + "\n" + d.substr(0, 3500);
      std::memcpy(current_, s.c_str(), std::min<size_t>(s.size() + 1, 4095));
    }
  }
  void Violation(const std::string& key, const std::string& msg) {
    ++violation_count_;
    if (key_counts_[key]++ >= 3) return;
    violations_.push_back("{\"key\":\"" + JsonEscape(key) + "\",\"section\":\"" +
                          JsonEscape(section_) + "\",\"index\":" +
                          std::to_string(index_) + ",\"case\":\"" +
                          JsonEscape(desc_.substr(0, 2000)) + "\",\"message\":\"" +
                          JsonEscape(msg.substr(0, 2000)) + "\"}");
    std::fprintf(stderr, "violation [%s] case %s/%ld: %s | %s\n", key.c_str(),
                 section_.c_str(), long(index_), desc_.substr(0, 600).c_str(),
                 msg.substr(0, 1200).c_str());
  }
  // Run n cases of a section.
  void Cases(const std::string& section, size_t n,
             const std::function<void(Rng&, size_t)>& f) {
    if (!only_section.empty() && section != only_section) return;
    for (size_t i = 0; i < n; ++i) {
      if (only_index >= 0 && size_t(only_index) != i) continue;
      section_ = section;
      index_ = int64_t(i);
      Describe("(no description yet)");
      ++evaluations_;
      ++counters_["cases." + section];
      Arm();
      Rng rng(Mix(seed * 0x100000001b3ull ^ HashString(section)) ^ Mix(i));
      try {
        f(rng, i);
      } catch (std::exception& e) {
        Violation(section + ":unexpected-exception", e.what());
      }
      if (violation_count_ > 200) break;
    }
  }
  const std::string& Section() const { return section_; }

  int Main(int argc, char** argv,
           const std::map<std::string, std::function<void()>>& registry) {
    for (int i = 1; i + 1 < argc; i += 2) {
      const std::string a = argv[i], v = argv[i + 1];
      if (a == "--property") property = v;
      else if (a == "--seed") seed = std::strtoull(v.c_str(), nullptr, 10);
      else if (a == "--tier") thorough = (v == "thorough");
      else if (a == "--out") out_path = v;
      else if (a == "--section") only_section = v;
      else if (a == "--index") only_index = std::atol(v.c_str());
      else if (a == "--scratch") scratch = v;
      else if (a == "--current") OpenCurrent(v);
      else {
        std::fprintf(stderr, "bad argument %s\n", a.c_str());
        return 3;
      }
    }
    auto it = registry.find(property);
    if (it == registry.end()) {
      std::fprintf(stderr, "unknown property %s\n", property.c_str());
      return 3;
    }
    it->second();
    Disarm();
    WriteResult();
    return 0;
  }

 private:
  void OpenCurrent(const std::string& path) {
    const int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) std::exit(3);
    current_ = static_cast<char*>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  static void OnHang(int) {
    static const char msg[] = "VH-HANG: case exceeded its CPU budget\n";
    ssize_t r = write(2, msg, sizeof msg - 1);
    (void)r;
    _exit(97);
  }
  void Arm() {
    // CPU time, not wall time: a loaded machine does not trigger it.
    signal(SIGPROF, OnHang);
    struct itimerval t {};
    t.it_value.tv_sec = cpu_budget_s;
    setitimer(ITIMER_PROF, &t, nullptr);
  }
  void Disarm() {
    struct itimerval t {};
    setitimer(ITIMER_PROF, &t, nullptr);
  }
  void WriteResult() {
    FILE* f = std::fopen(out_path.c_str(), "w");
    if (!f) std::exit(3);
    std::fprintf(f, "{\"evaluations\":%zu,\"distinct\":%zu,\"violation_count\":%zu,",
                 evaluations_, distinct_.size(), violation_count_);
    std::fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto& c : counters_) {
      std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",",
                   JsonEscape(c.first).c_str(), (unsigned long long)c.second);
      first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples_.size(); ++i)
      std::fprintf(f, "%s\"%s\"", i ? "," : "", JsonEscape(samples_[i]).c_str());
    std::fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < violations_.size(); ++i)
      std::fprintf(f, "%s%s", i ? "," : "", violations_[i].c_str());
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }

  std::string section_ = "none";
  int64_t index_ = -1;
  std::string desc_;
  char* current_ = nullptr;
  size_t evaluations_ = 0;
  size_t violation_count_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, uint64_t> counters_;
  std::map<std::string, size_t> key_counts_;
  std::map<std::string, std::vector<std::string>> samples_by_section_;
  std::vector<std::string> samples_;
  std::vector<std::string> violations_;

 public:
  int cpu_budget_s = 100;
};

inline Run& R() { return Run::I(); }

// Concatenate anything streamable, with full float precision.
template <class... T>
std::string S(const T&... t) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << t);
  return o.str();
}

template <class C>
std::string Join(const C& c, const char* sep = ",") {
  std::ostringstream o;
  o.precision(17);
  bool first = true;
  for (const auto& x : c) {
    if (!first) o << sep;
    o << x;
    first = false;
  }
  return o.str();
}

// True when f() throws a std::exception.
template <class F>
bool Throws(F&& f) {
  try {
    f();
  } catch (std::exception&) {
    return true;
  }
  return false;
}

}  // namespace vh

#define VH_EXPECT(cond, key, ...)                                   \
  do {                                                              \
    vh::R().Count(std::string("checks.") + (key));                  \
    if (!(cond)) vh::R().Violation((key), vh::S(__VA_ARGS__));      \
  } while (0)

#define VH_MAIN(...)                                                     \
  int main(int argc, char** argv) {                                      \
    const std::map<std::string, std::function<void()>> reg{__VA_ARGS__}; \
    return vh::Run::I().Main(argc, argv, reg);                           \
  }

#endif
