// C07: a parameter set shared between threads. Built with ThreadSanitizer; the
// histories are checked against a sequential reading as well.
#include "vh.h"

#include <atomic>
#include <barrier>
#include <thread>

#include "common/ParameterSet.h"

using namespace dp3::common;
using vh::R;
using vh::Rng;
using vh::S;

namespace {

void Jitter(Rng& r) {
  const size_t k = r.below(8);
  if (k == 0) std::this_thread::yield();
  else if (k == 1) for (volatile int i = 0; i < int(r.below(300)); ++i) {}
}

struct Event {
  int thread;
  int op;      // 0 add-ok, 1 add-refused, 2 get-found, 3 get-default, 4 defined, 5 not defined
  int key;
  uint64_t begin, end;
  std::string value;
};

void C07() {
  R().Cases("shared", R().n(60, 1500), [](Rng& r, size_t) {
    const size_t n_threads = 2 + r.below(6);
    const size_t n_keys = 6 + r.below(30);
    const size_t n_ops = 40 + r.below(120);
    ParameterSet ps;
    ParameterSet source;
    auto key = [](size_t k) { return "step" + std::to_string(k % 4) + ".key" + std::to_string(k); };
    // Some keys exist from the start; "quiet" keys are never asked for.
    std::vector<char> initial(n_keys, 0);
    for (size_t k = 0; k < n_keys; ++k)
      if (r.chance(0.3)) {
        ps.add(key(k), S("init", k));
        initial[k] = 1;
      }
    for (int q = 0; q < 5; ++q) ps.add(S("quiet.q", q), "1");
    for (int q = 0; q < 5; ++q) source.add(S("s", q), S("sv", q));
    std::atomic<uint64_t> clock{0};
    std::vector<std::vector<Event>> logs(n_threads);
    std::barrier sync(static_cast<std::ptrdiff_t>(n_threads));
    std::vector<uint64_t> seeds;
    for (size_t t = 0; t < n_threads; ++t) seeds.push_back(r.u64());
    R().Describe(S(n_threads, " threads, ", n_keys, " keys, ", n_ops, " operations each"));
    std::vector<std::string> problems(n_threads);
    std::vector<std::thread> threads;
    for (size_t t = 0; t < n_threads; ++t)
      threads.emplace_back([&, t] {
        Rng q(seeds[t]);
        sync.arrive_and_wait();
        for (size_t i = 0; i < n_ops; ++i) {
          Jitter(q);
          const size_t k = q.below(n_keys);
          Event e{int(t), 0, int(k), clock.fetch_add(1, std::memory_order_relaxed), 0, ""};
          switch (q.below(12)) {
            case 0: case 1: case 2: {
              e.value = S("t", t, "o", i);
              bool refused = false;
              try { ps.add(key(k), e.value); } catch (std::exception&) { refused = true; }
              e.op = refused ? 1 : 0;
              break;
            }
            case 3: case 4: case 5: {
              e.value = ps.getString(key(k), "<none>");
              e.op = e.value == "<none>" ? 3 : 2;
              break;
            }
            case 6: {
              try { e.value = ps.getString(key(k)); e.op = 2; } catch (std::exception&) { e.op = 3; }
              break;
            }
            case 7: e.op = ps.isDefined(key(k)) ? 4 : 5; break;
            case 8: {
              ParameterSet sub = ps.makeSubset(S("step", k % 4, "."));
              const std::string leaf = S("key", k);
              e.value = sub.getString(leaf, "<none>");
              e.op = e.value == "<none>" ? 3 : 2;
              break;
            }
            case 9: {
              const auto unused = ps.unusedKeys();
              size_t quiet = 0;
              for (auto& u : unused) quiet += u.rfind("quiet.", 0) == 0;
              if (quiet != 5) problems[t] = S("a key nobody asked for is not reported unused (", quiet, "/5)");
              e.op = -1;
              break;
            }
            case 10: {
              std::string b;
              ps.writeBuffer(b);
              if (b.find("quiet.q0=1") == std::string::npos) problems[t] = "a written set misses a key";
              ps.locateModule("step1");
              ps.fullModuleName("step1");
              e.op = -1;
              break;
            }
            default: {
              // Every thread adopts into the shared set under its own prefix,
              // while others still add to the source.
              if (q.chance(0.5)) ps.adoptCollection(source, S("ad", t, "x", i, "."));
              else { try { source.add(S("n", t, "x", i), "1"); } catch (std::exception&) { problems[t] = "unique key refused"; } }
              e.op = -1;
            }
          }
          e.end = clock.fetch_add(1, std::memory_order_relaxed);
          if (e.op >= 0) logs[t].push_back(e);
        }
      });
    for (auto& t : threads) t.join();
    for (auto& p : problems) VH_EXPECT(p.empty(), "concurrent-query", p);
    // Offline check of the recorded history, key by key.
    std::vector<std::vector<Event>> by_key(n_keys);
    size_t events = 0, concurrent = 0;
    for (auto& l : logs)
      for (auto& e : l) by_key[size_t(e.key)].push_back(e), ++events;
    for (size_t k = 0; k < n_keys; ++k) {
      std::string value = initial[k] ? S("init", k) : "";
      uint64_t add_begin = 0, add_end = 0;
      size_t adds = 0;
      bool present = initial[k];
      for (auto& e : by_key[k])
        if (e.op == 0) {
          ++adds;
          value = e.value;
          add_begin = e.begin;
          add_end = e.end;
          present = true;
        }
      VH_EXPECT(adds + (initial[k] ? 1 : 0) <= 1, "added-twice", "key ", k, " was added ", adds, " times");
      for (auto& e : by_key[k]) {
        const bool sees = e.op == 1 || e.op == 2 || e.op == 4;
        const bool misses = e.op == 3 || e.op == 5;
        if (e.begin < add_end && e.end > add_begin && e.op != 0) ++concurrent;
        if (e.op == 2) VH_EXPECT(e.value == value, "wrong-value", "key ", k, " gave '", e.value, "' expected '", value, "'");
        if (sees) VH_EXPECT(present && e.end > add_begin, "seen-before-added", "key ", k);
        if (misses) VH_EXPECT(!present || (!initial[k] && e.begin < add_end), "lost-after-added", "key ", k);
        if (e.op == 1) VH_EXPECT(present, "refused-but-absent", "key ", k);
      }
      // Final state.
      VH_EXPECT(ps.isDefined(key(k)) == present, "final-presence", "key ", k);
      if (present) VH_EXPECT(ps.getString(key(k)) == value, "final-value", "key ", k);
    }
    R().Count("history events", events);
    R().Count("operations overlapping the add of their key", concurrent);
    if (concurrent) {
      std::string sig;
      for (auto& b : by_key) { std::sort(b.begin(), b.end(), [](const Event& x, const Event& y) { return x.begin < y.begin; }); for (auto& e : b) sig += char('a' + e.op), sig += char('0' + e.thread); }
      R().Nontrivial(S(n_threads, " threads/", n_keys, " keys: ", sig));
    }
  });
  R().Cases("lookups", R().n(40, 800), [](Rng& r, size_t) {
    // Read-only sharing: all threads read, the used-key bookkeeping must end
    // up exact.
    const size_t n_threads = 2 + r.below(7);
    ParameterSet ps;
    const size_t n_keys = 20 + r.below(60);
    for (size_t k = 0; k < n_keys; ++k) ps.add(S("k", k), S(k));
    std::vector<std::vector<size_t>> asked(n_threads);
    std::set<size_t> all;
    for (auto& a : asked)
      for (size_t i = 0; i < n_keys / 3 + 1; ++i) { a.push_back(r.below(n_keys)); all.insert(a.back()); }
    R().Describe(S(n_threads, " readers of ", n_keys, " keys"));
    R().Nontrivial(S(n_threads, "/", n_keys, "/", all.size(), "/", r.u64()));
    std::barrier sync(static_cast<std::ptrdiff_t>(n_threads));
    std::vector<std::thread> threads;
    std::atomic<int> wrong{0};
    for (size_t t = 0; t < n_threads; ++t)
      threads.emplace_back([&, t] {
        sync.arrive_and_wait();
        for (size_t k : asked[t]) {
          const std::string key = S("k", k);
          bool ok = true;
          switch (k % 6) {
            case 0: ok = ps.getInt(key) == int(k); break;
            case 1: ok = ps.getDouble(key, -1) == double(k); break;
            case 2: ok = ps.getUint(key, 9999u) == k; break;
            case 3: ok = ps.getIntVector(key) == std::vector<int>{int(k)}; break;
            case 4: ok = ps.getStringVector(key, std::vector<std::string>()) == std::vector<std::string>{S(k)}; break;
            default: ok = ps.get(key).get() == S(k);
          }
          if (!ok) ++wrong;
        }
      });
    for (auto& t : threads) t.join();
    VH_EXPECT(wrong == 0, "wrong-lookup", wrong.load(), " lookups gave a wrong value");
    const auto unused = ps.unusedKeys();
    VH_EXPECT(unused.size() == n_keys - all.size(), "unused-count", unused.size(), " unused keys, expected ", n_keys - all.size());
    for (auto& u : unused) VH_EXPECT(!all.count(size_t(std::atoi(u.c_str() + 1))), "unused-wrong", u);
  });
}
}  // namespace

VH_MAIN({"C07", C07})
