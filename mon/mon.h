// Monitor runtime shared by all harnesses: seeded RNG, event trace, violation
// reporting, per-case watchdog, coverage counters.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace mon {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
#ifdef MON_TSAN
constexpr bool kTsan = true;
#else
constexpr bool kTsan = false;
#endif

uint64_t mix64(uint64_t x);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed + 0x9e3779b97f4a7c15ULL)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix64(s);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  Rng fork() { return Rng(next()); }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto &c : r) c = (char)next();
    return r;
  }
};

// One recorded event of the online trace.
struct Ev {
  uint64_t seq;
  uint32_t tid;
  int kind;
  int64_t a, b, c;
};

class Ctx {
 public:
  Ctx(const std::string &scenario, uint64_t seed, uint64_t idx, bool thorough);
  Rng rng;
  std::string scenario;
  uint64_t seed, idx;
  bool thorough;

  // trace --------------------------------------------------------------
  uint64_t log(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
  std::vector<Ev> events();
  void clearEvents();
  uint64_t eventCount();
  // folds the trace order (thread, kind, a) into the distinct-interleaving set
  void sign();
  void sign(uint64_t h);   // any other state signature

  // verdicts -----------------------------------------------------------
  void fail(const std::string &key, const std::string &msg);
  bool failed() const { return failed_.load(std::memory_order_relaxed); }
  template <class... A>
  void expect(bool ok, const std::string &key, A &&...a) {
    checks_.fetch_add(1, std::memory_order_relaxed);
    if (!ok) {
      std::ostringstream os;
      (os << ... << a);
      fail(key, os.str());
    }
  }
  // how many times an oracle predicate was evaluated
  void checked(uint64_t n = 1) { checks_.fetch_add(n, std::memory_order_relaxed); }
  // named observation counters, reported in evidence
  void observe(const std::string &what, uint64_t n = 1);
  // marks the case as non-trivial (the interesting situation really happened)
  void nontrivial() { nontrivial_.store(true, std::memory_order_relaxed); }
  void note(const std::string &sample);

  // internals
  std::atomic<uint64_t> checks_{0};
  std::atomic<bool> failed_{false}, nontrivial_{false};
  std::mutex mu_;
  // Lock-free so that recording creates no happens-before edges that would hide
  // races of the code under test from ThreadSanitizer.
  struct Slot {
    std::atomic<uint32_t> ready{0}, tid{0};
    std::atomic<int> kind{0};
    std::atomic<int64_t> a{0}, b{0}, c{0};
  };
  static constexpr uint64_t kMaxEv = 1 << 16;
  std::unique_ptr<Slot[]> slots_;
  uint64_t evBase_ = 0;
  std::map<std::string, uint64_t> obs_;
  std::set<uint64_t> sigs_;
  std::string sample_;
  std::atomic<uint64_t> seq_{0};
};

using CaseFn = std::function<void(Ctx &)>;
struct Registrar {
  Registrar(const char *name, CaseFn fn, int perCaseTimeoutSec = 40);
};
#define SCENARIO(name)                                          \
  static void name##_fn(mon::Ctx &c);                           \
  static mon::Registrar name##_reg(#name, name##_fn);           \
  static void name##_fn([[maybe_unused]] mon::Ctx &c)
#define SCENARIO_T(name, secs)                                  \
  static void name##_fn(mon::Ctx &c);                           \
  static mon::Registrar name##_reg(#name, name##_fn, secs);     \
  static void name##_fn([[maybe_unused]] mon::Ctx &c)

uint32_t tid();
inline void napUs(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
uint64_t nowUs();  // steady clock

// Waits (bounded) for a predicate; returns whether it became true.
template <class P>
bool eventually(P p, int ms = 15000) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  int spin = 0;
  while (!p()) {
    if (std::chrono::steady_clock::now() > end) return p();
    if (++spin < 50) std::this_thread::yield();
    else napUs(spin < 500 ? 50 : 500);
  }
  return true;
}

// Start barrier for threads.
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return open; });
  }
  void release() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

// Is the schedule perturbation armed in this process?
bool perturbing();
// ends the process after a violation that leaves threads stuck
[[noreturn]] void quit();
// explicit random delay point for harness threads
void jitter(Rng &r);

}  // namespace mon
