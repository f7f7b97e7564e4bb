// Compiled WITHOUT coverage instrumentation.
#include "perturb.h"

#include <sched.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <vector>

namespace pert {
static constexpr uint32_t MAXG = 1 << 17;
static std::atomic<uint8_t> hit[MAXG];
static std::atomic<uint32_t> nGuards{0};
static std::atomic<uint64_t> edges{0}, delays{0};
static std::atomic<int> mode{0};  // 0 none 1 random 2 target 3 both
static std::atomic<uint64_t> caseSeed{0}, caseNo{0};
static constexpr int NT = 3;
struct Target {
  std::atomic<uint32_t> guard{0};
  std::atomic<int> skip{0};    // hits to let pass
  std::atomic<int> budget{0};  // delays left
  std::atomic<uint32_t> us{0};
};
static Target targets[NT];
static std::vector<uint32_t> known;  // edges hit in earlier cases (main thread only)
static uint32_t scanned = 0;
static uint64_t sm(uint64_t &s) {
  s += 0x9e3779b97f4a7c15ULL;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void napNs(uint64_t us) {
  timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  nanosleep(&ts, nullptr);
}
void beginCase(const std::string &m, uint64_t seed) {
  int mm = m == "random" ? 1 : m == "target" ? 2 : m == "both" ? 3 : 0;
  mode = 0;
  if (m == "mix") {  // alternate per case
    uint64_t t = seed;
    mm = (int)(sm(t) % 4);
  }
  caseSeed = seed;
  caseNo++;
  for (auto &t : targets) t.budget = 0;
  if (mm & 2) {
    known.clear();
    uint32_t n = nGuards.load();
    for (uint32_t i = 1; i <= n && i < MAXG; ++i)
      if (hit[i].load(std::memory_order_relaxed)) known.push_back(i);
    if (!known.empty()) {
      uint64_t s = seed ^ 0xabcdef;
      int k = 1 + (int)(sm(s) % NT);
      for (int i = 0; i < k; ++i) {
        auto &t = targets[i];
        t.guard = known[sm(s) % known.size()];
        // mostly the first few hits, sometimes a much later one
        int r = (int)(sm(s) % 10);
        t.skip = r < 4 ? 0 : r < 7 ? (int)(sm(s) % 4) : (int)(sm(s) % 60);
        t.us = (uint32_t[]){200, 600, 1500, 4000}[sm(s) % 4];
        t.budget = 1 + (int)(sm(s) % 3);
      }
    }
  }
  mode = mm;
}
void endCase() { mode = 0; }
static std::atomic<int> ioPct{0};
static std::atomic<uint64_t> ioN{0}, shortIo{0};
void shortIoPercent(int pct) { ioPct = pct; }
uint64_t shortIos() { return shortIo; }
// what a loaded kernel may do as well: transfer less than asked for
static size_t shorten(int fd, size_t n) {
  int pct = ioPct.load(std::memory_order_relaxed);
  if (!pct || n <= 64) return n;
  uint64_t s = caseSeed.load(std::memory_order_relaxed) + ioN.fetch_add(1, std::memory_order_relaxed) * 77;
  if ((int)(sm(s) % 100) >= pct) return n;
  struct stat st;
  if (fstat(fd, &st) || !S_ISSOCK(st.st_mode)) return n;
  shortIo.fetch_add(1, std::memory_order_relaxed);
  return 16 + sm(s) % (n - 16);
}
bool armed() { return mode.load() != 0; }
uint64_t edgesHit() { return edges; }
uint64_t delaysInjected() { return delays; }

static void onEdge(uint32_t g) {
  if (g < MAXG && !hit[g].load(std::memory_order_relaxed)) {
    if (!hit[g].exchange(1, std::memory_order_relaxed)) edges.fetch_add(1, std::memory_order_relaxed);
  }
  int m = mode.load(std::memory_order_relaxed);
  if (!m) return;
  if (m & 2) {
    for (auto &t : targets) {
      if (t.guard.load(std::memory_order_relaxed) == g && t.budget.load(std::memory_order_relaxed) > 0) {
        if (t.skip.fetch_sub(1, std::memory_order_relaxed) > 0) continue;
        if (t.budget.fetch_sub(1, std::memory_order_relaxed) > 0) {
          delays.fetch_add(1, std::memory_order_relaxed);
          napNs(t.us.load(std::memory_order_relaxed));
        }
      }
    }
  }
  if (m & 1) {
    static thread_local uint64_t s = 0, forCase = 0;
    auto cn = caseNo.load(std::memory_order_relaxed);
    if (forCase != cn || !s) {
      forCase = cn;
      s = caseSeed.load(std::memory_order_relaxed) ^ ((uint64_t)(uintptr_t)&s);
    }
    uint64_t r = sm(s);
    if ((r & 0x3f) == 0) {
      delays.fetch_add(1, std::memory_order_relaxed);
      if ((r >> 8 & 7) == 0) napNs((r >> 16) % 150);
      else sched_yield();
    }
  }
}
}  // namespace pert

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_read(int fd, void *b, size_t n) { return __real_read(fd, b, pert::shorten(fd, n)); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return __real_write(fd, b, pert::shorten(fd, n)); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return __real_recv(fd, b, pert::shorten(fd, n), f); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return __real_send(fd, b, pert::shorten(fd, n), f); }
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *p = start; p < stop; ++p) *p = ++pert::nGuards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (*guard) pert::onEdge(*guard);
}
