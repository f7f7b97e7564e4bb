#include "mon.h"

#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

#include <fstream>
#include <iostream>

#include "perturb.h"

namespace mon {
uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
static std::atomic<uint32_t> gTid{0};
uint32_t tid() {
  static thread_local uint32_t t = gTid++;
  return t;
}
uint64_t nowUs() {
  return std::chrono::duration_cast<std::chrono::microseconds>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

Ctx::Ctx(const std::string &sc, uint64_t sd, uint64_t i, bool th)
    : rng(mix64(sd) ^ hashStr(sc) ^ mix64(i * 7919 + 13)),
      scenario(sc), seed(sd), idx(i), thorough(th), slots_(new Slot[kMaxEv]) {}

uint64_t Ctx::log(int kind, int64_t a, int64_t b, int64_t cc) {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_SEQ_ORDER std::memory_order_relaxed
#endif
#endif
#ifndef MON_SEQ_ORDER
#define MON_SEQ_ORDER std::memory_order_seq_cst
#endif
  auto q = seq_.fetch_add(1, MON_SEQ_ORDER);
  if (q < kMaxEv) {
    auto &s = slots_[q];
    auto r = std::memory_order_relaxed;
    s.tid.store(tid(), r);
    s.kind.store(kind, r);
    s.a.store(a, r);
    s.b.store(b, r);
    s.c.store(cc, r);
    s.ready.store(1, r);
  }
  return q;
}
std::vector<Ev> Ctx::events() {
  std::vector<Ev> v;
  auto n = std::min<uint64_t>(seq_.load(), kMaxEv);
  auto r = std::memory_order_relaxed;
  for (uint64_t i = evBase_; i < n; ++i) {
    auto &s = slots_[i];
    eventually([&] { return s.ready.load(r) != 0; }, 5000);
    v.push_back({i, s.tid.load(r), s.kind.load(r), s.a.load(r), s.b.load(r), s.c.load(r)});
  }
  return v;
}
void Ctx::clearEvents() { evBase_ = std::min<uint64_t>(seq_.load(), kMaxEv); }
uint64_t Ctx::eventCount() { return seq_.load(); }
void Ctx::sign() {
  uint64_t h = 7;
  std::map<uint32_t, uint64_t> canon;
  auto evs = events();
  std::lock_guard<std::mutex> l(mu_);
  for (auto &e : evs) {
    auto t = canon.emplace(e.tid, canon.size()).first->second;
    h = mix64(h ^ (t * 1000003) ^ ((uint64_t)e.kind << 32) ^ (uint64_t)e.a * 31);
  }
  sigs_.insert(h);
}
void Ctx::sign(uint64_t h) {
  std::lock_guard<std::mutex> l(mu_);
  sigs_.insert(mix64(h));
}
void Ctx::observe(const std::string &what, uint64_t n) {
  std::lock_guard<std::mutex> l(mu_);
  obs_[what] += n;
}
void Ctx::note(const std::string &s) {
  std::lock_guard<std::mutex> l(mu_);
  if (sample_.empty()) sample_ = s.substr(0, 400);
}

static std::string gOut;
static std::mutex gFailMu;
static void emit(const std::string &line) {
  if (!gOut.empty()) {
    std::ofstream f(gOut, std::ios::app);
    f << line << "\n";
  }
  fprintf(stderr, "%s\n", line.c_str());
  fflush(stderr);
}
static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
void Ctx::fail(const std::string &key, const std::string &msg) {
  {
    std::lock_guard<std::mutex> l(gFailMu);
    if (!failed_.exchange(true)) {
      std::ostringstream os;
      os << "{\"type\":\"fail\",\"scenario\":\"" << scenario << "\",\"case\":" << idx
         << ",\"key\":\"" << esc(key) << "\",\"msg\":\"" << esc(msg.substr(0, 1500)) << "\"}";
      emit(os.str());
    }
  }
}

struct Sc { CaseFn fn; int timeout; };
static std::map<std::string, Sc> &reg() {
  static std::map<std::string, Sc> r;
  return r;
}
Registrar::Registrar(const char *name, CaseFn fn, int t) { reg()[name] = {fn, t}; }

static std::atomic<uint64_t> gDeadline{0};
static std::atomic<uint64_t> gCase{0};
static std::string gScenario;
static void watchdog() {
  for (;;) {
    usleep(100000);
    auto d = gDeadline.load();
    if (d && nowUs() > d) {
      std::ostringstream os;
      os << "{\"type\":\"fail\",\"scenario\":\"" << gScenario << "\",\"case\":" << gCase.load()
         << ",\"key\":\"hang\",\"msg\":\"case did not finish in its time limit\"}";
      emit(os.str());
      if (getenv("MON_HANG_ABORT")) kill(getpid(), SIGABRT);
      _exit(77);
    }
  }
}
void quit() { fflush(nullptr); _exit(1); }
bool perturbing() { return pert::armed(); }
void jitter(Rng &r) {
  switch (r.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: napUs((int)r.below(30)); break;
    case 2: napUs((int)r.below(300)); break;
    default: break;
  }
}
}  // namespace mon

int main(int argc, char **argv) {
  using namespace mon;
  std::string scenario;
  uint64_t seed = 1, cases = 10, start = 0, stride = 1;
  bool thorough = false;
  int budget = 0;
  std::string pmode = "none";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--scenario") scenario = nx();
    else if (a == "--seed") seed = std::stoull(nx());
    else if (a == "--cases") cases = std::stoull(nx());
    else if (a == "--start") start = std::stoull(nx());
    else if (a == "--stride") stride = std::stoull(nx());
    else if (a == "--thorough") thorough = true;
    else if (a == "--budget") budget = std::stoi(nx());
    else if (a == "--perturb") pmode = nx();
    else if (a == "--out") gOut = nx();
    else if (a == "--list") {
      for (auto &r : reg()) std::cout << r.first << "\n";
      return 0;
    }
  }
  auto it = reg().find(scenario);
  if (it == reg().end()) {
    std::cerr << "unknown scenario " << scenario << "\n";
    return 99;
  }
  gScenario = scenario;
  std::thread(watchdog).detach();
  uint64_t done = 0, nontriv = 0, checks = 0, evs = 0;
  std::map<std::string, uint64_t> obs;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  bool failed = false;
  auto t0 = nowUs();
  for (uint64_t k = 0; k < cases; ++k) {
    if (budget && nowUs() - t0 > (uint64_t)budget * 1000000ULL) break;
    uint64_t idx = start + k * stride;
    gCase = idx;
    gDeadline = nowUs() + (uint64_t)it->second.timeout * 1000000ULL;
    Ctx c(scenario, seed, idx, thorough);
    pert::beginCase(pmode, mix64(seed * 1315423911ULL + idx));
    it->second.fn(c);
    pert::endCase();
    gDeadline = 0;
    done++;
    checks += c.checks_;
    evs += c.seq_;
    if (c.nontrivial_) nontriv++;
    for (auto &o : c.obs_) obs[o.first] += o.second;
    for (auto s : c.sigs_) if (sigs.size() < 2000000) sigs.insert(s);
    if (!c.sample_.empty() && samples.size() < 3) samples.push_back(c.sample_);
    if (c.failed()) { failed = true; break; }
  }
  std::ostringstream os;
  os << "{\"type\":\"summary\",\"scenario\":\"" << scenario << "\",\"cases\":" << done
     << ",\"nontrivial\":" << nontriv << ",\"checks\":" << checks << ",\"events\":" << evs
     << ",\"distinct\":" << sigs.size() << ",\"edges\":" << pert::edgesHit()
     << ",\"delays\":" << pert::delaysInjected() << ",\"obs\":{";
  bool first = true;
  for (auto &o : obs) {
    os << (first ? "" : ",") << "\"" << esc(o.first) << "\":" << o.second;
    first = false;
  }
  os << "},\"sigs\":[";
  first = true;
  size_t n = 0;
  for (auto s : sigs) {
    if (++n > 20000) break;
    os << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\"";
    first = false;
  }
  os << "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) os << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
  os << "]}";
  if (!gOut.empty()) {
    std::ofstream f(gOut, std::ios::app);
    f << os.str() << "\n";
  } else {
    std::cout << os.str().substr(0, 1500) << "\n";
  }
  fflush(nullptr);
  if (failed) _exit(1);
  // Leak checking (ASan) happens in exit(); thread watchdog is detached.
  if (getenv("MON_FAST_EXIT")) _exit(0);
  return 0;
}
