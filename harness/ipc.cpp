// P13 / P14: local IPC transport
#include <dirent.h>
#include <pthread.h>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include <cstring>

#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSender.h"
#include "mon.h"
#include "perturb.h"

using mon::Ctx;
using mon::Rng;
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using Receiver = local::LocalIPCBufferReceiver;
using Sender = local::LocalIPCBufferSender;
using Buffer = maf::srz::Buffer;
using sclk = std::chrono::steady_clock;
using ms = std::chrono::milliseconds;

namespace {
// SIGPIPE keeps its default action: the library must not let it kill the process
std::string uniq(Ctx &c, const char *what) {
  static std::atomic<int> n{0};
  return "mafv." + std::to_string(getpid()) + "." + std::to_string(n++) + "." + what + std::to_string(c.rng.below(1000000));
}
struct Head {
  uint32_t magic = 0x4d41465f, sender = 0, seq = 0, to = 0, len = 0;
  uint64_t sum = 0;
};
uint64_t sumOf(const char *p, size_t n) {
  uint64_t h = 99;
  for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ULL;
  return h;
}
Buffer frame(Rng &r, uint32_t sender, uint32_t seq, uint32_t to, size_t body) {
  Head h;
  h.sender = sender;
  h.seq = seq;
  h.to = to;
  h.len = (uint32_t)body;
  Buffer b(sizeof h + body, 0);
  uint64_t x = r.next();
  for (size_t i = 0; i < body; ++i) b[sizeof h + i] = (char)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 33);
  h.sum = sumOf(b.data() + sizeof h, body);
  std::memcpy(b.data(), &h, sizeof h);
  return b;
}
size_t bodySize(Rng &r) {
  switch (r.below(12)) {
    case 0: return 0;
    case 1: return r.below(1 << 20);
    case 2: return 200000 + r.below(100000);
    case 3: return 4096 + r.below(3);
    case 4: return 65536 - sizeof(Head) + r.below(3);
    default: return r.below(300);
  }
}
struct Rec {
  uint32_t sender, seq;
};
struct Peer : BytesComeObserver {
  Ctx &c;
  uint32_t id;
  Address addr;
  Receiver rx;
  std::thread th;
  std::atomic<bool> ended{false};
  std::mutex m;
  std::vector<Rec> got;
  std::vector<Buffer> raw;   // buffers which are not frames
  std::atomic<int> n{0}, nRaw{0};
  clockid_t clk{};
  bool ok = false, result = false;
  int slowUs = 0;
  Peer(Ctx &c, uint32_t id, Address a) : c(c), id(id), addr(a) {}
  bool init() {
    ok = rx.init(addr);
    rx.setObserver(this);
    return ok;
  }
  void start() {
    std::atomic<bool> up{false};
    th = std::thread([&] {
      up = true;
      result = rx.start();
      ended = true;
    });
    while (!up) std::this_thread::yield();
    pthread_getcpuclockid(th.native_handle(), &clk);
  }
  double cpu() {
    timespec ts{};
    clock_gettime(clk, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
  }
  void onBytesCome(Buffer &&b) override {
    if (slowUs) mon::napUs(slowUs);
    Head h;
    if (b.size() < sizeof h || (std::memcpy(&h, b.data(), sizeof h), h.magic != Head{}.magic)) {
      std::lock_guard l(m);
      raw.push_back(std::move(b));
      nRaw++;
      return;
    }
    c.expect(b.size() == sizeof h + h.len && sumOf(b.data() + sizeof h, b.size() - sizeof h) == h.sum, "torn", "buffer ", h.sender, "/", h.seq,
             " of ", h.len, " bytes arrived changed (", b.size() - sizeof h, " bytes)");
    c.expect(h.to == id, "misrouted", "buffer for receiver ", h.to, " arrived at ", id);
    std::lock_guard l(m);
    got.push_back({h.sender, h.seq});
    n++;
  }
  // running from the outside's view
  bool waitUp() {
    Sender s;
    return mon::eventually([&] { return rx.running() && s.checkReceiverStatus(addr) == Availability::Available; });
  }
  void stop(bool check = true) {
    auto t0 = sclk::now();
    rx.stop();
    if (!mon::eventually([&] { return ended.load(); }, 15000)) {
      c.fail("stop-hang", "a stopped receiver did not end");
      mon::quit();
    }
    th.join();
    c.expect(!rx.running(), "running", "receiver runs after being stopped");
    (void)t0;
  }
};
void checkOrderOnce(Ctx &c, Peer &p, std::map<std::pair<uint32_t, uint32_t>, int> &seen) {
  std::lock_guard l(p.m);
  std::map<uint32_t, uint32_t> last;
  for (auto &r : p.got) {
    int k = ++seen[{r.sender, r.seq}];
    c.expect(k == 1, "twice", "buffer ", r.sender, "/", r.seq, " delivered ", k, " times");
    auto it = last.find(r.sender);
    c.expect(it == last.end() || it->second < r.seq, "order", "buffer ", r.seq, " of sender ", r.sender, " arrived after ",
             it == last.end() ? 0 : it->second);
    last[r.sender] = r.seq;
    c.log(1, r.sender, r.seq);
  }
  c.expect(p.raw.empty(), "raw", "receiver got ", p.raw.empty() ? 0 : p.raw[0].size(), " bytes nobody sent");
}
int openFds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
// the socket address a receiver listens on, found from outside
bool listeningAddr(std::set<int> before, sockaddr_un &sa, socklen_t &len) {
  DIR *d = opendir("/proc/self/fd");
  bool found = false;
  while (auto *e = readdir(d)) {
    int fd = atoi(e->d_name);
    if (e->d_name[0] == '.' || before.count(fd)) continue;
    int on = 0;
    socklen_t l = sizeof on;
    if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) == 0 && on) {
      len = sizeof sa;
      found = getsockname(fd, (sockaddr *)&sa, &len) == 0 && sa.sun_family == AF_UNIX;
      if (found) break;
    }
  }
  closedir(d);
  return found;
}
std::set<int> fdSet() {
  std::set<int> s;
  DIR *d = opendir("/proc/self/fd");
  while (auto *e = readdir(d))
    if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) s.insert(atoi(e->d_name));
  closedir(d);
  return s;
}
}  // namespace

SCENARIO(ipc_deliver) {
  pert::shortIoPercent(c.rng.chance(50) ? 25 : 0);
  const int nR = c.rng.range(1, 3), nS = c.rng.range(1, 6), per = c.rng.range(5, c.thorough ? 80 : 25);
  std::vector<std::unique_ptr<Peer>> rs;
  auto base = uniq(c, "d");
  // receivers differ by name or only by port
  for (int i = 0; i < nR; ++i) {
    Address a = c.rng.chance(50) ? Address(base, (uint16_t)(i + 1)) : Address(base + "x" + std::to_string(i), (uint16_t)c.rng.below(3));
    rs.push_back(std::make_unique<Peer>(c, i, a));
    c.expect(rs.back()->init(), "init", "receiver could not take the free address ", a.dump());
    if (c.rng.chance(20)) rs.back()->slowUs = (int)c.rng.below(500);
    rs.back()->start();
    c.expect(rs.back()->waitUp(), "up", "receiver not reachable");
  }
  std::vector<std::vector<std::tuple<int, uint32_t>>> sent(nS);
  std::vector<std::thread> ts;
  mon::Gate g;
  Sender shared;
  bool oneSender = c.rng.chance(30);
  std::atomic<uint64_t> bytes{0};
  for (int s = 0; s < nS; ++s)
    ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
      Sender mine;
      auto &tx = oneSender ? shared : mine;
      g.wait();
      for (int i = 0; i < per; ++i) {
        int to = (int)r.below(nR);
        auto b = frame(r, s, i, to, bodySize(r));
        bytes += b.size();
        auto st = tx.send(b, rs[to]->addr);
        c.expect(st == ActionCallStatus::Success, "refused", "sending ", b.size(), " bytes to a running receiver failed with ", (int)st);
        if (st == ActionCallStatus::Success) sent[s].push_back({to, (uint32_t)i});
        if (r.chance(10)) c.expect(tx.checkReceiverStatus(rs[r.below(nR)]->addr) == Availability::Available, "status", "running receiver unavailable");
        if (r.chance(5)) c.expect(tx.send(b, Address(base + "nobody", 3)) == ActionCallStatus::ReceiverUnavailable, "nobody", "sent to nobody");
      }
    });
  g.release();
  for (auto &t : ts) t.join();
  std::map<int, int> expectN;
  for (auto &v : sent)
    for (auto &[to, q] : v) expectN[to]++;
  for (int i = 0; i < nR; ++i)
    c.expect(mon::eventually([&] { return rs[i]->n >= expectN[i]; }), "lost", "receiver ", i, " got ", rs[i]->n.load(), " of ", expectN[i], " buffers");
  for (auto &r : rs) r->stop();
  for (int i = 0; i < nR; ++i) {
    std::map<std::pair<uint32_t, uint32_t>, int> seen;
    checkOrderOnce(c, *rs[i], seen);
    for (int s = 0; s < nS; ++s)
      for (auto &[to, q] : sent[s])
        if (to == i) c.expect(seen[{(uint32_t)s, q}] == 1, "lost", "buffer ", s, "/", q, " of receiver ", i, " never arrived");
    c.expect((int)seen.size() == expectN[i], "extra", "receiver ", i, " got ", seen.size(), " different buffers instead of ", expectN[i]);
  }
  c.observe("delivered", nS * per);
  c.observe("delivered_kb", bytes / 1024);
  c.observe("short_io", pert::shortIos() > 0);
  pert::shortIoPercent(0);
  c.sign();
  c.nontrivial();
}

// receivers come and go while senders are at it
SCENARIO(ipc_lifecycle) {
  auto base = uniq(c, "l");
  Address a(base, (uint16_t)c.rng.below(5));
  const int nS = c.rng.range(1, 3);
  std::atomic<bool> quit{false};
  std::atomic<int> gen{-1};   // generation which was seen running
  struct Snt { int g; uint32_t s, q; };
  std::mutex m;
  std::vector<Snt> sure;     // accepted while generation g was running before and after
  std::vector<std::thread> ts;
  std::atomic<uint64_t> okN{0}, failN{0};
  int fd0 = openFds();
  for (int s = 0; s < nS; ++s)
    ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
      Sender tx;
      for (uint32_t q = 0; !quit && q < 20000; ++q) {
        int g0 = gen;
        auto t0 = sclk::now();
        auto st = tx.send(frame(r, s, q, 0, r.chance(5) ? r.below(300000) : r.below(100)), a);
        int g1 = gen;
        c.expect(sclk::now() - t0 < std::chrono::seconds(15), "blocked", "send blocked");
        if (st == ActionCallStatus::Success) okN++;
        else failN++;
        if (g0 == g1 && g0 >= 0) {
          c.expect(st == ActionCallStatus::Success, "refused", "send to a running receiver failed with ", (int)st);
          std::lock_guard l(m);
          sure.push_back({g0, (uint32_t)s, q});
        }
        if (g0 == g1 && g0 <= -2) c.expect(st == ActionCallStatus::ReceiverUnavailable, "zombie", "send while no receiver exists reported ", (int)st);
        mon::napUs((int)r.below(150));
      }
    });
  int cycles = c.rng.range(2, 5);
  std::map<std::pair<uint32_t, uint32_t>, int> seen;
  std::vector<std::set<std::pair<uint32_t, uint32_t>>> byGen;
  std::unique_ptr<Peer> p;
  for (int k = 0; k < cycles; ++k) {
    bool reuse = p && c.rng.chance(40);
    if (!reuse) p = std::make_unique<Peer>(c, 0, a);
    p->ended = false;
    p->got.clear();
    p->n = 0;
    c.expect(p->init(), "address-busy", "a free address could not be taken, cycle ", k);
    {
      Peer q(c, 1, a);
      c.expect(!q.init(), "address-shared", "an address in use was given to a second receiver");
    }
    int how = (int)c.rng.below(10);
    byGen.emplace_back();
    if (how == 0) {   // never started
      if (c.rng.chance(50)) p->rx.stop();
      else { p->rx.stop(); p->rx.deinit(); }
      p.reset();
    } else if (how == 1) {   // stopped while starting
      p->start();
      p->stop();
      p.reset();
    } else {
      p->start();
      c.expect(p->waitUp(), "up", "receiver not reachable after its start, cycle ", k);
      gen = k;
      mon::napUs((int)c.rng.below(20000));
      gen = -1;
      mon::napUs(2000);
      // what was accepted before must arrive before the receiver is stopped
      size_t need;
      { std::lock_guard l(m); need = sure.size(); }
      (void)need;
      bool drained = mon::eventually([&] {
        std::lock_guard l(m);
        std::lock_guard l2(p->m);
        std::set<std::pair<uint32_t, uint32_t>> have;
        for (auto &r : p->got) have.insert({r.sender, r.seq});
        for (auto &x : sure)
          if (x.g == k && !have.count({x.s, x.q})) return false;
        return true;
      });
      c.expect(drained, "lost", "buffers accepted by a running receiver never arrived");
      p->stop();
      checkOrderOnce(c, *p, seen);
      for (auto &r : p->got) byGen[k].insert({r.sender, r.seq});
      if (c.rng.chance(30)) p->rx.deinit();
      if (c.rng.chance(70)) p.reset();
    }
    // nobody listens any more
    {
      Sender tx;
      Rng r = c.rng.fork();
      c.expect(tx.checkReceiverStatus(a) == Availability::Unavailable, "zombie", "a stopped receiver is still available");
      c.expect(tx.send(frame(r, 99, 0, 0, 10), a) == ActionCallStatus::ReceiverUnavailable, "zombie", "a stopped receiver took a buffer");
      gen = -2 - k;
      mon::napUs((int)c.rng.below(3000));
      gen = -1;
    }
    c.observe("receiver_lives");
  }
  quit = true;
  for (auto &t : ts) t.join();
  for (auto &x : sure) c.expect(byGen[x.g].count({x.s, x.q}), "lost", "buffer ", x.s, "/", x.q, " accepted by generation ", x.g, " never arrived");
  p.reset();
  c.expect(mon::eventually([&] { return openFds() <= fd0; }, 3000), "fd-leak", openFds() - fd0, " descriptors left open");
  c.observe("sure_sends", sure.size());
  c.observe("failed_sends", failN);
  c.sign();
  c.sign(okN * 131 + failN);
  c.nontrivial();
}

// addresses which cannot be used
SCENARIO(ipc_bad_address) {
  auto base = uniq(c, "b");
  Sender tx;
  Rng r = c.rng.fork();
  auto b = frame(r, 1, 1, 0, r.below(1000));
  int fd0 = openFds();
  size_t len = c.rng.chance(50) ? c.rng.below(300) : 90 + c.rng.below(30);
  Address a(c.rng.chance(10) ? "" : std::string(std::max(len, (size_t)1), 'a') + base, (uint16_t)c.rng.below(70000));
  auto t0 = sclk::now();
  c.expect(tx.checkReceiverStatus(a) == Availability::Unavailable, "status", "nobody is available");
  c.expect(tx.send(b, a) == ActionCallStatus::ReceiverUnavailable, "nobody", "sending to nobody did not fail");
  c.expect(sclk::now() - t0 < std::chrono::seconds(5), "blocked", "sending to nobody blocked");
  {
    Peer p(c, 0, a);
    if (p.init()) {
      p.start();
      c.expect(p.waitUp(), "up", "receiver not reachable at ", a.dump());
      c.expect(tx.send(b, a) == ActionCallStatus::Success && mon::eventually([&] { return p.n == 1; }), "lost", "not delivered");
      // a longer or shorter name is somebody else
      for (auto n : {a.get_name() + "y", a.get_name().substr(0, a.get_name().size() - 1)})
        if (!n.empty() && n != a.get_name())
          c.expect(tx.send(b, Address(n, a.get_port())) != ActionCallStatus::Success, "misrouted", "sent to a name nobody has");
      c.expect(tx.send(b, Address(a.get_name(), (uint16_t)(a.get_port() + 1))) != ActionCallStatus::Success, "misrouted-port", "sent to a port nobody has");
      mon::napUs(500);
      c.expect(p.n == 1, "misrouted", "receiver got a buffer sent to another address");
      p.stop();
      c.observe("long_ok");
    } else {
      c.expect(a.get_name().size() > 60 || a.get_name().empty(), "init", "address ", a.dump(), " refused");
      c.observe("address_refused");
    }
  }
  c.expect(openFds() <= fd0, "fd-leak", openFds() - fd0, " descriptors left open");
  c.sign(a.get_name().size());
  c.nontrivial();
}

// ---------------------------------------------------------------- P14
namespace {
std::atomic<int64_t> gLive{0}, gPeak{0};
std::atomic<bool> gTrack{false};
void onMalloc(const volatile void *, size_t n) {
  if (n < 4096 || !gTrack.load(std::memory_order_relaxed)) return;
  int64_t l = gLive += (int64_t)n, k = gPeak;
  while (l > k && !gPeak.compare_exchange_weak(k, l)) {}
}
void onFree(const volatile void *p) {
  if (!p || !gTrack.load(std::memory_order_relaxed)) return;
  size_t n = __sanitizer_get_allocated_size((const void *)p);
  if (n >= 4096) gLive -= (int64_t)n;
}
int hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);

struct Raw {
  int fd = -1;
  Raw(const sockaddr_un &sa, socklen_t len) {
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    if (connect(fd, (const sockaddr *)&sa, len)) { close(fd); fd = -1; }
  }
  ~Raw() { shut(); }
  Raw(Raw &&o) : fd(o.fd) { o.fd = -1; }
  void shut() { if (fd >= 0) close(fd); fd = -1; }
  bool put(const void *p, size_t n) {
    auto *q = (const char *)p;
    while (n) {
      auto k = send(fd, q, n, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (k <= 0) {
        if (k < 0 && (errno == EAGAIN || errno == EINTR)) { mon::napUs(200); if (++tries > 200) return false; continue; }
        return false;
      }
      q += k;
      n -= k;
    }
    return true;
  }
  int tries = 0;
};
}  // namespace

SCENARIO_T(ipc_hostile, 90) {
  Address a(uniq(c, "h"), 1);
  int fd0 = openFds();
  auto before = fdSet();
  gLive = 0;
  gPeak = 0;
  gTrack = true;
  Peer p(c, 0, a);
  c.expect(p.init(), "init", "receiver could not take a free address");
  sockaddr_un sa{};
  socklen_t slen = 0;
  if (!listeningAddr(before, sa, slen)) {
    c.fail("no-listener", "no listening socket found after init");
    return;
  }
  p.start();
  c.expect(p.waitUp(), "up", "receiver not reachable");
  std::atomic<bool> quit{false};
  std::atomic<int> complete{0};   // complete frames of hostile peers
  const int nS = c.rng.range(1, 2), per = c.rng.range(3, 12), nH = c.rng.range(1, 4);
  std::vector<std::thread> ts;
  std::vector<std::vector<Raw>> held(nH);
  std::atomic<int> acts[10] = {};
  for (int h = 0; h < nH; ++h)
    ts.emplace_back([&, h, r = c.rng.fork()]() mutable {
      for (int k = c.thorough ? 40 : 14; k; --k) {
        int what = (int)r.below(10);
        acts[what]++;
        bool hold = r.chance(45);
        Raw w(sa, slen);
        if (w.fd < 0) continue;
        if (r.chance(20)) mon::napUs((int)r.below(3000));
        uint32_t n;
        switch (what) {
          case 0: break;   // connects and sends nothing
          case 1: { uint32_t x = (uint32_t)r.next(); w.put(&x, 1 + r.below(3)); break; }   // part of a size
          case 2: n = 1 + (uint32_t)r.below(100000); w.put(&n, 4); break;              // only a size
          case 3: {   // part of a body
            n = 2 + (uint32_t)r.below(100000);
            w.put(&n, 4);
            auto b = r.bytes(r.below(n));
            w.put(b.data(), b.size());
            break;
          }
          case 4: {   // huge size
            uint32_t xs[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffff0u};
            n = xs[r.below(4)];
            w.put(&n, 4);
            auto b = r.bytes(r.below(3000));
            w.put(b.data(), b.size());
            break;
          }
          case 5: {   // more than announced
            n = (uint32_t)r.below(2000);
            auto b = std::string(1, 'x') + r.bytes(n + r.below(5000));
            Buffer f((const char *)&n, 4);
            f += b;
            if (n && b.size() < n) b.resize(n);
            complete++;
            w.put(f.data(), f.size());
            break;
          }
          case 6: {   // byte by byte
            n = 1 + (uint32_t)r.below(12);
            Buffer f((const char *)&n, 4);
            f += std::string(n, 'y');
            complete++;
            for (auto ch : f) { w.put(&ch, 1); mon::napUs(100); }
            break;
          }
          case 7: {   // an empty frame
            n = 0;
            complete++;
            w.put(&n, 4);
            break;
          }
          case 8: {   // half closed
            n = 10;
            w.put(&n, 4);
            shutdown(w.fd, r.chance(50) ? SHUT_WR : SHUT_RD);
            hold = true;
            break;
          }
          case 9: {   // many connections at once
            for (int i = 0; i < 45; ++i) {
              Raw x(sa, slen);
              if (x.fd >= 0 && hold) held[h].push_back(std::move(x));
            }
            break;
          }
        }
        if (hold) held[h].push_back(std::move(w));
      }
    });
  // well behaved peers at the same time
  for (int s = 0; s < nS; ++s)
    ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
      Sender tx;
      for (int i = 0; i < per; ++i) {
        auto b = frame(r, s, i, 0, r.chance(10) ? r.below(400000) : r.below(300));
        auto st = tx.send(b, a);
        c.expect(st == ActionCallStatus::Success, "refused", "sending to a running receiver failed with ", (int)st);
        mon::napUs((int)r.below(2000));
      }
    });
  for (auto &t : ts) t.join();
  bool early = mon::eventually([&] { return p.n >= nS * per; }, 20000);
  c.expect(early, "starved", "only ", p.n.load(), " of ", nS * per, " buffers of well behaved peers arrived next to misbehaving ones");
  if (c.rng.chance(30)) {   // no spinning on connections which are left alone
    int busy = 0;
    for (int i = 0; i < 3; ++i) {
      double c0 = p.cpu();
      auto t0 = sclk::now();
      mon::napUs(60000);
      double w = std::chrono::duration<double>(sclk::now() - t0).count();
      if ((p.cpu() - c0) / w > 0.4) ++busy;
    }
    c.expect(busy < 3, "spin", "receiver thread keeps spinning on idle connections");
    c.observe("idle_cpu_checks");
  }
  c.expect(gPeak < (200 << 20), "memory", "receiver allocated ", gPeak.load() >> 20, " MB for frames which were never sent");
  bool closeFirst = c.rng.chance(60);
  if (closeFirst) {
    for (auto &v : held) v.clear();
    c.expect(mon::eventually([&] { return openFds() <= fd0 + 2; }, 10000), "fd-leak", openFds() - fd0, " descriptors left for closed connections");
  }
  // still serving
  {
    Sender tx;
    Rng r = c.rng.fork();
    int n0 = p.n;
    c.expect(tx.send(frame(r, 7, 1, 0, 1000), a) == ActionCallStatus::Success && mon::eventually([&] { return p.n == n0 + 1; }), "dead",
             "receiver does not serve any more after misbehaving peers");
  }
  if (closeFirst) {
    // partial frames were never delivered, complete ones were
    c.expect(mon::eventually([&] { return p.nRaw >= complete; }, 10000), "lost-raw", p.nRaw.load(), " of ", complete.load(), " complete frames delivered");
  }
  c.expect(p.nRaw <= complete, "phantom", p.nRaw.load(), " buffers delivered but only ", complete.load(), " were sent completely");
  p.stop();
  for (auto &b : p.raw) c.expect(b.empty() || b[0] == 'x' || b[0] == 'y', "phantom", "a buffer which was not completely sent was delivered");
  p.raw.clear();
  std::map<std::pair<uint32_t, uint32_t>, int> seen;
  checkOrderOnce(c, p, seen);
  c.expect((int)seen.size() == nS * per + 1, "lost", "x");
  for (auto &v : held) v.clear();
  c.expect(mon::eventually([&] { return openFds() <= fd0 + 1; }, 3000), "fd-leak", openFds() - fd0, " descriptors left after the stop");
  gTrack = false;
  int tot = 0;
  uint64_t sg = 0;
  for (auto &x : acts) { tot += x; sg = sg * 31 + x; }
  c.observe("hostile_peers", tot);
  c.observe("complete_frames", complete);
  c.observe("good_buffers", nS * per);
  c.sign();
  c.sign(sg);
  c.nontrivial();
}
