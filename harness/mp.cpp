// P15-P19 with several processes: many clients of one server, and servers and
// clients which are killed and restarted. Every process is this program; a
// child runs the scenario mp_child and obeys lines on its standard input.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include <fstream>

#include "cs_work.h"

extern char **environ;

namespace mp {
using namespace cs;
using Proxy = std::shared_ptr<BasicProxy<Ipc>>;

[[noreturn]] void unusable(const char *why) {
  fprintf(stderr, "%s\n", why);
  _exit(98);
}
std::string scratch() {
  auto d = getenv("MON_SCRATCH");
  return d ? d : "/tmp";
}

// ---------------------------------------------------------------- children
struct Child {
  Ctx &c;
  pid_t pid = -1;
  int in = -1, out = -1;
  std::string file, buf;
  bool reaped = false, killed = false;
  Child(Ctx &c, const std::string &role, const Address &addr, const ServiceID &sid, int id, bool prepareOnly = false) : c(c) {
    file = scratch() + "/child" + std::to_string(id) + "." + std::to_string(c.rng.next() % 1000000);
    unlink(file.c_str());
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) unusable("no pipes");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0);
    posix_spawn_file_actions_adddup2(&fa, b[1], 1);
    std::vector<std::string> args{"mp", "--scenario", "mp_child", "--cases", "1", "--perturb", c.rng.chance(50) ? "mix" : "none", "--seed", std::to_string(c.rng.below(1000000) + 1), "--out", file};
    if (c.thorough) args.push_back("--thorough");
    std::vector<std::string> env;
    for (auto e = environ; *e; ++e)
      if (strncmp(*e, "MON_CHILD=", 10) && strncmp(*e, "MON_FAST_EXIT=", 14)) env.push_back(*e);
    env.push_back("MON_CHILD=" + role + "|" + addr.get_name() + "|" + std::to_string(addr.get_port()) + "|" + sid + "|" + std::to_string(id) + "|" + std::to_string(getpid()));
    env.push_back("MON_FAST_EXIT=1");
    std::vector<char *> av, ev;
    for (auto &s : args) av.push_back(s.data());
    for (auto &s : env) ev.push_back(s.data());
    av.push_back(nullptr), ev.push_back(nullptr);
    if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, av.data(), ev.data())) unusable("no child process");
    posix_spawn_file_actions_destroy(&fa);
    close(a[0]), close(b[1]);
    in = a[1], out = b[0];
    c.observe("processes");
  }
  void send(const std::string &l) {
    auto s = l + "\n";
    (void)!::write(in, s.data(), s.size());
  }
  // the next line, "" when there is none in time
  std::string line(int timeoutMs = 40000) {
    auto end = sclk::now() + ms{timeoutMs};
    for (;;) {
      if (auto p = buf.find('\n'); p != std::string::npos) {
        auto l = buf.substr(0, p);
        buf.erase(0, p + 1);
        return l;
      }
      auto left = std::chrono::duration_cast<ms>(end - sclk::now()).count();
      pollfd f{out, POLLIN, 0};
      if (left <= 0 || poll(&f, 1, (int)left) <= 0) return "";
      char t[4096];
      auto n = ::read(out, t, sizeof t);
      if (n <= 0) return "";
      buf.append(t, (size_t)n);
    }
  }
  // the child answers; if it can't, tell what is wrong with it
  bool expect(const std::string &want, int timeoutMs = 40000) {
    auto l = line(timeoutMs);
    if (l == want) return true;
    blame("a child process " + (l.empty() ? std::string("did not answer ") + want : "answered `" + l + "` instead of " + want));
    return false;
  }
  void blame(const std::string &what) {
    std::ifstream f(file);
    for (std::string l; std::getline(f, l);)
      if (l.find("\"type\":\"fail\"") != std::string::npos) {
        auto k = l.find("\"key\":\"") + 7;
        c.fail(l.substr(k, l.find('"', k) - k), "in a child process: " + l.substr(l.find("\"msg\":\"") + 7));
        return;
      }
    int st = 0;
    if (!reaped && waitpid(pid, &st, WNOHANG) == pid) {
      reaped = true;
      c.fail("child_died", what + "; it ended with status " + std::to_string(st));
    } else
      c.fail("child_stuck", what);
  }
  void kill() {
    if (reaped) return;
    killed = true;
    ::kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    reaped = true;
  }
  // a child which ended well reported nothing
  void finish(int timeoutMs = 30000) {
    if (killed || reaped) return;
    send("quit");
    if (!expect("bye", timeoutMs)) return;
    int st = 0;
    auto end = sclk::now() + ms{15000};
    while (waitpid(pid, &st, WNOHANG) == 0 && sclk::now() < end) mon::napUs(500);
    if (waitpid(pid, &st, WNOHANG) == 0) return c.fail("child_stuck", "a child process does not end");
    reaped = true;
    if (st != 0) blame("a child process ended with status " + std::to_string(st));
    std::ifstream f(file);
    for (std::string l; std::getline(f, l);)
      if (l.find("\"type\":\"summary\"") != std::string::npos) {
        auto o = l.find("\"obs\":{");
        // "name":count,...
        for (auto p = o + 7; o != std::string::npos && p < l.size() && l[p] == '"';) {
          auto q = l.find('"', p + 1);
          auto e = l.find_first_of(",}", q);
          c.observe(l.substr(p + 1, q - p - 1).c_str(), std::stoull(l.substr(q + 2, e - q - 2)));
          if (l[e] == '}') break;
          p = e + 1;
        }
      }
  }
  ~Child() {
    if (!reaped) kill();
    close(in), close(out);
    unlink(file.c_str());
  }
};

bool aborted(uint64_t serial) { return mon::mix64(serial ^ 0xab0) % 2; }
constexpr uint64_t kHold = 1ULL << 40;  // requests the providers keep

struct Args {
  std::string role, sid;
  Address addr;
  uint64_t id = 0;
};

void say(const std::string &l) {
  auto s = l + "\n";
  (void)!::write(1, s.data(), s.size());
}
bool hear(std::string &verb, std::vector<uint64_t> &n) {
  static std::string buf;
  size_t p;
  while ((p = buf.find('\n')) == std::string::npos) {
    char t[1024];
    auto k = ::read(0, t, sizeof t);
    if (k <= 0) return false;
    buf.append(t, (size_t)k);
  }
  std::istringstream is(buf.substr(0, p));
  buf.erase(0, p + 1);
  n.clear();
  is >> verb;
  for (uint64_t x; is >> x;) n.push_back(x);
  return true;
}

void clientChild(Ctx &c, const Args &a) {
  Procs procs;
  auto &proc = procs.add();
  auto direct = maf::localipc::createProxy(a.addr, a.sid, maf::util::directExecutor());
  auto viaProc = direct->with(proc->getExecutor());
  auto hold = maf::localipc::createProxy(a.addr, a.sid + ".hold", maf::util::directExecutor());
  auto ready = [&](auto &p) { return serviceStatusSignal(p)->waitIfNot(Availability::Available, 20000).isReady(); };
  c.expect(ready(direct) && ready(hold), "not_available", "the service is not available in a client process");
  auto fence = [&](auto &p) {
    ActionCallStatus st{};
    p->template sendRequest<ping_request>(&st, ms{20000});
    c.expect(st == ActionCallStatus::Success, "fence", "an empty request failed: ", (int)st);
  };
  auto abort = [&](const RegID &reg, uint64_t serial) {
    ActionCallStatus st{};
    hold->abortRequest(reg, &st);
    c.expect(st == ActionCallStatus::Success, "abort_failed", "aborting ", serial, " failed: ", (int)st);
  };
  struct Kept {
    uint64_t serial;
    std::atomic<int> responses{0};
  };
  std::deque<Kept> kept;
  // what was told, in order
  std::mutex m;
  std::vector<uint64_t> levels, ticks;
  uint64_t base = a.id * 1000000;
  say("ready");
  std::string verb;
  std::vector<uint64_t> n;
  while (!c.failed() && hear(verb, n)) {
    if (verb == "quit") break;
    if (verb == "requests") {
      runClient<Ipc>(c, {{direct, nullptr}, {viaProc, proc.instance().get()}}, base, (int)n[0], (int)n[1]);
      base += n[0] * n[1];
    } else if (verb == "hold") {
      std::vector<std::pair<RegID, uint64_t>> regs;
      auto first = kept.size();
      for (uint64_t i = 0; i < n[0]; ++i) {
        auto &k = kept.emplace_back();
        k.serial = kHold + base++;
        ActionCallStatus st{};
        auto reg = hold->sendRequestAsync<echo_request::output>(
            echo_request::make_input(k.serial, dataOf(k.serial)),
            [&c, &k](ResponseT<echo_request::output> r) {
              c.expect(!aborted(k.serial), "response_aborted", "the aborted request ", k.serial, " got a response");
              c.expect(r.isOutput() && r.getOutput() && r.getOutput()->get_serial() == k.serial && r.getOutput()->get_data() == dataOf(k.serial * 3), "response_mixed",
                       "request ", k.serial, " got another response", r.isError() && r.getError() ? ": " + r.getError()->description() : std::string());
              ++k.responses;  // the last access
            },
            &st);
        c.expect(st == ActionCallStatus::Success, "send_failed", "sending failed: ", (int)st);
        regs.emplace_back(reg, k.serial);
        if (c.rng.chance(30) && !regs.empty()) {  // abort some at once
          auto x = c.rng.below(regs.size());
          if (aborted(regs[x].second)) {
            abort(regs[x].first, regs[x].second);
            regs.erase(regs.begin() + (long)x);
          }
        }
      }
      for (auto &[reg, serial] : regs)
        if (aborted(serial)) abort(reg, serial);
      fence(hold);
      c.observe("mp_held", kept.size() - first);
    } else if (verb == "settle") {
      for (auto &k : kept)
        if (!aborted(k.serial)) c.expect(mon::eventually([&] { return k.responses == 1; }, 20000), "no_response", "request ", k.serial, " was never answered");
      mon::napUs(2000);
      for (auto &k : kept) c.expect(k.responses == !aborted(k.serial), "response_count", "request ", k.serial, " got ", k.responses.load(), " responses");
    } else if (verb == "watch") {
      direct->registerStatus<level_status>([&](auto st) {
        if (!st) return;
        c.expect(st->get_data() == dataOf(st->get_seq()), "status_changed", "a status changed on its way");
        std::lock_guard l(m);
        // the current one may be told again, as after an outage
        c.expect(levels.empty() || levels.back() <= st->get_seq(), "status_order", "status ", st->get_seq(), " came after ", levels.empty() ? 0 : levels.back());
        levels.push_back(st->get_seq());
      });
      direct->registerSignal<tick_attributes>([&](auto at) {
        c.expect(at && at->get_data() == dataOf(at->get_seq(), 5), "signal_changed", "a signal changed on its way");
        if (!at) return;
        std::lock_guard l(m);
        c.expect(ticks.empty() || ticks.back() + 1 == at->get_seq(), "signal_order", "signal ", at->get_seq(), " came after ", ticks.empty() ? 0 : ticks.back());
        ticks.push_back(at->get_seq());
      });
      fence(direct);
    } else if (verb == "seen") {  // last status, first and last signal
      bool ok = mon::eventually([&] {
        std::lock_guard l(m);
        return !levels.empty() && levels.back() == n[0] && (n[1] > n[2] || (!ticks.empty() && ticks.back() == n[2]));
      }, 20000);
      std::lock_guard l(m);
      c.expect(ok, "lost_broadcast", "the last status seen is ", levels.empty() ? 0 : levels.back(), " of ", n[0], ", the last signal ", ticks.empty() ? 0 : ticks.back(), " of ", n[2]);
      if (n[1] <= n[2]) c.expect(!ticks.empty() && ticks.front() <= n[1], "lost_broadcast", "the first signal seen is ", ticks.empty() ? 0 : ticks.front(), " instead of ", n[1]);
      c.observe("mp_statuses", levels.size());
      c.observe("mp_signals", ticks.size());
    } else if (verb == "outage") {  // the service stops now, or did already
      auto p = serviceStatusSignal(direct)->waitIfNot(Availability::Unavailable, 20000).isReady();
      c.expect(p, "outage_unnoticed", "a client process did not notice the stopped service");
    } else if (verb == "back") {
      c.expect(ready(direct) && ready(hold), "restart_unnoticed", "a client process did not notice the restarted service");
    }
    if (!c.failed()) say(verb);
  }
  procs.flush();
  csmgmt::shutdownAllClients();
  procs.stop();
  c.nontrivial();
  if (!c.failed()) say("bye");
}

// further services of a server which might die, first used by the client later
constexpr int kSpares = 6;
std::string spare(const std::string &sid, int k) { return sid + ".spare" + std::to_string(k); }

void serverChild(Ctx &c, const Args &a) {
  Procs procs;
  ExecutorIFPtr ex = a.id % 2 ? maf::util::directExecutor() : procs.add()->getExecutor();
  std::string verb;
  std::vector<uint64_t> n;
  say("prepared");
  std::mutex m;
  struct Held {
    std::shared_ptr<EchoReq<Ipc>> rq;
    std::atomic<int> aborts{0};
    uint64_t s = 0;
  };
  std::vector<std::shared_ptr<Held>> held;
  std::shared_ptr<BasicStub<Ipc>> stub;
  std::vector<std::shared_ptr<BasicStub<Ipc>>> spares;
  while (!c.failed() && hear(verb, n)) {
    if (verb == "serve") {
      stub = maf::localipc::createStub(a.addr, a.sid, ex);
      stub->template registerRequestHandler<echo_request::input>([&](EchoReq<Ipc> r) {
        auto in = r.getInput();
        if (!in) return c.fail("input_lost", "a request came without input");
        auto s = in->get_serial();
        c.expect(in->get_data() == dataOf(s), "input_changed", "input of ", s, " changed on its way");
        if (s & 1) r.template respond<echo_request::output>(s, kFinal, dataOf(s * 3));
        else {
          auto h = std::make_shared<Held>();
          h->s = s;
          h->rq = std::make_shared<EchoReq<Ipc>>(std::move(r));
          h->rq->onAborted([h = h.get()] { h->aborts++; });
          std::lock_guard l(m);
          held.push_back(h);
        }
      });
      stub->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
      stub->template setStatus<level_status>(1, n[0], dataOf(n[0]));
      stub->startServing();
      for (int i = 0; i < kSpares; ++i) {
        spares.push_back(maf::localipc::createStub(a.addr, spare(a.sid, i), ex));
        spares.back()->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
        spares.back()->startServing();
      }
    } else if (verb == "set") {
      stub->template setStatus<level_status>(1, n[0], dataOf(n[0]));
    } else if (verb == "quit") {
      break;
    }
    if (!c.failed()) say(verb);
  }
  if (stub) stub->stopServing();
  // what is still unanswered ends with the server
  std::vector<std::shared_ptr<Held>> open;
  {
    std::lock_guard l(m);
    for (auto &h : held)
      if (h->rq->valid() && !h->aborts) open.push_back(h);
  }
  csmgmt::shutdownAllServers();
  for (auto &h : open) {
    if (c.failed()) break;
    c.expect(mon::eventually([&] { return h->aborts > 0; }, 15000), "shutdown_abort", "the server ended, but the provider was not told that request ", h->s, " is void");
    c.expect(h->aborts == 1, "shutdown_abort", "request ", h->s, " of a server which ended was aborted ", h->aborts.load(), " times");
    c.expect(!h->rq->valid(), "shutdown_abort", "request ", h->s, " of a server which ended is still valid");
    c.observe("mp_voided");
  }
  procs.stop();
  held.clear();
  c.nontrivial();
  if (!c.failed()) say("bye");
}

// ---------------------------------------------------------------- many clients, one server
void clients(Ctx &c) {
  Env<Ipc> env(c);
  Procs procs;
  auto exec = [&]() -> ExecutorIFPtr { return c.rng.chance(50) ? maf::util::directExecutor() : procs.add()->getExecutor(); };
  auto stub = env.stub(exec());
  auto prov = std::make_shared<Provider<Ipc>>(c, stub, 2);
  prov->registerAll();
  auto hold = env.stub(exec(), env.sid + ".hold");
  struct Kept {
    std::shared_ptr<EchoReq<Ipc>> rq;
    std::atomic<int> aborts{0};
  };
  std::mutex m;
  std::map<uint64_t, std::shared_ptr<Kept>> kept;
  hold->registerRequestHandler<echo_request::input>([&](EchoReq<Ipc> r) {
    auto in = r.getInput();
    if (!in) return c.fail("input_lost", "a request came without input");
    auto s = in->get_serial();
    auto k = std::make_shared<Kept>();
    k->rq = std::make_shared<EchoReq<Ipc>>(std::move(r));
    {
      std::lock_guard l(m);
      c.expect(kept.emplace(s, k).second, "handled_twice", "request ", s, " was handled twice");
    }
    k->rq->onAborted([k = k.get()] { k->aborts++; });
  });
  hold->registerRequestHandler<ping_request>([](auto r) { r.respond(); });
  stub->startServing();
  hold->startServing();
  int nc = c.rng.range(2, 4);
  std::vector<std::unique_ptr<Child>> ch;
  for (int i = 0; i < nc; ++i) ch.push_back(std::make_unique<Child>(c, "client", env.addr, env.sid, i + 1));
  auto all = [&](const std::string &cmd) {
    for (auto &k : ch) k->send(cmd);
    auto verb = cmd.substr(0, cmd.find(' '));
    for (auto &k : ch)
      if (!c.failed()) k->expect(verb);
    if (c.failed()) mon::quit();
  };
  for (auto &k : ch)
    if (!c.failed()) k->expect("ready");
  if (c.failed()) mon::quit();

  // each gets its own answers
  uint64_t seq = 0, tick = 0;
  auto broadcast = [&](Rng &r, int k) {
    for (; k > 0 && !c.failed(); --k) {
      if (r.chance(50)) ++seq, stub->setStatus<level_status>(1, seq, dataOf(seq));
      else ++tick, stub->broadcastSignal<tick_attributes>(1, tick, dataOf(tick, 5));
      if (r.chance(20)) mon::jitter(r);
    }
  };
  stub->setStatus<level_status>(1, ++seq, dataOf(seq));
  all("watch");
  {
    std::thread t([&, r = c.rng.fork()]() mutable { broadcast(r, c.thorough ? 300 : 80); });
    all("requests " + std::to_string(c.rng.range(1, 3)) + " " + std::to_string(c.thorough ? 60 : 25));
    t.join();
  }
  c.observe("mp_clients", (uint64_t)nc);
  all("seen " + std::to_string(seq) + " 1 " + std::to_string(tick));

  // aborts hit the requests which were aborted, and only these
  all("hold " + std::to_string(c.rng.range(4, c.thorough ? 120 : 40)));
  std::map<uint64_t, std::shared_ptr<Kept>> mine;
  {
    std::lock_guard l(m);
    mine = kept;
  }
  auto judge = [&] {
    for (auto &[s, k] : mine) {
      if (c.failed()) break;
      bool ab = aborted(s);
      if (ab) c.expect(mon::eventually([&, k = k.get()] { return k->aborts > 0; }, 15000), "abort_lost", "the provider was not told that request ", s, " was aborted");
      c.expect(k->aborts == ab, ab ? "abort_twice" : "abort_wrong", "the abort callback of request ", s, ab ? " (aborted)" : " (not aborted)", " was called ", k->aborts.load(), " times");
      c.expect(k->rq->valid() == !ab, "abort_wrong", "request ", s, ab ? " was aborted but is valid" : " was not aborted but is invalid");
      c.observe(ab ? "mp_aborts" : "mp_kept");
      c.log(8, (int64_t)s, ab);
    }
  };
  judge();
  std::vector<uint64_t> order;
  for (auto &[s, k] : mine) order.push_back(s);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.rng.below(i)]);
  for (auto s : order) {
    if (c.failed()) break;
    auto st = mine[s]->rq->respond<echo_request::output>(s, kFinal, dataOf(s * 3));
    c.expect((st == ActionCallStatus::Success) == !aborted(s), "respond_failed", "answering request ", s, aborted(s) ? " (aborted)" : "", " returned ", (int)st);
  }
  all("settle");

  // a client process dies; the others go on
  if (nc > 2 ? c.rng.chance(85) : c.rng.chance(40)) {
    auto victim = c.rng.below((uint64_t)nc);
    auto first = tick + 1;
    std::thread t([&, r = c.rng.fork()]() mutable { broadcast(r, c.thorough ? 300 : 100); });
    mon::napUs((int)c.rng.below(4000));
    ch[victim]->kill();
    ch.erase(ch.begin() + (long)victim);
    all("requests 1 10");
    t.join();
    all("seen " + std::to_string(seq) + " " + std::to_string(first) + " " + std::to_string(tick));
    c.observe("mp_killed_clients");
    if (c.rng.chance(50)) {  // and another one comes
      ch.push_back(std::make_unique<Child>(c, "client", env.addr, env.sid, 9));
      ch.back()->expect("ready");
      if (c.failed()) mon::quit();
      first = tick + 1;
      ch.back()->send("watch");
      ch.back()->expect("watch");
      Rng r = c.rng.fork();
      broadcast(r, 30);
      all("seen " + std::to_string(seq) + " " + std::to_string(first) + " " + std::to_string(tick));
      all("requests 1 10");
    }
  }
  // the service stops and comes back
  if (c.rng.chance(70)) {
    prov->finish();
    all("seen " + std::to_string(seq) + " 1 0");
    for (auto &k : ch) k->send("outage");
    mon::napUs((int)c.rng.below(3000));
    stub->stopServing();
    hold->stopServing();
    for (auto &k : ch)
      if (!c.failed()) k->expect("outage");
    if (c.failed()) mon::quit();
    stub->startServing();
    hold->startServing();
    all("back");
    all("watch");  // registrations end with the service
    for (int i = c.rng.range(0, 5); i > 0; --i) ++seq, stub->setStatus<level_status>(1, seq, dataOf(seq));
    all("seen " + std::to_string(seq) + " 1 0");
    c.observe("mp_outages");
  }
  for (auto &k : ch)
    if (!c.failed()) k->finish();
  if (c.failed()) mon::quit();
  prov->finish();
  c.nontrivial();
  stub->stopServing();
  hold->stopServing();
  c.sign();
  procs.stop();
  stub->unregisterRequestHandler<echo_request>();
  stub->unregisterRequestHandler<twin_request>();
  stub->unregisterRequestHandler<ping_request>();
  hold->unregisterRequestHandler<echo_request>();
  hold->unregisterRequestHandler<ping_request>();
}

// ---------------------------------------------------------------- a server which dies
struct Observer : ServiceStatusObserverIF {
  std::mutex m;
  std::vector<std::pair<Availability, Availability>> v;
  void onServiceStatusChanged(const ServiceID &, Availability o, Availability n) noexcept override {
    std::lock_guard l(m);
    v.emplace_back(o, n);
  }
};

enum End { Kill, Quit, QuickKill };
void crash(Ctx &c, bool quick) {
  Env<Ipc> env(c);
  Procs procs;
  auto obs = std::make_shared<Observer>();
  auto proxy = maf::localipc::createProxy(env.addr, env.sid, maf::util::directExecutor(), obs);
  auto &proc = procs.add();
  auto viaProc = proxy->with(proc->getExecutor());
  std::mutex m;
  std::vector<uint64_t> levels;
  std::atomic<uint64_t> last{0};
  int id = 0;
  uint64_t version = 1;
  auto spawn = [&] {
    auto k = std::make_unique<Child>(c, "server", env.addr, env.sid, ++id);
    if (!k->expect("prepared")) mon::quit();
    return k;
  };
  auto serve = [&](std::unique_ptr<Child> &k) {
    k->send("serve " + std::to_string(version));
    if (!k->expect("serve")) mon::quit();
  };
  auto server = spawn();
  serve(server);
  std::vector<std::shared_ptr<BasicProxy<Ipc>>> spares;
  int rounds = quick ? 1 : c.thorough ? 6 : 2;
  std::atomic<int> kept{0};
  for (int k = 0; k < rounds && !c.failed(); ++k) {
    c.expect(serviceStatusSignal(proxy)->waitIfNot(Availability::Available, 20000).isReady(), "not_available", "the ", k ? "restarted" : "started", " server is not available");
    if (c.failed()) break;
    {  // registrations end with the service
      ActionCallStatus st{};
      proxy->registerStatus<level_status>(
          [&](auto st) {
            if (!st) return;
            c.expect(st->get_data() == dataOf(st->get_seq()), "status_changed", "a status changed on its way");
            last = st->get_seq();
            std::lock_guard l(m);
            levels.push_back(st->get_seq());
          },
          &st);
      c.expect(st == ActionCallStatus::Success, "register_failed", "registering failed: ", (int)st);
    }
    // also after a restart the current value is told, and what follows
    c.expect(mon::eventually([&] { return last == version; }, 20000), "status_lost", "status ", version, " of ", k ? "a restarted" : "the", " server was not told, but ", last.load());
    server->send("set " + std::to_string(++version));
    if (!server->expect("set")) mon::quit();
    c.expect(mon::eventually([&] { return last == version; }, 20000), "status_lost", "status ", version, " set by ", k ? "a restarted" : "the", " server was not told, but ", last.load());
    // all sorts of requests are under way
    std::atomic<bool> ended{false};
    std::vector<std::thread> ths;
    std::atomic<int> blocked{0}, freed{0};
    int nb = c.rng.range(1, 3), na = c.rng.range(1, 8), nt = c.rng.range(0, 2);
    auto broken = [&](ActionCallStatus st, const auto &rs, const char *what) {
      c.expect(st == ActionCallStatus::ActionBroken || st == ActionCallStatus::ServiceUnavailable || st == ActionCallStatus::ReceiverUnavailable || st == ActionCallStatus::ReceiverBusy || st == ActionCallStatus::FailedUnknown /* died while receiving */,
               "broken_status", what, " broken by a dead server returned ", (int)st);
      c.expect(rs.isError() && rs.getError(), "no_error", what, " broken by a dead server returned no error");
      c.observe("mp_broken");
    };
    uint64_t base = (uint64_t)(k + 1) * 100000;
    for (int i = 0; i < nb; ++i)
      ths.emplace_back([&, s = base + 2 * (uint64_t)i] {
        ActionCallStatus st{};
        blocked++;
        auto rs = proxy->sendRequest<echo_request::output>(echo_request::make_input(s, dataOf(s)), &st);
        c.expect(st != ActionCallStatus::Success, "response_invented", "a request which nobody answered got a response");
        if (st != ActionCallStatus::Success) broken(st, rs, "a blocking request");
        freed++;
      });
    for (int i = 0; i < na; ++i) {
      auto s = base + 1000 + 2 * (uint64_t)i;
      ActionCallStatus st{};
      (c.rng.chance(50) ? proxy : viaProc)
          ->sendRequestAsync<echo_request::output>(
              echo_request::make_input(s, dataOf(s)), [&c](ResponseT<echo_request::output>) { c.fail("response_invented", "a request which nobody answered got a response"); }, &st);
      c.expect(st == ActionCallStatus::Success, "send_failed", "sending failed: ", (int)st);
      kept++;
    }
    for (int i = 0; i < nt; ++i)
      ths.emplace_back([&, r = c.rng.fork(), s = base + 50001 + 10000 * (uint64_t)i]() mutable {
        for (; !ended; s += 2) {
          ActionCallStatus st{};
          auto rs = proxy->sendRequest<echo_request::output>(echo_request::make_input(s, dataOf(s)), &st);
          if (st == ActionCallStatus::Success) {
            c.expect(rs.isOutput() && rs.getOutput() && rs.getOutput()->get_serial() == s, "response_mixed", "request ", s, " got another response");
            c.observe("mp_served");
          } else {
            broken(st, rs, "a request");
            break;
          }
        }
      });
    mon::eventually([&] { return blocked == nb; });
    mon::napUs((int)c.rng.below(quick ? 20000 : 8000) + (quick ? 1000 : 0));
    std::unique_ptr<Child> next;
    bool graceful = !quick && c.rng.chance(40);
    size_t told;
    {
      std::lock_guard l(obs->m);
      told = obs->v.size();
    }
    if (quick || c.rng.chance(50)) next = spawn();
    if (graceful) server->finish();
    else server->kill();
    version++;
    if (quick || (graceful && next)) serve(next);  // immediately
    if (quick) {
      // everything that was under way ends nevertheless
      bool ok = mon::eventually([&] { return freed == nb; }, 4000);
      c.expect(ok, "unnoticed_restart", "a server was killed and restarted at once: callers blocked in requests are never released");
      if (!ok) mon::quit();
    } else {
      auto t0 = sclk::now();
      for (auto &t : ths) t.join();  // a stuck waiter is found by the watchdog
      ths.clear();
      c.expect(sclk::now() - t0 < ms{15000}, "slow_release", "waiters were released late");
      if (c.failed()) mon::quit();
      bool down = mon::eventually([&] {
        std::lock_guard l(obs->m);
        for (size_t i = told; i < obs->v.size(); ++i)
          if (obs->v[i].second == Availability::Unavailable) return true;
        return false;
      }, 15000);
      c.expect(down, "death_unnoticed", "the client did not notice that its server ", graceful ? "ended" : "died");
      if (!(graceful && next)) {
        // there is no server: neither for proxies made before nor for those
        // made right now
        auto &fresh = spares.emplace_back(maf::localipc::createProxy(env.addr, spare(env.sid, k), maf::util::directExecutor()));
        auto late = maf::localipc::createProxy(env.addr, env.sid, maf::util::directExecutor());
        c.expect(fresh->serviceStatus() != Availability::Available, "stale_status", "a proxy made after its server was lost finds its service available");
        c.expect(late->serviceStatus() != Availability::Available, "stale_status", "a further proxy made after its server was lost finds its service available");
        for (auto &s : spares)
          c.expect(mon::eventually([&] { return s->serviceStatus() != Availability::Available; }, 15000), "death_unnoticed", "a proxy still finds the service of a lost server available");
        ActionCallStatus st{};
        auto rs = fresh->sendRequest<ping_request>(&st, ms{5000});
        c.expect(st != ActionCallStatus::Success && rs.isError(), "broken_status", "a request to a lost server returned ", (int)st);
        c.observe("mp_late_proxies");
        if (!next) next = spawn();
        if (c.rng.chance(30)) mon::napUs((int)c.rng.below(600000));
        serve(next);
      }
    }
    ended = true;
    for (auto &t : ths) t.join();
    for (auto &s : spares) {
      c.expect(serviceStatusSignal(s)->waitIfNot(Availability::Available, 20000).isReady(), "restart_unnoticed", "a service of the restarted server is not available for a proxy made during the outage");
      ActionCallStatus st{};
      s->sendRequest<ping_request>(&st, ms{20000});
      c.expect(st == ActionCallStatus::Success, "restart_unusable", "a request to a restarted server failed: ", (int)st);
    }
    server = std::move(next);
    c.observe(graceful ? "mp_server_ends" : "mp_server_deaths");
    c.log(9, graceful, kept);
  }
  if (!c.failed()) {
    c.expect(serviceStatusSignal(proxy)->waitIfNot(Availability::Available, 20000).isReady(), "not_available", "the restarted server is not available");
    std::lock_guard l(m);
    for (size_t i = 1; i < levels.size(); ++i) c.expect(levels[i - 1] <= levels[i], "status_order", "status ", levels[i], " came after ", levels[i - 1]);
    std::lock_guard l2(obs->m);
    for (size_t i = 1; i < obs->v.size(); ++i) c.expect(obs->v[i - 1].second == obs->v[i].first, "change_order", "changes of the service's status do not follow each other");
    c.observe("mp_levels", levels.size());
  }
  if (c.failed()) mon::quit();
  procs.flush();
  server->finish();
  c.nontrivial();
  c.sign((uint64_t)kept * 31 + c.events().size());
}
}  // namespace mp

SCENARIO_T(mp_child, 240) {
  signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  auto e = getenv("MON_CHILD");
  if (!e) mp::unusable("mp_child is run by other scenarios");
  std::vector<std::string> f;
  std::istringstream is(e);
  for (std::string s; std::getline(is, s, '|');) f.push_back(s);
  if (getppid() != std::stoi(f[5])) _exit(3);
  mp::Args a{f[0], f[3], maf::messaging::Address(f[1], (uint16_t)std::stoi(f[2])), std::stoull(f[4])};
  a.role == "client" ? mp::clientChild(c, a) : mp::serverChild(c, a);
}
SCENARIO_T(mp_clients, 90) { mp::clients(c); }
SCENARIO_T(mp_crash, 120) { mp::crash(c, false); }
SCENARIO_T(mp_quick, 90) { mp::crash(c, true); }
