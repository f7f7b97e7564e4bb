// P01 (execution guarantees) and P02 (stop/reuse)
#include <maf/messaging/Timer.h>

#include "proc_common.h"
using namespace hp;
using namespace std::chrono_literals;

namespace {
enum Kind { kRun = 1, kSelf, kSubmit, kStop };

struct Oracle {
  Ctx &c;
  std::atomic<std::thread::id> owner{};
  std::atomic<int> inside{0};
  std::atomic<int> depth{0};   // only touched by the owner
  // what ran: per sender, filled by the processor thread only, read after join
  std::map<int, std::vector<int>> ran;
  std::map<int, std::vector<int>> ranInline;
  Oracle(Ctx &c) : c(c) {}
  const Processor *proc = nullptr;

  void enter() {
    if (depth.load(std::memory_order_relaxed) == 0) {
      c.expect(inside.fetch_add(1, std::memory_order_relaxed) == 0, "overlap", "two executions at once");
    }
    depth.store(depth.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    c.expect(owner.load(std::memory_order_relaxed) == std::this_thread::get_id(), "wrong-thread",
             "execution on a thread that does not run the processor");
    c.expect(this_processor::instance().get() == proc, "this_processor", "this_processor is not the running processor");
  }
  void leave() {
    depth.store(depth.load(std::memory_order_relaxed) - 1, std::memory_order_relaxed);
    if (depth.load(std::memory_order_relaxed) == 0) inside.fetch_sub(1, std::memory_order_relaxed);
  }
  void item(int sender, int seq) {
    enter();
    c.log(kRun, sender, seq);
    ran[sender].push_back(seq);
    leave();
  }
};

// Runs a processor on a thread in one of several forms until it is stopped.
struct Runner {
  AsyncProcessor async;
  std::thread t;
  int form;
  Runner(ProcessorInstance p, Oracle &o, mon::Rng &r, Ctx &c) : async(p), form(r.range(0, 4)) {
    auto nap = r.range(0, 3);
    switch (form) {
      case 0:
        async.launch([&o] { o.owner = std::this_thread::get_id(); });
        break;
      case 1:
        t = std::thread([p, &o] {
          p->run([&o] { o.owner = std::this_thread::get_id(); });
        });
        break;
      case 2:
        t = std::thread([p, &o] {
          o.owner = std::this_thread::get_id();
          while (!p->stopped()) p->runOnceFor(us{2000});
        });
        break;
      case 3:
        t = std::thread([p, &o] {
          o.owner = std::this_thread::get_id();
          while (!p->stopped()) p->runFor(us{700});
        });
        break;
      default:
        t = std::thread([p, &o, nap] {
          o.owner = std::this_thread::get_id();
          while (!p->stopped()) {
            auto dl = std::chrono::system_clock::now() + us{nap * 300};
            if (nap & 1) p->runUntil(dl);
            else p->runOnceUntil(dl);
          }
        });
    }
    c.observe("run_form_" + std::to_string(form));
  }
  ~Runner() {
    async->stop();
    if (t.joinable()) t.join();
    async.stopAndWait();
  }
};

struct Unhandled { int v; };
struct Boom { int v; };
}  // namespace

// Many senders, every submission form; exactly once, FIFO per sender, own thread.
SCENARIO(proc_order) {
  auto p = Processor::create(c.rng.chance(50) ? uniqueId(c, "po") : "");
  c.expect(p != nullptr, "create", "fresh id refused");
  if (!p) return;
  Oracle o(c);
  o.proc = p.get();
  const int nS = c.rng.range(1, 5);
  const int nOps = c.rng.range(10, c.thorough ? 220 : 90);
  const int selfId = 100;
  std::vector<std::vector<int>> accepted(nS);
  int selfSeq = 0;   // processor thread only
  std::vector<int> selfPosted;
  auto con = p->connect<Item>([&](const Item &i) {
    c.expect(i.ok(), "payload", "payload changed");
    o.item(i.sender, i.seq);
  });
  // self submission from inside executions
  auto selfWork = [&](int how) {
    o.enter();
    bool ranNow = false;
    switch (how) {
      case 0: {
        bool ok = p->execute([&] { o.enter(); ranNow = true; o.leave(); });
        c.expect(ok && ranNow, "self-execute", "execute() on the own thread must run at once");
        break;
      }
      case 1: {
        auto s = this_processor::waitableExecute([&] { o.enter(); ranNow = true; o.leave(); });
        c.expect(s.valid() && ranNow && s.waitFor(0ms) == std::future_status::ready, "self-waitable",
                 "waitableExecute() on the own thread must run at once and be ready");
        break;
      }
      case 2: {
        auto s = p->waitablePost<Boom>(7);
        c.expect(s.valid() && s.waitFor(0ms) == std::future_status::ready, "self-waitable-post", "not ready");
        break;
      }
      case 3: {
        int q = selfSeq++;
        if (this_processor::executeAsync([&o, q, selfId] { o.item(selfId, q); })) selfPosted.push_back(q);
        break;
      }
      case 4: {
        int q = selfSeq++;
        if (this_processor::post<Item>(item(selfId, q))) selfPosted.push_back(q);
        break;
      }
      case 5:
        p->getExecutor()->execute([&] { ranNow = true; });
        c.expect(ranNow, "self-executor", "default executor on the own thread must run at once");
        break;
      case 6:
        p->getBlockingExecutor()->execute([&] { ranNow = true; });
        c.expect(ranNow, "self-blocking-executor", "blocking executor on the own thread must run at once");
        break;
      default: {
        int q = selfSeq++;
        selfPosted.push_back(q);
        p->getAsyncExecutor()->execute([&o, q, selfId, &ranNow] { o.item(selfId, q); });
      }
    }
    o.leave();
  };
  auto con2 = p->connect<Boom>([&](const Boom &b) { o.enter(); c.expect(b.v == 7, "payload", "boom"); o.leave(); });
  std::atomic<int> refusedRan{0};
  {
    Runner run(p, o, c.rng, c);
    c.expect(mon::eventually([&] { return o.owner.load() != std::thread::id{}; }), "start", "runner did not start");
    std::vector<std::thread> ts;
    mon::Gate gate;
    for (int s = 0; s < nS; ++s) {
      ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
        gate.wait();
        std::vector<std::pair<Processor::CompleteSignal, int>> later;
        std::map<int, std::shared_ptr<std::atomic<int>>> doneFlag;
        auto asyncEx = p->getAsyncExecutor(), ex = p->getExecutor(), blockEx = p->getBlockingExecutor();
        auto body = [&o, s](int q) { return [&o, s, q] { o.item(s, q); }; };
        int wrapBase = 0;
        for (int q = 0; q < nOps; ++q) {
          auto &acc = accepted[s];
          switch (r.below(14)) {
            case 0: if (p->post<Item>(item(s, q))) acc.push_back(q); break;
            case 1: if (p->post(makeMessage<Item>(item(s, q)))) acc.push_back(q); break;
            case 2: if (p->executeAsync(body(q))) acc.push_back(q); break;
            case 3: if (p->execute(body(q))) acc.push_back(q); break;
            case 4: {
              auto flag = std::make_shared<std::atomic<int>>(0);
              auto sig = p->waitableExecute([&o, s, q, flag] { o.item(s, q); flag->store(1, std::memory_order_relaxed); });
              if (sig.valid()) {
                acc.push_back(q);
                doneFlag[q] = flag;
                if (r.chance(50)) {
                  sig.wait();
                  c.expect(flag->load(std::memory_order_relaxed) == 1, "ready-early", "signal ready before the execution ended");
                } else later.emplace_back(std::move(sig), q);
              }
              break;
            }
            case 5: {
              auto sig = p->waitablePost<Item>(item(s, q));
              if (sig.valid()) {
                acc.push_back(q);
                if (r.chance(50)) sig.wait();
                else later.emplace_back(std::move(sig), q);
              }
              break;
            }
            case 6: if (asyncEx->execute(body(q))) acc.push_back(q); break;
            case 7: if (ex->execute(body(q))) acc.push_back(q); break;
            case 8: {
              bool ran = false;
              c.expect(blockEx->execute([&o, s, q, &ran] { o.item(s, q); ran = true; }), "executor-refused", "x");
              acc.push_back(q);
              c.expect(ran, "blocking-executor", "returned before the execution ended");
              break;
            }
            case 9: {
              int v = p->waitableExecute([&o, s, q] { o.item(s, q); return q * 3 + 1; });
              acc.push_back(q);
              c.expect(v == q * 3 + 1, "result", "wrong result of waitableExecute");
              break;
            }
            case 10: {
              // a wrapped execution may be called several times
              auto wr = r.chance(50) ? p->willExecuteOnThis([&o, s] { o.item(s, -1); })
                        : r.chance(50) ? p->willAsyncExecuteOnThis([&o, s] { o.item(s, -1); })
                                       : p->willBlockingExecuteOnThis([&o, s] { o.item(s, -1); });
              int n = r.range(1, 3);
              for (int k = 0; k < n; ++k) { wr(); acc.push_back(-1); }
              break;
            }
            case 11: {
              // failing executions deliver their exception
              auto sig = p->waitableExecute([&o, s, q] { o.item(s, q); throw std::runtime_error("x" + std::to_string(q)); });
              acc.push_back(q);
              std::string got = "x" + std::to_string(q);
              // the reference count of exceptions is not instrumented in libstdc++: TSan cannot follow it
              if (mon::kTsan) sig.wait();
              else { got.clear();
              try { sig.get(); } catch (const std::runtime_error &e) { got = e.what(); } }
              c.expect(got == "x" + std::to_string(q), "exception", "exception of a waitable execution lost: ", got);
              if (!mon::kTsan) {
                // the form with a result has none to give then
                std::string what;
                try {
                  int v = p->waitableExecute([&o, s, q]() -> int { o.item(s, q); throw std::runtime_error("y" + std::to_string(q)); });
                  what = "returned " + std::to_string(v);
                } catch (const std::runtime_error &e) { what = e.what(); }
                acc.push_back(q);
                c.expect(what == "y" + std::to_string(q), "result-exception", "a throwing execution with a result: ", what);
              }
              break;
            }
            case 12: {
              int how = (int)r.below(8);
              p->executeAsync([&selfWork, how] { selfWork(how); });
              break;
            }
            default:
              c.expect(!p->post<Unhandled>(q), "refuse", "a message without handler was accepted");
          }
          if (r.chance(5)) mon::jitter(r);
        }
        for (auto &l : later) {
          l.first.wait();
          auto it = doneFlag.find(l.second);
          if (it != doneFlag.end())
            c.expect(it->second->load(std::memory_order_relaxed) == 1, "ready-early", "signal ready before the execution ended");
        }
      });
    }
    gate.release();
    for (auto &t : ts) t.join();
    // everything accepted must have run after this fence (twice: self submitted work)
    p->waitableExecute([] {}).wait();
    p->waitableExecute([] {}).wait();
    c.expect(p->pendingCout() == 0, "pending", "pending work after everything ran: ", p->pendingCout());
  }
  uint64_t total = 0;
  for (int s = 0; s < nS; ++s) {
    total += accepted[s].size();
    c.expect(o.ran[s] == accepted[s], "fifo", "sender ", s, ": accepted ", accepted[s].size(), " ran ", o.ran[s].size(),
             " or in another order");
  }
  c.expect(o.ran[selfId] == selfPosted, "fifo-self", "self submitted work lost or reordered: ", selfPosted.size(), " vs ",
           o.ran[selfId].size());
  c.observe("accepted", total);
  c.observe("self_submitted", selfPosted.size());
  if (nS > 1) c.nontrivial();
  c.sign();
  c.note("senders=" + std::to_string(nS) + " ops=" + std::to_string(nOps) + " executed=" + std::to_string(total));
}

// Timed run forms, driven from this thread.
SCENARIO(proc_timed) {
  auto p = Processor::create();
  Oracle o(c);
  o.proc = p.get();
  o.owner = std::this_thread::get_id();
  auto con = p->connect<Item>([&](const Item &i) { o.item(i.sender, i.seq); });
  using clk = std::chrono::steady_clock;
  int seq = 0;
  size_t expectRan = 0;
  uint64_t sg = 0;
  for (int step = 0; step < 12; ++step) {
    int pend = c.rng.range(0, 5);
    for (int i = 0; i < pend; ++i) {
      if (c.rng.chance(50)) p->post<Item>(item(0, seq++));
      else { int q = seq++; p->executeAsync([&o, q] { o.item(0, q); }); }
    }
    size_t queued = (size_t)seq - expectRan;
    c.expect(p->pendingCout() == queued, "pending", "pending count ", p->pendingCout(), " expected ", queued);
    c.expect(!this_processor::instance(), "this_processor-outside", "this_processor set outside of run");
    int d = c.rng.range(0, 4000);
    auto t0 = clk::now();
    int form = c.rng.range(0, 4);
    sg = sg * 31 + form * 7 + pend;
    if (form == 0 || form == 1) {
      bool r = form ? p->runOnceFor(us{d}) : p->runOnceUntil(std::chrono::system_clock::now() + us{d});
      auto el = clk::now() - t0;
      c.expect(r == (queued > 0), "run-once", "runOnce returned ", r, " with ", queued, " pending");
      if (queued) expectRan++;
      else c.expect(el >= us{d} - us{1000}, "early", "runOnce returned after less than its timeout");
      if (queued) c.expect(el < 5s, "late", "runOnce waited although work was pending");
    } else if (form == 2 || form == 3) {
      if (form == 2) p->runFor(us{d});
      else p->runUntil(std::chrono::system_clock::now() + us{d});
      expectRan = seq;
      c.expect(clk::now() - t0 >= us{d} - us{1000}, "early", "runFor/Until returned before its deadline");
    } else {
      // stop ends it early
      std::thread st([&] { mon::napUs(d); p->stop(); });
      p->runFor(10min);
      st.join();
      c.expect(clk::now() - t0 < 60s, "stop-timed", "stop did not end runFor");
      p->reuse();
      seq = 0;
      expectRan = 0;
      o.ran.clear();
    }
    auto &ran = o.ran[0];
    c.expect(ran.size() == expectRan || form == 4, "timed-count", "ran ", ran.size(), " expected ", expectRan);
    for (size_t i = 0; i < ran.size(); ++i) c.expect(ran[i] == (int)i, "timed-order", "order");
    c.observe("timed_runs");
  }
  // another thread's submission wakes a waiting run-once
  std::atomic<bool> did{false};
  p->runFor(us{0});
  std::thread w([&] { mon::napUs(c.idx % 3 * 500); did = true; p->executeAsync([] {}); });
  auto t0 = clk::now();
  bool r = p->runOnceFor(30s);
  auto el = clk::now() - t0;
  w.join();
  c.expect(r && did, "wakeup", "runOnceFor missed the submission");
  c.expect(el < 25s, "wakeup-late", "runOnceFor slept through a submission");
  c.nontrivial();
  c.sign(sg);
}

// Timed run forms of a processor with running timers end in time as well.
SCENARIO(proc_timers) {
  auto p = Processor::create();
  bool once = c.rng.chance(50);
  std::atomic<bool> fired{false};
  Timer t;
  p->executeAsync([&] { t.start(ms{500}, [&] { fired = true; }); });
  if (once) {
    p->runOnceFor(ms{5});
    p->runOnceFor(ms{5});
    p->runOnceFor(ms{5});
  } else
    p->runFor(ms{20});
  c.expect(!fired, "overrun", "a timed run of some ms did not return before the end of a timer of 500 ms");
  p->stop();
  c.observe("timed_runs_with_timers");
  c.sign(once);
  c.nontrivial();
}

// Exceptions of executions, handlers and init functions leave the run call;
// the processor goes on with the rest of the work when it is run again.
SCENARIO(proc_throw) {
  struct Oops { int v; };
  auto p = Processor::create(c.rng.chance(50) ? uniqueId(c, "pt") : "");
  std::vector<int> ran, expected;
  int thrown = 0, seq = 0;
  const auto self = std::this_thread::get_id();
  auto step = [&](int q, bool bad) {
    c.expect(this_processor::instance() == p, "this_processor", "this_processor is not the running processor");
    c.expect(std::this_thread::get_id() == self, "wrong-thread", "x");
    ran.push_back(q);
    if (bad) throw Oops{q};
  };
  auto con = p->connect<Item>([&](const Item &i) { step(i.seq, i.sender == 1); });
  uint64_t sg = 0;
  for (int round = 0; round < 8; ++round) {
    const int n = c.rng.range(1, 6);
    std::vector<int> bad;
    for (int i = 0; i < n; ++i) {
      const int q = seq++;
      const bool b = c.rng.chance(30);
      if (b) bad.push_back(q);
      switch (c.rng.below(3)) {
        case 0: c.expect(p->executeAsync([&, q, b] { step(q, b); }), "refused", "x"); break;
        case 1: c.expect(p->post<Item>(item(b, q)), "refused", "x"); break;
        default: c.expect(p->execute([&, q, b] { step(q, b); }), "refused", "x");
      }
      expected.push_back(q);
      sg = sg * 3 + b;
    }
    const bool last = round == 7;
    if (last) p->executeAsync([&] { this_processor::stop(); });
    const int form = last ? 0 : c.rng.range(0, 4);
    sg = sg * 7 + form;
    size_t next = 0;  // the next failure to be seen
    for (int guard = 0; guard < 100; ++guard) {
      bool inited = false, deinited = false, threw = false;
      const bool initThrows = form == 0 && c.rng.chance(25);
      try {
        switch (last ? 0 : form) {
          case 0:
            if (!last && !guard) p->executeAsync([] { throw Oops{-2}; });
            p->run([&] { inited = true; c.expect(this_processor::instance() == p, "this_processor", "init"); if (initThrows) throw Oops{-1}; },
                   [&] { deinited = true; c.expect(this_processor::instance() == p, "this_processor", "deinit"); });
            break;
          case 1: p->runFor(us{1500}); break;
          case 2: p->runUntil(std::chrono::system_clock::now() + us{1500}); break;
          case 3: while (p->runOnceFor(us{0})) {} break;
          default: while (p->runOnceUntil(std::chrono::system_clock::now())) {}
        }
      } catch (const Oops &e) {
        threw = true;
        thrown++;
        if (e.v >= 0) {
          c.expect(next < bad.size() && bad[next] == e.v, "wrong-exception", "exception ", e.v);
          c.expect(!ran.empty() && ran.back() == e.v, "ran-further", "work was carried out while an exception left the run");
          next++;
        } else if (e.v == -2) {
          threw = false;  // the end of this round of run()
          thrown--;
          c.expect(next == bad.size(), "lost-exception", "x");
        } else {
          c.expect(initThrows && !deinited, "init-exception", "x");
        }
      }
      c.expect(!this_processor::instance(), "this_processor-left", "this_processor still set after an exception left a run");
      c.expect(!(inited && !initThrows) || deinited, "no-deinit", "init without deinit");
      if (!threw) break;
    }
    c.expect(next == bad.size(), "lost-exception", "saw ", next, " of ", bad.size(), " exceptions");
    c.expect(ran == expected, "throw-order", "ran ", ran.size(), " of ", expected.size(), " or in another order");
  }
  c.expect(p->stopped(), "not-stopped", "x");
  c.observe("thrown_runs", thrown);
  c.nontrivial();
  c.sign(sg);
}

// Every entry point of Processor and this_processor, on the own thread and on
// others, against a model: work given on the own thread through the immediate
// forms runs before they return, everything else in the order it was given; a
// stopped or gone processor takes nothing, says so, and lets go of the work.
namespace {
struct FormMsg { int q; };
struct FormNote {};
struct Forms {
  Ctx &c;
  ProcessorInstance p;
  ProcessorID id;
  std::thread::id owner = std::this_thread::get_id();
  std::deque<int> queued;      // given, not yet run
  int next = 0, now = -1, nowDone = -1, budget = 80, depth = 0, inHandler = 0;
  std::shared_ptr<int> token = std::make_shared<int>(0);   // held by the work
  std::atomic<int> blocked{0};
  uint64_t sg = 0;
  Forms(Ctx &c, ProcessorInstance p) : c(c), p(p), id(p->id()) {}

  void current() {
    c.expect(std::this_thread::get_id() == owner, "wrong-thread", "work ran on another thread");
    c.expect(this_processor::instance().get() == p.get() && this_processor::ref().lock() == p && this_processor::id() == id && !this_processor::stopped(),
             "this_processor", "this_processor is another one than the one which runs the work");
  }
  void nobody() {
    c.expect(!this_processor::instance() && this_processor::ref().expired() && this_processor::id().empty() && !this_processor::stopped() &&
                 !this_processor::stop() && !this_processor::execute([this] { c.fail("nobody", "work ran without a processor"); }) &&
                 !this_processor::executeAsync([this] { c.fail("nobody", "work ran without a processor"); }) &&
                 !this_processor::post<FormMsg>(1) && !this_processor::waitablePost(makeMessage<FormMsg>(1)).valid() &&
                 !this_processor::waitableExecute([this] { c.fail("nobody", "work ran without a processor"); }).valid() &&
                 !this_processor::getExecutor() && !this_processor::getAsyncExecutor() && !this_processor::getWaitableExecutor() &&
                 !this_processor::willExecuteOnThis([] {}) && !this_processor::willAsyncExecuteOnThis([] {}) && !this_processor::willBlockingExecuteOnThis([] {}),
             "nobody", "this_processor does something on a thread which runs no processor");
    this_processor::disconnect<FormMsg>();
  }
  void ran(int q) {
    current();
    if (q == now) nowDone = q;   // an immediate one
    else {
      c.expect(!queued.empty() && queued.front() == q, "forms-order", "work ", q, " ran instead of ", queued.empty() ? -1 : queued.front());
      c.expect(depth == 0, "forms-nested", "work ", q, " ran within another one");
      if (!queued.empty()) queued.pop_front();
    }
    depth++;
    const auto outerNow = now, outerDone = nowDone;
    for (int k = c.rng.range(0, 3); k > 0 && budget > 0; --k) { budget--; give(true); }
    now = outerNow, nowDone = outerDone;
    depth--;
  }
  // gives one piece of work in a random form
  void give(bool inside) {
    const int q = next++;
    int form = c.rng.below(inside ? 22 : 9);
    if (inside && inHandler && (form == 13 || form == 14)) form = 1;   // one emission at a time
    sg = sg * 31 + form;
    c.observe((inside ? "inside_form_" : "outside_form_") + std::to_string(form));
    auto work = [this, q, t = token] { ran(q); };
    auto async = [&] { queued.push_back(q); };
    auto immediate = [&](auto f) {
      now = q, nowDone = -1;
      bool ok = f();
      c.expect(ok, "forms-refused", "work refused by form ", form);
      c.expect(nowDone == q, "forms-not-now", "work given on the own thread by form ", form, " did not run at once");
      now = -1;
    };
    auto call = [&](Execution e) { if (!e) return false; e(); return true; };
    auto ready = [&](auto s) { return s.valid() && s.waitFor(0ms) == std::future_status::ready; };
    auto accepted = [&](bool ok) { c.expect(ok, "forms-refused", "work refused by form ", form); };
    if (!inside) {
      async();
      switch (form) {
        case 0: accepted(p->execute(work)); break;
        case 1: accepted(p->executeAsync(work)); break;
        case 2: accepted(p->getExecutor()->execute(work)); break;
        case 3: accepted(p->getAsyncExecutor()->execute(work)); break;
        case 4: accepted(call(p->willExecuteOnThis(work))); break;
        case 5: accepted(call(p->willAsyncExecuteOnThis(work))); break;
        case 6: { auto s = p->waitableExecute(work); accepted(s.valid() && s.waitFor(0ms) != std::future_status::ready); break; }
        case 7: accepted(p->post<FormMsg>(q)); break;
        default: { auto s = p->waitablePost<FormMsg>(q); accepted(s.valid() && s.waitFor(0ms) != std::future_status::ready); }
      }
      return;
    }
    switch (form) {
      case 0: immediate([&] { return p->execute(work); }); break;
      case 1: immediate([&] { return this_processor::execute(work); }); break;
      case 2: immediate([&] { return p->getExecutor()->execute(work); }); break;
      case 3: immediate([&] { return this_processor::getExecutor()->execute(work); }); break;
      case 4: immediate([&] { return call(p->willExecuteOnThis(work)); }); break;
      case 5: immediate([&] { return call(this_processor::willExecuteOnThis(work)); }); break;
      case 6: immediate([&] { return p->getBlockingExecutor()->execute(work); }); break;
      case 7: immediate([&] { return this_processor::getWaitableExecutor()->execute(work); }); break;
      case 8: immediate([&] { return call(p->willBlockingExecuteOnThis(work)); }); break;
      case 9: immediate([&] { return call(this_processor::willBlockingExecuteOnThis(work)); }); break;
      case 10: immediate([&] { return ready(p->waitableExecute(work)); }); break;
      case 11: immediate([&] { return ready(this_processor::waitableExecute(work)); }); break;
      case 12: immediate([&] { return p->waitableExecute([&] { work(); return q + 1; }) == q + 1; }); break;
      case 13: immediate([&] { return ready(p->waitablePost<FormMsg>(q)); }); break;
      case 14: immediate([&] { return ready(this_processor::waitablePost(makeMessage<FormMsg>(q))); }); break;
      case 15: async(); accepted(p->executeAsync(work)); break;
      case 16: async(); accepted(this_processor::executeAsync(work)); break;
      case 17: async(); accepted(this_processor::getAsyncExecutor()->execute(work)); break;
      case 18: async(); accepted(call(this_processor::willAsyncExecuteOnThis(work))); break;
      case 19: async(); accepted(this_processor::post<FormMsg>(q)); break;
      case 20: async(); accepted(this_processor::post(makeMessage<FormMsg>(q))); break;
      default: {   // handlers which are connected from the inside
        int got = 0;
        auto con = this_processor::connect<FormNote>([&](const FormNote &) { got++; });
        c.expect(p->connected<FormNote>() && con.connected(), "forms-connect", "not connected");
        accepted(ready(p->waitablePost<FormNote>()));
        c.expect(got == 1, "forms-connect", "a handler connected from the inside was called ", got, " times");
        if (c.rng.chance(50)) con.disconnect(); else this_processor::disconnect<FormNote>();
        c.expect(!p->connected<FormNote>() && !this_processor::post<FormNote>() && !this_processor::waitablePost(makeMessage<FormNote>()).valid(),
                 "forms-disconnect", "still connected");
        c.expect(got == 1, "forms-connect", "called after the disconnect");
      }
    }
  }
  // nothing is taken any more, whatever the form
  void refused(const std::vector<Execution> &will, const std::vector<Processor::Executor> &ex) {
    const auto before = token.use_count();
    auto no = [this, t = token] { c.fail("forms-after", "work ran on a processor which is stopped or gone"); };
    for (auto &e : ex) c.expect(!e->execute(no), "forms-after", "an executor of a stopped or gone processor took work");
    for (auto &w : will) w();
    if (p) {
      c.expect(!p->execute(no) && !p->executeAsync(no) && !p->waitableExecute(no).valid() && !p->post<FormMsg>(0) && !p->waitablePost<FormMsg>(0).valid(),
               "forms-after", "a stopped processor took work");
      c.expect(p->pendingCout() == 0, "forms-after", "a stopped processor has pending work");
      p->willExecuteOnThis(no)(), p->willAsyncExecuteOnThis(no)(), p->willBlockingExecuteOnThis(no)();
    }
    c.expect(token.use_count() == before + 1, "forms-kept", "refused work is kept");
  }
};
}  // namespace

SCENARIO(proc_forms) {
  auto p = Processor::create(c.rng.chance(50) ? uniqueId(c, "pf") : "");
  if (!p) return;
  Forms f(c, p);
  f.nobody();
  auto con = p->connect<FormMsg>([&f](const FormMsg &m) { f.inHandler++, f.ran(m.q), f.inHandler--; });
  // on the own thread
  for (int round = c.rng.range(1, 5); round; --round) {
    for (int n = c.rng.range(1, 6); n; --n) f.give(false);
    c.expect(p->pendingCout() == f.queued.size(), "forms-pending", "x");
    switch (c.rng.below(4)) {
      case 0: while (p->runOnceFor(us{0})) f.nobody(); break;
      case 1: while (p->runOnceUntil(std::chrono::system_clock::now())) {} break;
      case 2: p->runFor(ms{1}); break;
      default: p->runUntil(std::chrono::system_clock::now() + ms{1});
    }
    while (p->runOnceFor(us{0})) {}   // what a slow machine left over
    c.expect(f.queued.empty() && p->pendingCout() == 0, "forms-lost", f.queued.size(), " pieces of work did not run");
    f.nobody();
  }
  c.expect(f.token.use_count() == 1, "forms-kept", "work which ran is kept");
  // on another thread
  std::vector<Execution> will;
  std::vector<Processor::Executor> ex{p->getExecutor(), p->getAsyncExecutor(), p->getBlockingExecutor()};
  {
    std::thread::id owner{};
    std::thread t([&] { p->run([&] { owner = std::this_thread::get_id(); }); });
    int runs = 0;   // by the thread of the processor, read after it was waited for
    auto work = [&] {
      runs++;
      c.expect(std::this_thread::get_id() == owner && this_processor::id() == f.id, "wrong-thread", "work ran on another thread");
    };
    p->waitableExecute(Execution(work)).wait();
    c.expect(runs == 1, "forms-wait", "waited for work which did not run");
    for (int n = c.rng.range(2, 12), want = 1; n; --n) {
      const int form = c.rng.below(5);
      for (int k = c.rng.range(0, 2); k; --k, ++want) c.expect(c.rng.chance(50) ? p->execute(work) : ex[c.rng.below(2)]->execute(work), "forms-refused", "x");
      ++want;
      switch (form) {
        case 0: { auto s = p->waitableExecute(Execution(work)); c.expect(s.valid(), "forms-refused", "x"); s.wait(); break; }
        case 1: c.expect(ex[2]->execute(work), "forms-refused", "a blocking executor refused"); break;
        case 2: p->willBlockingExecuteOnThis(work)(); break;
        case 3: c.expect(p->waitableExecute([&] { work(); return std::string("x") + std::to_string(runs); }) == "x" + std::to_string(want), "forms-result", "another result than the work's"); break;
        default: {   // forms made on the thread of the processor, used on this one
          Execution a, b;
          Processor::Executor e;
          p->waitableExecute(Execution([&] { a = this_processor::willExecuteOnThis(work), b = this_processor::willBlockingExecuteOnThis(work), e = this_processor::getWaitableExecutor(); })).wait();
          a(), b(), want += 1;
          if (c.rng.chance(50)) { c.expect(e && e->execute(work), "forms-refused", "x"); ++want; }
          will.push_back(a), will.push_back(b);
        }
      }
      c.expect(runs == want, "forms-wait", "form ", form, " returned when ", runs, " of ", want, " pieces of work were done");
    }
    auto none = [&f, t = f.token] { f.c.fail("forms-after", "work ran on a processor which is stopped or gone"); };
    will = {p->willExecuteOnThis(none), p->willAsyncExecuteOnThis(none), p->willBlockingExecuteOnThis(none)};
    if (c.rng.chance(50)) p->stop();
    else p->waitableExecute(Execution([] { this_processor::stop(); })).wait();
    t.join();
  }
  f.refused(will, ex);
  std::weak_ptr<Processor> gone = p;
  if (c.rng.chance(80)) {
    con = {};
    f.p.reset(), p.reset();
    c.expect(gone.expired(), "forms-kept", "a processor is kept alive by its executors or executions");
    f.refused(will, ex);
  }
  will.clear();
  c.expect(f.token.use_count() == 1, "forms-kept", "work is kept");
  c.observe("forms", f.next);
  c.nontrivial();
  c.sign(f.sg);
}

// Executions which run another processor (or their own one) for a while: work
// goes on in order, and the outer processor is this_processor again afterwards.
SCENARIO(proc_nested) {
  struct Oops {};
  const int n = c.rng.range(2, 4);
  std::vector<ProcessorInstance> ps;
  std::vector<int> ran(n, 0), submitted(n, 0), depth(n, 0);
  const auto self = std::this_thread::get_id();
  for (int i = 0; i < n; ++i) ps.push_back(Processor::create(c.rng.chance(50) ? uniqueId(c, "pn") : ""));
  int nested = 0, budget = 60, thrown = 0;
  uint64_t sg = n;
  std::function<void(int, int)> drive;
  std::function<bool(int)> submit = [&](int i) {
    const int q = submitted[i]++;
    return ps[i]->executeAsync([&, i, q] {
      c.expect(ran[i] == q, "nested-order", "execution ", q, " of a processor came instead of ", ran[i]);
      ran[i]++;
      c.expect(std::this_thread::get_id() == self, "wrong-thread", "x");
      const auto outer = this_processor::instance();
      c.expect(outer != nullptr, "no-this_processor", "there is no this_processor within an execution");
      for (int k = c.rng.range(0, 2); k > 0 && budget > 0; --k) {
        budget--;
        const int j = c.rng.range(0, n - 1);
        for (int m = c.rng.range(0, 3); m > 0; --m) submit(j);
        const bool boom = c.rng.chance(15);
        if (boom) {
          submitted[j]++;
          ps[j]->executeAsync([&, j] { ran[j]++; throw Oops{}; });
        }
        try {
          depth[i]++;
          drive(j, c.rng.range(0, 3));
        } catch (const Oops &) {
          thrown++;
        }
        depth[i]--;
        nested++;
        c.expect(this_processor::instance() == outer, "this_processor-changed", "a nested run changed this_processor of the outer one");
        if (!outer || outer->stopped()) continue;
        bool done = false;
        const auto t = std::this_thread::get_id();
        c.expect(outer->execute([&] { done = std::this_thread::get_id() == t; }) && done, "own-execute", "an execution on the own thread was not run at once after a nested run");
        done = false;
        auto s = outer->waitableExecute([&] { done = true; });
        c.expect(s.valid() && done && s.waitFor(us{0}) == std::future_status::ready, "own-waitable", "a waitable execution on the own thread was not run at once after a nested run");
        int v = outer->waitableExecute([&] { return 5; });
        c.expect(v == 5, "own-result", "x");
      }
    });
  };
  drive = [&](int j, int form) {
    sg = sg * 5 + form;
    switch (form) {
      case 0: ps[j]->runFor(us{200}); break;
      case 1: ps[j]->runUntil(std::chrono::system_clock::now()); break;
      case 2: ps[j]->runOnceFor(us{0}); break;
      default: ps[j]->runOnceUntil(std::chrono::system_clock::now());
    }
  };
  for (int round = 0; round < 4; ++round) {
    for (int m = c.rng.range(1, 4); m > 0; --m) submit(0);
    for (int guard = 0; guard < 200; ++guard) {
      try {
        if (round == 3 && !guard) ps[0]->executeAsync([&] { this_processor::stop(); });
        round == 3 ? ps[0]->run() : ps[0]->runFor(us{100});
        c.expect(!this_processor::instance(), "this_processor-left", "this_processor is still set after the outer run");
        break;
      } catch (const Oops &) {
        thrown++;
        c.expect(!this_processor::instance(), "this_processor-left", "this_processor is still set after an exception left the outer run");
      }
    }
  }
  for (auto &p : ps) p->stop();
  c.observe("nested_runs", nested);
  c.observe("nested_throws", thrown);
  c.nontrivial();
  c.sign(sg);
}

// Two processors with the same id (one left the routing by its stop) are still
// two processors.
SCENARIO(proc_same_id) {
  auto id = uniqueId(c, "si");
  auto first = Processor::create(id);
  first->stop();
  auto second = Processor::create(id);
  c.expect(second != nullptr, "id-not-free", "the id of a stopped processor is not free");
  if (!second) return;
  first->reuse();
  AsyncProcessor a(first), b(second);
  a.launch();
  b.launch();
  std::thread::id threads[2];
  ProcessorInstance procs[2] = {first, second};
  for (int i = 0; i < 2; ++i) procs[i]->waitableExecute([&, i] { threads[i] = std::this_thread::get_id(); }).wait();
  c.expect(threads[0] != threads[1], "threads", "x");
  auto where = [&](int i) {
    c.expect(std::this_thread::get_id() == threads[i], "wrong-thread", "execution on the thread of another processor with the same id");
    c.expect(this_processor::instance() == procs[i], "this_processor", "x");
  };
  auto con0 = first->connect<Item>([&](const Item &) { where(0); });
  auto con1 = second->connect<Item>([&](const Item &) { where(1); });
  const int from = c.rng.range(0, 1), to = 1 - from;
  std::atomic<int> done{0};
  procs[from]->waitableExecute([&] {
    for (int k = 0; k < 10; ++k) {
      auto task = [&] { where(to); done++; };
      switch (k % 5) {
        case 0: procs[to]->waitableExecute(task).wait(); break;
        case 1: procs[to]->waitablePost<Item>(item(0, k)).wait(); done++; break;
        case 2: procs[to]->getBlockingExecutor()->execute(task); break;
        case 3: procs[to]->willBlockingExecuteOnThis(task)(); break;
        default: procs[to]->execute(task); procs[to]->waitableExecute([] {}).wait();
      }
      bool own = false;
      procs[from]->waitableExecute([&] { where(from); own = true; });
      c.expect(own, "self-waitable", "must run at once");
    }
  }).wait();
  c.expect(done == 10, "lost", "ran ", done.load());
  c.observe("same_id_calls", 10);
  c.nontrivial();
  c.sign((uint64_t)from);
}

// Several processors calling into each other, waitable along an acyclic order.
SCENARIO(proc_mesh) {
  const int n = c.rng.range(2, 4), rounds = c.thorough ? 60 : 25;
  std::vector<ProcessorInstance> ps;
  std::vector<std::unique_ptr<Oracle>> os;
  std::vector<std::unique_ptr<Runner>> rs;
  std::vector<MsgConnection> cons;
  std::vector<std::vector<std::vector<int>>> sent(n, std::vector<std::vector<int>>(n));  // [from][to]
  for (int i = 0; i < n; ++i) {
    ps.push_back(Processor::create());
    os.push_back(std::make_unique<Oracle>(c));
    os[i]->proc = ps[i].get();
    auto *o = os[i].get();
    cons.push_back(ps[i]->connect<Item>([o, &c](const Item &m) { c.expect(m.ok(), "payload", "x"); o->item(m.sender, m.seq); }));
  }
  for (int i = 0; i < n; ++i) rs.push_back(std::make_unique<Runner>(ps[i], *os[i], c.rng, c));
  for (int i = 0; i < n; ++i) c.expect(mon::eventually([&] { return os[i]->owner.load() != std::thread::id{}; }), "start", "x");
  std::vector<Processor::CompleteSignal> dones;
  for (int i = 0; i < n; ++i) {
    auto r = std::make_shared<mon::Rng>(c.rng.fork());
    // each processor runs a chain of steps, re-submitting itself
    auto step = std::make_shared<std::function<void(int)>>();
    *step = [&, i, r, wstep = std::weak_ptr<std::function<void(int)>>(step)](int k) {
      auto st = wstep.lock();
      for (int j = 0; j < 3; ++j) {
        int to = (int)r->below(n);
        int q = (int)sent[i][to].size();
        bool ok = false;
        switch (r->below(4)) {
          case 0: ok = ps[to]->post<Item>(item(i, q)); break;
          case 1: ok = ps[to]->executeAsync([&os, i, to, q] { os[to]->item(i, q); }); break;
          case 2:
            if (to > i) { bool ran = false; ps[to]->waitableExecute([&] { os[to]->item(i, q); ran = true; }).wait(); ok = true; c.expect(ran, "ready-early", "x"); break; }
            [[fallthrough]];
          default:
            if (to > i) { auto s = ps[to]->waitablePost<Item>(item(i, q)); ok = s.valid(); if (ok) s.wait(); }
        }
        if (ok) sent[i][to].push_back(q);
      }
      if (k + 1 < rounds) ps[i]->executeAsync([st, k] { (*st)(k + 1); });
      else ps[i]->executeAsync([st] {});
    };
    ps[i]->executeAsync([step] { (*step)(0); });
  }
  // every chain has ended when `rounds` steps were taken: drain until quiet
  for (int pass = 0; pass < rounds + 3; ++pass)
    for (int i = 0; i < n; ++i) ps[i]->waitableExecute([] {}).wait();
  rs.clear();
  for (int to = 0; to < n; ++to)
    for (int from = 0; from < n; ++from) {
      c.expect(os[to]->ran[from] == sent[from][to], "fifo-mesh", from, "->", to, ": sent ", sent[from][to].size(), " ran ",
               os[to]->ran[from].size());
      c.observe("mesh_items", sent[from][to].size());
    }
  c.nontrivial();
  c.sign();
}

// ---------------------------------------------------------------- P02
namespace {
struct Cycle {
  std::atomic<int> stopReturned{0};
};
}  // namespace

// stop racing with senders, waiters and the run loop; then reuse.
SCENARIO(stop_race) {
  auto p = Processor::create(c.rng.chance(50) ? uniqueId(c, "sr") : "");
  const int cycles = c.rng.range(1, 3);
  std::atomic<int> gen{0};           // current generation
  std::atomic<bool> running{false};  // a run call is active
  auto con = p->connect<Item>([&](const Item &i) {
    c.expect(i.seq == gen.load(std::memory_order_relaxed), "revived", "work of an earlier life ran after reuse");
    c.expect(running.load(std::memory_order_relaxed), "ran-outside", "execution outside of run");
  });
  for (int cyc = 0; cyc < cycles; ++cyc) {
    gen = cyc;
    std::atomic<bool> stopDone{false}, deinit{false};
    std::atomic<int> afterStop{0}, released{0}, waits{0};
    std::atomic<std::thread::id> rt{};
    const int form = c.rng.range(0, 3);
    const bool early = c.rng.chance(20);  // stop may come before run starts
    std::atomic<bool> started{false};
    std::thread runner([&, r = c.rng.fork()]() mutable {
      rt = std::this_thread::get_id();
      running = true;
      if (form <= 1) {
        p->run([&] { started = true; c.expect(std::this_thread::get_id() == rt.load(), "init-thread", "init on a wrong thread"); },
               [&] {
                 c.expect(std::this_thread::get_id() == rt.load(), "deinit-thread", "deinit on a wrong thread");
                 c.expect(!deinit.exchange(true), "deinit-twice", "deinit called twice");
               });
        c.expect(deinit.load(), "no-deinit", "run returned without deinit");
      } else if (form == 2) {
        started = true;
        p->runFor(10min);
      } else {
        started = true;
        while (p->runOnceFor(10min)) {}
      }
      running = false;
      c.expect(p->stopped(), "run-returned", "run returned although the processor was not stopped");
      c.expect(!this_processor::instance(), "this_processor-left", "this_processor still set after run");
    });
    if (!early) mon::eventually([&] { return started.load(); });
    std::vector<std::thread> ts;
    mon::Gate gate;
    const int nS = c.rng.range(1, 4);
    for (int s = 0; s < nS; ++s)
      ts.emplace_back([&, s, cyc, r = c.rng.fork()]() mutable {
        gate.wait();
        int extra = r.range(1, 6);
        for (int q = 0; q < 4000; ++q) {
          bool late = stopDone.load(std::memory_order_acquire);
          bool acc = false;
          auto task = [&, late, cyc] {
            c.expect(!late, "ran-after-stop", "work submitted after stop() was carried out");
            c.expect(gen.load(std::memory_order_relaxed) == cyc, "revived", "old work ran");
          };
          switch (r.below(7)) {
            case 0: acc = p->post<Item>(item(s, cyc)); break;
            case 1: acc = p->executeAsync(task); break;
            case 2: acc = p->execute(task); break;
            case 3: {
              auto sg = p->waitableExecute(task);
              acc = sg.valid();
              if (acc) { waits++; sg.wait(); released++; }
              break;
            }
            case 4: {
              auto sg = p->waitablePost<Item>(item(s, cyc));
              acc = sg.valid();
              if (acc) { waits++; sg.wait(); released++; }
              break;
            }
            case 5: acc = p->getBlockingExecutor()->execute(task); break;
            default: acc = (r.chance(50) ? p->getAsyncExecutor() : p->getExecutor())->execute(task);
          }
          if (late) {
            c.expect(!acc, "accepted-after-stop", "work was accepted after stop() had returned");
            afterStop++;
            if (!--extra) break;
          }
          if (r.chance(3)) mon::jitter(r);
        }
      });
    gate.release();
    const int how = c.rng.range(0, 4);
    mon::napUs((int)c.rng.below(400));
    auto doStop = [&] {
      p->stop();
      c.expect(p->stopped(), "not-stopped", "stopped() false after stop()");
      stopDone.store(true, std::memory_order_release);
    };
    if (how == 0) {
      if (!p->executeAsync([&] {
            c.expect(this_processor::stop(), "tp-stop", "this_processor::stop failed");
            stopDone.store(true, std::memory_order_release);
          }))
        doStop();
    } else if (how == 1) {
      std::thread a(doStop), b(doStop);
      a.join();
      b.join();
    } else {
      doStop();
    }
    for (auto &t : ts) t.join();
    runner.join();   // the watchdog reports a run that never returns
    c.expect(released == waits, "waiter-stuck", "a waiter was not released");
    c.expect(p->pendingCout() == 0, "pending-after-stop", "pending work survived stop: ", p->pendingCout());
    // whatever way work is handed to the stopped processor: refused, not run
    {
      auto no = [&] { c.fail("ran-after-stop", "a stopped processor carried out work"); };
      c.expect(!p->getExecutor()->execute(no), "executor-after-stop", "getExecutor()");
      c.expect(!p->getAsyncExecutor()->execute(no), "executor-after-stop", "getAsyncExecutor()");
      c.expect(!p->getBlockingExecutor()->execute(no), "executor-after-stop", "getBlockingExecutor()");
      for (auto &w : {p->willExecuteOnThis(no), p->willAsyncExecuteOnThis(no), p->willBlockingExecuteOnThis(no)}) {
        try {
          w();
        } catch (const std::exception &e) { c.fail("wrapper-after-stop", std::string("a wrapped execution threw ") + e.what()); }
      }
      if (!mon::kTsan) {
        std::string what;
        try {
          what = "returned " + std::to_string(p->waitableExecute([&] { no(); return 5; }));
        } catch (const std::future_error &) {
        } catch (...) { what = "threw something else"; }
        c.expect(what.empty(), "result-after-stop", "an execution with a result that was refused ", what);
      }
      c.observe("refused_ways", 7);
    }
    c.observe("stop_cycles");
    c.observe("released_waits", waits);
    c.observe("submitted_after_stop", afterStop);
    c.log(kStop, cyc, waits, afterStop);
    c.sign((uint64_t)how * 1000003 + form * 101 + nS * 7 + waits * 131 + afterStop * 17);
    // reuse
    p->reuse();
    c.expect(!p->stopped(), "reuse", "stopped() true after reuse()");
    std::atomic<int> again{0};
    gen = cyc + 1000;
    {
      AsyncProcessor ap(p);
      running = true;
      ap.launch();
      int n = c.rng.range(1, 5), acc = 0;
      for (int i = 0; i < n; ++i) acc += p->executeAsync([&] { again++; });
      c.expect(acc == n, "reuse-refused", "work refused after reuse()");
      p->waitableExecute([] {}).wait();
      c.expect(again == n, "reuse-lost", "work lost after reuse(): ", again.load(), " of ", n);
      ap.stopAndWait();
      c.expect(!ap.running(), "async-running", "running() after stopAndWait()");
      running = false;
    }
    c.expect(p->stopped(), "not-stopped", "not stopped");
    p->reuse();
  }
  c.nontrivial();
}

// waiters of a processor that nobody runs, released by stop or destruction
SCENARIO(stop_never_run) {
  auto p = Processor::create();
  auto con = p->connect<Item>([&](const Item &) { c.fail("ran", "ran without run"); });
  const int n = c.rng.range(1, 5);
  std::vector<Processor::CompleteSignal> sigs;
  struct Counted {
    std::atomic<int> &n;
    Counted(std::atomic<int> &n) : n(n) { n++; }
    Counted(const Counted &o) : n(o.n) { n++; }
    ~Counted() { n--; }
  };
  std::atomic<int> alive{0};
  for (int i = 0; i < n; ++i) {
    if (c.rng.chance(50)) sigs.push_back(p->waitablePost<Item>(item(0, i)));
    else sigs.push_back(p->waitableExecute([&c, k = Counted(alive)] { c.fail("ran", "ran without run"); }));
    c.expect(sigs.back().valid(), "refused", "refused before stop");
    c.expect(sigs.back().waitFor(0ms) == std::future_status::timeout, "ready", "ready without execution");
  }
  std::vector<std::thread> ts;
  std::atomic<int> rel{0};
  for (auto &s : sigs) ts.emplace_back([&, sp = &s] { sp->wait(); rel++; });
  mon::napUs((int)c.rng.below(500));
  c.expect(rel == 0, "released-early", "waiter released before stop");
  int how = c.rng.range(0, 2);
  if (how == 0) p->stop();
  else if (how == 1) { std::thread t([&] { p->stop(); }); t.join(); }
  else { con = {}; p.reset(); }
  for (auto &t : ts) t.join();
  c.expect(rel == n, "waiter-stuck", "not released");
  sigs.clear();
  c.expect(alive == 0, "dropped-alive", "dropped work is still alive: ", alive.load());
  if (p) {
    c.expect(p->stopped(), "not-stopped", "x");
    bool in = false, de = false;
    p->run([&] { in = true; }, [&] { de = true; });  // must return at once
    c.expect(in == de, "deinit", "init without deinit");
    c.expect(!p->runOnceFor(us{10}), "ran", "x");
  }
  c.observe("never_run_waiters", n);
  c.sign(how * 31 + n);
  c.nontrivial();
}

// AsyncProcessor life cycle
SCENARIO(stop_async) {
  const int n = c.rng.range(1, 4);
  std::atomic<int> inits{0}, deinits{0}, ran{0};
  uint64_t sg = 0;
  {
    std::vector<AsyncProcessor> v;
    for (int i = 0; i < n; ++i) {
      AsyncProcessor ap(c.rng.chance(50) ? Processor::create() : Processor::create(uniqueId(c, "sa")));
      int mode = c.rng.range(0, 6);
      sg = sg * 7 + mode;
      if (mode) ap.launch([&] { inits++; }, [&] { deinits++; });
      else { inits++; deinits++; }
      if (mode == 1) ap->stop();
      if (mode == 2) ap->executeAsync([&] { ran++; this_processor::stop(); });
      if (mode == 3) ap.stopAndWait();
      if (mode == 4) { ap->waitableExecute([&] { ran++; }).wait(); ap.stopAndWait(); c.expect(ap->stopped() && !ap.running(), "async", "x");
        ap->reuse(); ap.launch([&] { inits++; }, [&] { deinits++; }); inits--; 
        c.expect(mon::eventually([&] { return inits >= 0; }), "x", "x"); deinits--;
        ap->waitableExecute([&] { ran++; }).wait(); }
      if (mode == 5) ap->waitableExecute([&] { ran++; }).wait();
      if (mode == 6) {
        // another one takes its place: this one has to end
        ProcessorInstance old = ap.instance();
        ap->waitableExecute([&] { ran++; }).wait();
        AsyncProcessor other(Processor::create());
        if (c.rng.chance(70)) other.launch([&] { inits++; }, [&] { deinits++; });
        else { inits++; deinits++; }
        ap = std::move(other);
        c.expect(old->stopped(), "replaced-runs", "the replaced processor was not stopped");
        inits--;
        deinits--;
        c.observe("replaced_async");
      }
      v.push_back(std::move(ap));
    }
  }
  c.expect(inits == n && deinits == n, "init-deinit", "init ", inits.load(), " deinit ", deinits.load(), " of ", n);
  c.observe("async_processors", n);
  c.sign(sg);
  c.nontrivial();
}
