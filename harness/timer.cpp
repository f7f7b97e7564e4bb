// P05: timers
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/SyncTimer.h>
#include <maf/messaging/Timer.h>

#include "proc_common.h"
using namespace hp;
using namespace std::chrono_literals;

namespace {
using Clk = std::chrono::system_clock;   // the clock the intervals are measured with
using Tp = Clk::time_point;

struct T {
  std::unique_ptr<Timer> t;
  bool armed = false;
  bool cyclic = false;
  int gen = 0;
  int fires = 0;        // of this generation
  Tp base{};            // (re)start time
  Tp hi{};              // latest possible deadline of the current start
  Tp lastFire{};
  ms interval{0};
  // the deadline of its next firing lies in [due(), dueMax()]
  Tp due() const { return base + interval * (cyclic ? fires + 1 : 1); }
  Tp dueMax() const { return std::max(hi + interval * (cyclic ? fires : 0), cyclic && fires ? lastFire + interval : hi); }
  std::thread::id thread;
};

// Runs on the processor's thread only.
struct World {
  Ctx &c;
  mon::Rng r;
  ProcessorInstance p;
  std::vector<std::unique_ptr<T>> ts;
  std::thread::id owner;
  int64_t fired = 0, ops = 0, selfOps = 0, compared = 0;
  bool winding = false;
  World(Ctx &c, mon::Rng r) : c(c), r(r), p(Processor::create()) {}

  T *pick() { return ts[r.below(ts.size())].get(); }
  ms interval() {
    int k = (int)r.below(10);
    return ms{k < 3 ? r.range(1, 3) : k < 8 ? r.range(1, 9) : k < 9 ? 0 : 30};
  }
  void create() {
    auto t = std::make_unique<T>();
    t->cyclic = r.chance(40);
    t->t = std::make_unique<Timer>(t->cyclic);
    ts.push_back(std::move(t));
  }
  void start(T *t) { start(t, interval()); }
  void start(T *t, ms iv) {
    if (t->cyclic && iv < 2ms) iv = 2ms;   // an overloaded processor is not the subject
    int gen = ++t->gen;
    t->armed = true;
    t->fires = 0;
    t->interval = iv;
    t->base = Clk::now();
    auto cb = [this, t, gen] { fire(t, gen); };
    if (r.chance(50)) t->t->start(iv, cb);
    else t->t->start((long long)iv.count(), cb);
    t->hi = Clk::now() + iv;
    check(t);
    c.log(1, (int64_t)iv.count(), t->cyclic);
  }
  void stop(T *t) {
    t->t->stop();
    t->armed = false;
    c.log(2);
    check(t);
  }
  void restart(T *t) {
    if (!t->gen) return;                  // nothing to restart yet
    t->base = Clk::now();
    t->fires = 0;
    t->armed = true;
    t->t->restart();
    t->hi = Clk::now() + t->interval;
    c.log(3);
    check(t);
  }
  void toggle(T *t) {
    if (!t->cyclic && t->interval < 2ms) return;
    if (t->cyclic && t->armed && t->fires) return;
    t->cyclic = !t->cyclic;
    t->t->setCyclic(t->cyclic);
  }
  void destroy(size_t i) {
    auto *t = ts[i].get();
    t->t.reset();
    t->armed = false;
    t->gen++;
    graves.push_back(std::move(ts[i]));
    ts.erase(ts.begin() + i);
    c.log(4);
  }
  std::vector<std::unique_ptr<T>> graves;
  void check(T *t) {
    if (t->t) c.expect(t->t->running() == t->armed, "running", "running() is ", t->t->running(), ", expected ", t->armed);
  }
  void once() {
    auto iv = interval();
    auto base = Clk::now();
    auto flag = std::make_shared<int>(0);
    pendingOnce++;
    auto cb = [this, base, iv, flag] {
      c.expect(std::this_thread::get_id() == owner, "thread", "timer fired on a wrong thread");
      c.expect(++*flag == 1, "once", "timeoutAfter fired twice");
      c.expect(Clk::now() >= base + iv, "early", "timeoutAfter fired early");
      pendingOnce--;
      fired++;
    };
    switch (r.below(4)) {
      case 0: Timer::timeoutAfter(iv, cb); break;
      case 1: Timer::timeoutAfter((long long)iv.count(), cb); break;
      case 2: Timer::timeoutAfter(iv, cb, p); break;
      default: Timer::timeoutAfter((long long)iv.count(), cb, p); break;
    }
  }
  int pendingOnce = 0;
  void fire(T *t, int gen) {
    auto now = Clk::now();
    c.expect(std::this_thread::get_id() == owner, "thread", "timer fired on a wrong thread");
    c.expect(t->t != nullptr, "destroyed-fired", "a destroyed timer fired");
    c.expect(t->armed, "stopped-fired", "a stopped timer fired");
    c.expect(t->gen == gen, "stale-fired", "a timer fired for an earlier start");
    // whoever is due earlier fires earlier
    if (!t->cyclic || t->fires == 0) {
      Tp lo = t->due();
      for (auto &u : ts)
        if (u.get() != t && u->armed && u->t) {
          c.expect(u->dueMax() >= lo, "order", "a timer due at +", std::chrono::duration_cast<us>(lo - t->base).count(),
                   "us fired before one which was due ", std::chrono::duration_cast<us>(lo - u->dueMax()).count(), "us earlier");
          compared++;
        }
    }
    t->fires++;
    t->lastFire = Clk::now();
    fired++;
    c.expect(now >= t->base + t->interval * (t->cyclic ? t->fires : 1), "early", "fired ", t->fires, " times after ",
             std::chrono::duration_cast<us>(now - t->base).count(), "us with interval ", t->interval.count(), "ms");
    if (!t->cyclic) {
      c.expect(t->fires == 1, "twice", "one shot timer fired twice");
      t->armed = false;
    }
    if (!t->t) return;
    check(t);
    c.log(5, (int64_t)t->interval.count(), t->fires);
    if (!winding && r.chance(35)) {
      selfOps++;
      auto tt = t;
      switch (r.below(6)) {
        case 0: start(tt); break;
        case 1: stop(tt); break;
        case 2: restart(tt); break;
        case 3:
          for (size_t i = 0; i < ts.size(); ++i)
            if (ts[i].get() == tt) { destroy(i); break; }
          break;
        default: op();
      }
    }
  }
  // many timers at once, some of which are stopped or changed again
  void burst() {
    while (ts.size() < 16) create();
    for (auto &t : ts) if (r.chance(80)) start(t.get(), ms{r.range(1, 40)});
    for (int i = r.range(0, 8); i; --i) {
      auto *t = pick();
      switch (r.below(4)) {
        case 0: restart(t); break;
        case 1: start(t, ms{r.range(1, 40)}); break;
        default: stop(t);
      }
    }
  }
  void op() {
    ops++;
    int k = (int)r.below(23);
    if (k == 22) return burst();
    if (ts.empty() || k < 3) { if (ts.size() < 16) create(); }
    else if (k < 9) start(pick());
    else if (k < 12) stop(pick());
    else if (k < 15) restart(pick());
    else if (k < 16) toggle(pick());
    else if (k < 17) destroy(r.below(ts.size()));
    else if (k < 19) once();
    else if (k < 20) mon::napUs((int)r.below(4000));    // a long execution
    else { start(pick()); mon::napUs((int)r.below(6000)); }
    for (auto &t : ts) check(t.get());
  }
};
}  // namespace

// Random timer programs, from executions and from the callbacks themselves.
SCENARIO_T(timer_model, 90) {
  const int nP = c.rng.range(1, 2);
  std::vector<std::thread> th;
  std::atomic<int64_t> fired{0}, selfOps{0}, compared{0};
  for (int k = 0; k < nP; ++k)
    th.emplace_back([&c, &fired, &selfOps, &compared, r = c.rng.fork()]() mutable {
      World w(c, r);
      w.owner = std::this_thread::get_id();
      auto p = w.p;
      std::thread driver([&w, p, &c, r = w.r.fork()]() mutable {
        int n = r.range(5, c.thorough ? 80 : 35);
        for (int i = 0; i < n; ++i) {
          p->waitableExecute([&] { w.op(); }).wait();
          if (r.chance(60)) mon::napUs((int)r.below(5000));
        }
        // liveness: everything armed fires
        std::map<T *, int> want;
        p->waitableExecute([&] {
          w.winding = true;
          for (auto &t : w.ts) if (t->armed) want[t.get()] = t->fires + 1;
        }).wait();
        bool all = mon::eventually([&] {
          bool ok = true;
          p->waitableExecute([&] {
            for (auto &x : want) if (x.first->armed && x.first->fires < x.second) ok = false;
            if (w.pendingOnce) ok = false;
          }).wait();
          mon::napUs(300);
          return ok;
        }, 15000);
        c.expect(all, "lost", "an armed timer did not fire within 15 s");
        // and nothing fires once stopped
        p->waitableExecute([&] { for (auto &t : w.ts) w.stop(t.get()); }).wait();
        mon::napUs(4000);
        int64_t f0 = 0;
        p->waitableExecute([&] { f0 = w.fired; for (auto &t : w.ts) w.check(t.get()); }).wait();
        mon::napUs(12000);
        p->waitableExecute([&] { c.expect(w.fired == f0, "stopped-fired", "timers fired after all were stopped"); w.ts.clear(); }).wait();
        p->stop();
      });
      p->run();
      driver.join();
      fired += w.fired;
      selfOps += w.selfOps;
      compared += w.compared;
    });
  for (auto &t : th) t.join();
  c.observe("fired", fired);
  c.observe("ordered_firings", compared);
  c.observe("self_ops", selfOps);
  if (fired) c.nontrivial();
  c.sign();
  c.note("fired=" + std::to_string(fired));
}

// An otherwise idle processor keeps the deadlines, as far as the machine lets
// any thread keep them.
SCENARIO_T(timer_ontime, 60) {
  AsyncProcessor ap(Processor::create());
  auto p = ap.instance();
  ap.launch();
  p->waitableExecute([] {}).wait();
  std::string worst;
  bool ok = false;
  for (int attempt = 0; attempt < 4 && !ok; ++attempt) {
    struct X { std::unique_ptr<Timer> t; ms iv; bool cyclic; Tp base{}; int fires = 0; int64_t late = 0, early = 0; };
    auto xs = std::make_shared<std::vector<X>>(c.rng.range(1, 12));
    auto r = c.rng.fork();
    std::atomic<bool> quit{false};
    std::atomic<int64_t> ctl{0};   // how late a plain sleeping thread is meanwhile
    std::thread control([&] {
      while (!quit) {
        auto t0 = Clk::now();
        mon::napUs(2000);
        ctl = std::max<int64_t>(ctl.load(), std::chrono::duration_cast<ms>(Clk::now() - t0).count() - 2);
      }
    });
    p->waitableExecute([&] {
      for (auto &x : *xs) {
        x.cyclic = r.chance(40);
        x.t = std::make_unique<Timer>(x.cyclic);
        x.iv = ms{x.cyclic ? r.range(20, 60) : r.range(1, 250)};
        auto *px = &x;
        x.base = Clk::now();
        x.t->start(x.iv, [px] {
          px->fires++;
          auto d = std::chrono::duration_cast<ms>(Clk::now() - (px->base + px->iv * px->fires)).count();
          px->late = std::max<int64_t>(px->late, d);
          px->early = std::min<int64_t>(px->early, d);
        });
      }
    }).wait();
    mon::napUs(150000 + (int)r.below(150000));
    int64_t late = 0;
    p->waitableExecute([&] {
      auto now = Clk::now();
      for (auto &x : *xs) {
        int64_t want = x.cyclic ? (now - x.base) / x.iv : now >= x.base + x.iv;
        if (x.fires < want) late = std::max<int64_t>(late, std::chrono::duration_cast<ms>(now - (x.base + x.iv * (x.fires + 1))).count());
        late = std::max(late, x.late);
        c.expect(x.early >= 0, "early", "timer fired ", -x.early, "ms early");
        if (late == x.late) worst = std::to_string(x.iv.count()) + "ms timer, " + std::to_string(x.fires) + " of " + std::to_string(want) + " firings";
      }
      xs->clear();
    }).wait();
    quit = true;
    control.join();
    int64_t allowed = 40 + 10 * ctl;
    ok = late <= allowed;
    if (!ok) worst += ", late by " + std::to_string(late) + "ms while the machine is late by " + std::to_string(ctl) + "ms";
    c.observe("ontime_rounds");
  }
  c.expect(ok, "late", "timers of an idle processor are late in every attempt: ", worst);
  c.nontrivial();
  c.sign(c.rng.next());
}

// Timers of a processor controlled from other threads.
SCENARIO_T(timer_remote, 90) {
  AsyncProcessor ap(Processor::create());
  auto p = ap.instance();
  std::atomic<std::thread::id> owner{};
  ap.launch([&] { owner = std::this_thread::get_id(); });
  p->waitableExecute([] {}).wait();
  const int nT = c.rng.range(1, 3);
  std::atomic<int> fired{0}, expected{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < nT; ++k)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      for (int i = 0; i < 12; ++i) {
        auto iv = ms{r.range(0, 8)};
        auto base = Clk::now();
        if (r.chance(40)) {
          expected++;
          auto n = std::make_shared<std::atomic<int>>(0);
          Timer::timeoutAfter(iv, [&, base, iv, n] {
            c.expect(std::this_thread::get_id() == owner.load(), "thread", "x");
            c.expect(Clk::now() >= base + iv, "early", "remote timeoutAfter fired early");
            c.expect(++*n == 1, "twice", "x");
            fired++;
          }, p);
        } else {
          auto t = std::make_shared<Timer>();
          struct St { std::atomic<int> n{0}; std::atomic<bool> off{false}; };
          auto st = std::make_shared<St>();
          auto cb = [&, base, iv, st] {
            c.expect(std::this_thread::get_id() == owner.load(), "thread", "x");
            c.expect(Clk::now() >= base + iv, "early", "remote timer fired early");
            c.expect(!st->off.load(), "stopped-fired", "timer fired after a completed stop");
            c.expect(++st->n == 1, "twice", "x");
          };
          if (r.chance(50)) t->start(iv, cb, p);
          else t->start((long long)iv.count(), cb, p);
          if (r.chance(50)) mon::napUs((int)r.below(6000));
          if (r.chance(50)) {
            t->stop(p);
            p->waitableExecute([st, t] { st->off = true; }).wait();
          } else {
            c.expect(mon::eventually([&] { return st->n.load() == 1; }), "lost", "remote timer did not fire");
          }
          // the timer ends its life on the processor's thread
          p->executeAsync([t = std::move(t)]() mutable { t.reset(); });
          c.observe("remote_timers");
        }
      }
    });
  for (auto &t : ts) t.join();
  c.expect(mon::eventually([&] { return fired == expected; }), "lost", "fired ", fired.load(), " of ", expected.load());
  c.sign((uint64_t)expected * 31 + nT);
  c.nontrivial();
}

SCENARIO_T(timer_signal, 60) {
  auto p = Processor::create();
  int n = 0, m = 0;
  const int cyc = c.rng.range(1, 4), iv = c.rng.range(1, 5);
  auto st = std::make_unique<SignalTimer>();
  Tp base{};
  p->run([&] {
    st->setCyclic(cyc > 1);
    st->timeoutSignal.connect([&] {
      n++;
      c.expect(Clk::now() >= base + ms{iv} * n, "early", "signal timer fired early");
      c.expect(st->running() == (cyc > 1), "running", "x");
      if (n == cyc) { st->stop(); c.expect(!st->running(), "running", "x"); }
    });
    auto con = st->timeoutSignal.connect([&] { m++; });
    base = Clk::now();
    st->start(iv);
    c.expect(st->running(), "running", "x");
    if (c.rng.chance(50)) { mon::napUs(2000); base = Clk::now(); st->restart(); }
    Timer::timeoutAfter(ms{iv * (cyc + 2) + 10}, [&] { this_processor::stop(); });
  });
  c.expect(n >= 1 && n <= cyc && m == n, "count", "signal timer fired ", n, " of ", cyc);
  c.observe("signal_timer_fired", n);
  c.sign(cyc * 100 + iv);
  c.nontrivial();
  st->stop();
}

SCENARIO_T(timer_sync, 60) {
  SyncTimer t(false);
  struct Inline : maf::util::ExecutorIF {
    int n = 0;
    bool execute(CallbackType cb) noexcept override { n++; cb(); return true; }
  };
  auto ex = std::make_shared<Inline>();
  int mode = c.rng.range(0, 6);
  auto iv = ms{c.rng.range(1, 8)};
  auto me = std::this_thread::get_id();
  std::atomic<int> n{0};
  auto t0 = Clk::now();
  using sclk = std::chrono::steady_clock;
  auto s0 = sclk::now();
  bool useEx = c.rng.chance(30);
  if (mode == 0) {  // one shot
    t.start(iv, [&] {
      n++;
      c.expect(std::this_thread::get_id() == me, "thread", "x");
      c.expect(sclk::now() >= s0 + iv, "early", "sync timer fired early");
      c.expect(t.running(), "running", "x");
    }, useEx ? ex : nullptr);
    c.expect(n == 1 && !t.running(), "count", "one shot sync timer fired ", n.load());
    c.expect(ex->n == (useEx ? 1 : 0), "executor", "x");
  } else if (mode == 1) {  // cyclic ended by its own callback
    t.setCyclic(true);
    int k = c.rng.range(1, 4);
    t.start((long long)iv.count(), [&] {
      n++;
      c.expect(sclk::now() >= s0 + iv * n.load(), "early", "sync timer fired early");
      if (n == k) t.stop();
    }, useEx ? ex : nullptr);
    c.expect(n == k, "count", "cyclic sync timer fired ", n.load(), " of ", k);
    c.expect(!t.running(), "running", "x");
  } else if (mode == 2) {  // stopped by another thread long before its time
    bool cyc = c.rng.chance(50);
    t.setCyclic(cyc);
    std::thread st([&, r = c.rng.fork()]() mutable {
      mon::eventually([&] { return t.running(); });
      if (r.chance(50)) mon::napUs((int)r.below(2000));
      t.stop();
    });
    t.start(10min, [&] { n++; });
    st.join();
    c.expect(n == 0, "stopped-fired", "fired although stopped");
    c.expect(!t.running(), "running", "x");
    c.expect(sclk::now() - s0 < 60s, "stop-late", "stop did not end the timer");
  } else if (mode == 3) {  // restart postpones
    std::atomic<int64_t> at{0};
    std::thread st([&] {
      mon::eventually([&] { return t.running(); });
      mon::napUs(3000);
      auto now = sclk::now();
      if (n == 0) { t.restart(); if (n == 0) at = now.time_since_epoch().count(); }
    });
    iv = 40ms;
    sclk::time_point firedAt;
    t.start(iv, [&] { firedAt = sclk::now(); n++; });
    st.join();
    c.expect(n == 1, "count", "x");
    if (at) {
      c.expect(firedAt >= sclk::time_point(sclk::duration(at.load())) + iv, "restart", "a restarted sync timer fired for its earlier start");
      c.observe("sync_restarts");
    }
  } else if (mode == 4) {  // a second start supersedes the first
    std::atomic<int> first{0};
    std::atomic<bool> secondStarted{false};
    std::thread st([&] {
      mon::eventually([&] { return t.running(); });
      secondStarted = true;
      t.start(ms{30}, [&] { n++; });
      c.expect(n == 1, "count", "second start fired ", n.load());
    });
    bool ended = false;
    t.start(ms{120}, [&] { first++; });
    ended = true;
    bool over = secondStarted;
    st.join();
    c.expect(!over || first == 0 || sclk::now() - s0 > 119ms, "superseded", "x");
    c.expect(first == 0 || sclk::now() - s0 >= 120ms, "superseded", "x");
    if (first) c.observe("sync_first_fired");
    c.observe("sync_superseded");
  } else if (mode == 6) {  // executed by a processor which is waited for
    AsyncProcessor p;
    p.launch();
    auto inst = p.instance();
    bool cyc = c.rng.chance(70);
    t.setCyclic(cyc);
    int k = c.rng.range(1, 4);
    std::atomic<bool> restarted{false};
    t.start(iv, [&] {
      c.expect(this_processor::instance() == inst, "thread", "x");
      c.expect(sclk::now() >= s0 + iv * ++n, "early", "sync timer fired early");
      if (n == k) t.stop();
      else if (n == 1) t.restart();
    }, c.rng.chance(70) ? inst->getBlockingExecutor() : inst->getExecutor());
    inst->waitableExecute(Execution{[] {}}).wait();
    if (cyc) {
      // (an executor which does not wait may be ahead by some)
      c.expect(n >= k, "count", "cyclic sync timer fired ", n.load(), " of ", k);
    } else
      c.expect(n == 1, "count", "one shot sync timer fired ", n.load());
    c.expect(!t.running(), "running", "x");
    p.stopAndWait();
    c.observe("sync_executed_elsewhere");
  } else {  // running cyclic timer stopped at a random time by another thread
    t.setCyclic(true);
    std::atomic<bool> off{false};
    std::thread st([&, r = c.rng.fork()]() mutable {
      mon::eventually([&] { return t.running(); });
      mon::napUs((int)r.below(6000));
      t.stop();
      off = true;
    });
    t.start(1ms, [&] { n++; c.expect(!off, "stopped-fired", "fired after stop returned"); });
    st.join();
    c.expect(!t.running(), "running", "x");
    // set back to one shot and used again
    t.setCyclic(false);
    int b = n;
    t.start(1ms, [&] { off = false; n++; });
    c.expect(n == b + 1, "reuse", "x");
  }
  c.observe("sync_mode_" + std::to_string(mode));
  c.sign(mode * 100 + iv.count() * 2 + useEx);
  c.nontrivial();
}
