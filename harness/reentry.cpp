// P22: what callbacks, messages, tasks and queued items own is user code as well: its destructors may
// use the component which is just dropping it.
#include <maf/Observable.h>
#include <maf/SignalSlots.h>
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/Timer.h>
#include <maf/threading/Queue.h>
#include <maf/threading/ThreadPoolFactory.h>

#include "proc_common.h"
using namespace hp;
using namespace maf::threading;
using namespace maf::signal_slots;
using mon::Rng;

namespace {
struct Tally {
  std::atomic<int64_t> alive{0};
  std::atomic<uint64_t> made{0}, ended{0};
};
// Calls f when it is destroyed.
struct Owned {
  std::shared_ptr<Tally> t;
  std::function<void()> f;
  Owned(std::shared_ptr<Tally> tl, std::function<void()> fn) : t(std::move(tl)), f(std::move(fn)) {
    t->alive++;
    t->made++;
  }
  Owned(const Owned &) = delete;
  ~Owned() {
    if (f) f();
    t->ended++;
    t->alive--;
  }
};
using Own = std::shared_ptr<Owned>;
struct OwnMsg {
  Own own;
};
struct Base {
  Ctx &c;
  std::shared_ptr<Tally> t = std::make_shared<Tally>();
  std::atomic<uint64_t> seed;
  explicit Base(Ctx &c) : c(c), seed(c.rng.next()) {}
  Rng rng() { return Rng(seed.fetch_add(1)); }
  template <class F>
  Own own(F f) {
    return std::make_shared<Owned>(t, std::move(f));
  }
  void done() {
    bool gone = mon::eventually([&] { return t->alive == 0; }, 10000);
    c.expect(gone, "leak", t->alive.load(), " of ", t->made.load(), " owned objects were never destroyed");
    c.observe("owned_objects", t->made);
    c.observe("calls_from_destructors", t->ended);
    c.sign(mon::mix64(t->made));
    c.nontrivial();
  }
};
}  // namespace

// executions, messages and handlers of processors
SCENARIO(reentry_processors) {
  struct W : Base {
    using Base::Base;
    std::mutex m;
    std::vector<ProcessorInstance> ps;
    std::vector<ProcessorID> ids;
    ProcessorInstance get(size_t i) {
      std::lock_guard l(m);
      return ps[i];
    }
    // by whatever thread destroys something
    void act(int ttl) {
      auto r = rng();
      if (ttl <= 0) return;
      auto p = get(r.below(ids.size()));
      if (!p) return;
      switch (r.below(12)) {
        case 0:
        case 1: p->executeAsync([o = next(ttl)] {}); break;
        case 2: p->execute([o = next(ttl)] {}); break;
        case 3:
        case 4: p->post<OwnMsg>(OwnMsg{next(ttl)}); break;
        case 5: maf::messaging::routing::post<OwnMsg>(ids[r.below(ids.size())], OwnMsg{next(ttl)}); break;
        case 6: maf::messaging::routing::postToAll<OwnMsg>(OwnMsg{next(ttl)}); break;
        case 7: {
          auto f = p->willAsyncExecuteOnThis([o = next(ttl)] {});
          if (r.chance(50)) f();
          break;
        }
        case 8: p->getExecutor()->execute([o = next(ttl)] {}); break;
        case 9: Timer::timeoutAfter(ms{r.range(0, 3)}, [o = next(ttl)] {}, p); break;
        case 10: c_(p->pendingCout()); break;
        default: c_(p->waitableExecute(Execution{[o = next(ttl)] {}}).valid()); break;
      }
    }
    void c_(size_t) {}
    Own next(int ttl) {
      return own([this, ttl] { act(ttl - 1); });
    }
  };
  auto *w = new W(c);  // (late callbacks are reported, not crashes)
  std::vector<std::unique_ptr<AsyncProcessor>> aps;
  int np = c.rng.range(1, 3);
  for (int i = 0; i < np; ++i) {
    w->ids.push_back(uniqueId(c, "reentry"));
    aps.push_back(std::make_unique<AsyncProcessor>(Processor::create(w->ids.back())));
    w->ps.push_back(aps.back()->instance());
    // a handler which owns something
    w->ps.back()->connect<OwnMsg>([o = w->next(2)](const OwnMsg &) {});
  }
  if (c.rng.chance(50)) {  // never runs
    w->ids.push_back(uniqueId(c, "reentry"));
    w->ps.push_back(Processor::create(w->ids.back()));
  }
  // some of the work waits before the processors run
  for (int i = 0; i < 4; ++i) w->act(4);
  for (auto &a : aps) a->launch();
  std::vector<std::thread> ts;
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([w, r = c.rng.fork(), np]() mutable {
      for (int k = 0; k < 25; ++k) {
        w->act(4);
        // handlers replaced by their processor itself
        auto p = w->get(r.below((uint64_t)np));
        auto *pp = p.get();
        if (r.chance(15)) p->executeAsync([w, pp] { pp->connect<OwnMsg>([o = w->next(2)](const OwnMsg &) {}); });
        if (r.chance(10)) p->executeAsync([w, pp] {
            auto con = pp->connect<Item>([o = w->next(2)](const Item &) {});
            if (w->rng().chance(50)) con.disconnect();
            else pp->disconnect<Item>();
          });
        if (r.chance(10)) p->executeAsync([pp] { pp->disconnect<OwnMsg>(); });
        mon::jitter(r);
      }
    });
  for (auto &t : ts) t.join();
  if (c.rng.chance(50)) mon::napUs((int)c.rng.below(3000));
  for (auto &a : aps) {
    if (c.rng.chance(50)) a->instance()->stop();
    else a->stopAndWait();
  }
  while (!aps.empty()) {
    aps.pop_back();
    ProcessorInstance p;  // destroyed without the lock
    {
      std::lock_guard l(w->m);
      p.swap(w->ps[c.rng.below((uint64_t)np)]);
    }
  }
  for (auto &p : w->ps) {
    ProcessorInstance q;
    {
      std::lock_guard l(w->m);
      p.swap(q);
    }
    if (q) q->stop();  // (others find it until then)
  }
  w->done();
}

// timers, on a thread which may end meanwhile
SCENARIO_T(reentry_timers, 60) {
  struct W : Base {
    using Base::Base;
    struct Hold {
      std::vector<std::unique_ptr<Timer>> ts;
      std::vector<std::unique_ptr<SignalTimer>> sts;
    };
    std::weak_ptr<Hold> hold;  // of the thread
    std::atomic<uint64_t> fired{0};
    void act(int ttl) {
      // (the thread ends: it has no processor any more)
      if (ttl <= 0 || !this_processor::instance()) return;
      auto r = rng();
      auto h = hold.lock();
      switch (r.below(8)) {
        case 0:
        case 1: Timer::timeoutAfter(ms{r.range(0, 12)}, [this, o = next(ttl)] { fired++; }); break;
        case 2: {  // timers owned by a callback
          auto mine = std::make_shared<std::vector<std::unique_ptr<Timer>>>();
          for (int i = r.range(1, 3); i > 0; --i) {
            mine->push_back(std::make_unique<Timer>(r.chance(30)));
            mine->back()->start(ms{r.range(1, 30)}, [this, o = next(ttl)] { fired++; });
          }
          auto cb = [mine, o = next(ttl)] {};
          if (r.chance(50)) Timer::timeoutAfter(ms{r.range(0, 12)}, cb);
          else if (h) {
            // owned by a timer, which is owned by a timeout
            auto t = std::make_shared<Timer>();
            t->start(ms{r.range(0, 12)}, cb);
            Timer::timeoutAfter(ms{r.range(0, 12)}, [t] {});
          }
          break;
        }
        case 3:
          if (h && h->ts.size() < 8) {
            auto t = std::make_unique<Timer>(r.chance(30));
            t->start(ms{r.range(1, 8)}, [this, o = next(ttl)] { fired++; });
            h->ts.push_back(std::move(t));
          }
          break;
        case 4:
          if (h && !h->ts.empty()) {
            auto i = r.below(h->ts.size());
            // (what is destroyed may use the others)
            auto t = std::move(h->ts[i]);
            h->ts.erase(h->ts.begin() + (long)i);
          }
          break;
        case 5:
          if (h && !h->ts.empty()) h->ts[r.below(h->ts.size())]->stop();
          break;
        case 6:
          if (h && !h->ts.empty()) {
            // taken out for the time of the call: its former callback is destroyed
            auto i = r.below(h->ts.size());
            auto t = std::move(h->ts[i]);
            h->ts.erase(h->ts.begin() + (long)i);
            t->start(ms{r.range(1, 8)}, [this, o = next(ttl)] { fired++; });
            if (auto h2 = hold.lock()) h2->ts.push_back(std::move(t));
          }
          break;
        default:
          if (h && !h->ts.empty()) h->ts[r.below(h->ts.size())]->restart();
          break;
      }
    }
    Own next(int ttl) {
      return own([this, ttl] { act(ttl - 1); });
    }
  };
  auto *w = new W(c);
  auto p = Processor::create();
  int how = c.rng.range(0, 1);
  std::thread th([&, r = c.rng.fork()]() mutable {
    auto hold = std::make_shared<W::Hold>();
    w->hold = hold;
    for (int i = 0; i < 6; ++i)
      p->executeAsync([w] {
        for (int i = 0; i < 6; ++i) w->act(4);
      });
    if (how == 0) p->run();
    else  // ends before the timers are looked at
      for (int i = r.range(1, 6); i > 0; --i) p->runOnceFor(ms{5});
    // remaining timers end with their owners or with the thread
    if (r.chance(50)) {
      auto h = std::move(hold);
      w->hold.reset();
    } else {
      static thread_local std::shared_ptr<W::Hold> late;
      late = std::move(hold);
    }
  });
  if (how == 0) {
    mon::napUs((int)c.rng.below(15000));
    p->stop();
  }
  th.join();
  p.reset();
  c.observe("timers_fired", w->fired);
  w->done();
}

// slots and observers
SCENARIO(reentry_signals) {
  struct W : Base {
    using Base::Base;
    Signal<Own> sig[2];
    std::recursive_mutex m;
    SharedMutexSignal<Own> shared{m};
    maf::signal_slots::mt::Observable<std::shared_ptr<int>> obs;
    std::mutex cm;
    std::vector<Connection> cons;
    std::atomic<int> runs{0};
    // by the destructor of something a slot of signal `of` owns; others would be inversions of locks
    void act(int of, int ttl) {
      if (ttl <= 0) return;
      auto r = rng();
      switch (r.below(5)) {
        case 0:
        case 1: {
          Connection con;
          {
            std::lock_guard l(cm);
            if (!cons.empty()) {
              auto i = (long)r.below(cons.size());
              con = std::move(cons[(size_t)i]);
              cons.erase(cons.begin() + i);
            }
          }
          con.disconnect();
          break;
        }
        case 2:
        case 3: connect(of, ttl - 1); break;
        default:
          runs += of < 2 ? (int)sig[of].connectionCount() : 0;
          break;
      }
    }
    int only = 0;
    void connect(int of, int ttl) {
      auto f = [this, o = own([this, of, ttl] { act(of, ttl); })](const auto &) { runs++; };
      Connection con;
      auto r = rng();
      auto to = [&](auto &s) {
        if (r.chance(20)) {
          auto obj = std::make_shared<int>(1);  // gone at once
          return s.connect(obj, f);
        }
        return s.connect(f);
      };
      if (of < 2) con = to(sig[of]);
      else con = to(shared);
      std::lock_guard l(cm);
      cons.push_back(std::move(con));
    }
  };
  auto *w = new W(c);
  int of = w->only = c.rng.range(0, 2);
  auto emit = [w](int of, Own v) {
    if (of < 2) w->sig[of](v);
    else w->shared(v);
  };
  auto work = [&](Rng r, int steps) {
    for (int i = 0; i < steps; ++i) {
      switch (r.below(6)) {
        case 0:
        case 1: w->connect(of, 3); break;
        case 2: {
          // values which are destroyed by the last one who has them
          emit(of, w->own([w, of] { w->act(of, 2); }));
          break;
        }
        case 3: w->act(of, 3); break;
        case 4: {
          std::vector<Connection> some;
          {
            std::lock_guard l(w->cm);
            for (size_t n = w->cons.size() / 2; n > 0; --n) {
              some.push_back(std::move(w->cons.back()));
              w->cons.pop_back();
            }
          }
          for (auto &k : some) k.disconnect();
          break;
        }
        default:
          if (r.chance(30)) {
            if (of < 2) w->sig[of].disconnect();
            else w->shared.disconnect();
          }
          break;
      }
      mon::jitter(r);
    }
  };
  std::vector<std::thread> ts;
  int nt = c.rng.range(1, 3);
  for (int i = 0; i < nt; ++i) ts.emplace_back(work, c.rng.fork(), 40);
  for (auto &t : ts) t.join();
  // what remains ends with connections, or by the signal
  if (c.rng.chance(50)) {
    if (of < 2) w->sig[of].disconnect();
    else w->shared.disconnect();
  }
  for (int i = 0; i < 20; ++i) {
    std::vector<Connection> some;
    {
      std::lock_guard l(w->cm);
      some = std::move(w->cons);
      w->cons.clear();
    }
    if (some.empty()) break;
    for (auto &k : some) k.disconnect();
  }
  if (of < 2) w->sig[of].disconnect();
  else w->shared.disconnect();
  c.observe("slots_run", (uint64_t)w->runs);
  w->done();
}

// tasks of pools
namespace {
struct PoolWorld : Base {
  using Base::Base;
  std::shared_ptr<IThreadPool> pool;
  std::atomic<int> ran{0}, stops{0}, deleted{0};
};
struct OwnTask : Runnable {
  PoolWorld *w;
  int ttl;
  OwnTask(PoolWorld *w, int ttl) : w(w), ttl(ttl) {
    w->t->alive++;
    w->t->made++;
    setAutoDeleted(true);
  }
  ~OwnTask() override {
    more();
    w->t->ended++;
    w->t->alive--;
  }
  void more() {
    auto r = w->rng();
    if (ttl > 0)
      for (int i = r.range(0, 2); i > 0; --i) w->pool->run(new OwnTask(w, ttl - 1), (unsigned)r.below(3));
    if (r.chance(30)) w->ran += (int)w->pool->activeThreadCount() * 0;
  }
  void run() override {
    w->ran++;
    if (w->rng().chance(20)) more();
  }
  void stop() override { w->stops++; }
};
}  // namespace
SCENARIO(reentry_pools) {
  auto *w = new PoolWorld(c);
  static const PoolType types[] = {DynamicCount, StableCount, Priority};
  w->pool = ThreadPoolFactory::createPool(types[c.rng.below(3)], (unsigned)c.rng.range(1, 4));
  std::vector<std::thread> ts;
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([w, r = c.rng.fork()]() mutable {
      for (int k = 0; k < 20; ++k) {
        w->pool->run(new OwnTask(w, 3), (unsigned)r.below(3));
        mon::jitter(r);
      }
    });
  if (c.rng.chance(40)) {  // shut down while tasks come
    mon::jitter(c.rng);
    w->pool->shutdown();
    for (auto &t : ts) t.join();
  } else {
    for (auto &t : ts) t.join();
    mon::jitter(c.rng);
    w->pool->shutdown();
  }
  c.observe("tasks_run", (uint64_t)w->ran);
  w->done();
  w->pool.reset();
}

// items of queues
namespace {
struct QW : Base {
  using Base::Base;
  using Prio = std::pair<int, Own>;
  Queue<Own> q;
  PriorityQueue<Prio> pq;
  bool prio = false;
  void act(int ttl) {
    auto r = rng();
    if (ttl > 0 && r.chance(60)) push(ttl - 1);
    if (r.chance(30)) q.size();
    if (r.chance(30)) pq.empty();
    if (r.chance(10)) pop(r);
  }
  void push(int ttl) {
    auto o = own([this, ttl] { act(ttl); });
    if (prio) pq.push(Prio{(int)(seed % 7), std::move(o)});
    else q.push(std::move(o));
  }
  bool pop(Rng &r) {
    if (prio) {
      Prio v;
      return pop(pq, v, r);
    }
    Own v;
    return pop(q, v, r);
  }
  template <class Q, class V>
  bool pop(Q &q, V &v, Rng &r) {
    bool any = false;
    // (v is replaced by the next item: the last owner of the former one)
    for (int i = r.range(1, 3); i > 0; --i) switch (r.below(4)) {
        case 0: any |= q.tryPop(v); break;
        case 1: any |= q.waitFor(v, ms{1}); break;
        case 2: any |= q.waitUntil(v, std::chrono::steady_clock::now() + us{300}); break;
        default:
          if (r.chance(20)) q.clear();
          break;
      }
    return any;
  }
};
}  // namespace
SCENARIO(reentry_queues) {
  auto *w = new QW(c);
  w->prio = c.rng.chance(50);
  std::vector<std::thread> ts;
  std::atomic<uint64_t> popped{0};
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([&, w, r = c.rng.fork()]() mutable {
      for (int k = 0; k < 60; ++k) {
        w->push(3);
        if (r.chance(10)) mon::jitter(r);
      }
    });
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([&, w, r = c.rng.fork()]() mutable {
      for (int k = 0; k < 60; ++k) popped += w->pop(r);
    });
  for (auto &t : ts) t.join();
  if (c.rng.chance(30)) {
    w->q.close();
    w->pq.close();
    c.expect(!w->pop(c.rng), "closed", "a closed queue delivered an item");
  }
  for (int i = 0; i < 100 && (!w->q.empty() || !w->pq.empty()); ++i) {
    w->q.clear(c.rng.chance(50) ? Queue<Own>::ApplyAction([](Own &) {}) : nullptr);
    w->pq.clear();
  }
  c.observe("items_taken", popped);
  w->done();
}
