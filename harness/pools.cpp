// P09 / P10: thread pools, concurrent queue, lock-guarded objects
#include <maf/threading/AtomicObject.h>
#include <maf/threading/Lockable.h>
#include <maf/threading/Locker.h>
#include <maf/threading/MutexRef.h>
#include <maf/threading/Queue.h>
#include <maf/threading/ThreadJoiner.h>
#include <maf/threading/ThreadPoolFactory.h>
#include <maf/threading/Upcoming.h>

#include <algorithm>

#include <list>
#include "mon.h"
using namespace maf::threading;
using mon::Ctx;
using ms = std::chrono::milliseconds;
using us = std::chrono::microseconds;
using sclk = std::chrono::steady_clock;

namespace {
struct PoolStat {
  Ctx &c;
  unsigned max;
  std::atomic<int> running{0}, peak{0}, ran{0}, deleted{0}, stops{0};
  std::atomic<bool> down{false};
  std::atomic<uint64_t> order{0};
  std::set<std::thread::id> submitters;
  PoolStat(Ctx &c, unsigned m) : c(c), max(m) {}
};
struct Task : Runnable {
  PoolStat &st;
  int id;
  unsigned prio = 0;
  std::atomic<int> runs{0}, stops{0};
  std::atomic<bool> live{true};
  std::atomic<int> *runsOut = nullptr, *delOut = nullptr;
  std::atomic<uint64_t> *at = nullptr;
  bool untilStop = false;
  int napUs = 0;
  std::atomic<bool> stopReq{false};
  std::mutex m;
  std::condition_variable cv;
  Task(PoolStat &s, int id) : st(s), id(id) {}
  ~Task() override {
    st.c.expect(live.exchange(false), "double-delete", "task destroyed twice");
    st.deleted++;
    if (delOut) ++*delOut;
  }
  void run() override {
    st.c.expect(live, "dead-run", "run of a destroyed task");
    st.c.expect(!st.down.load(), "started-after-shutdown", "a task was started after shutdown returned");
    st.c.expect(!st.submitters.count(std::this_thread::get_id()), "thread", "a task ran on the submitting thread");
    int r = ++st.running;
    int p = st.peak;
    while (p < r && !st.peak.compare_exchange_weak(p, r)) {}
    st.c.expect(r <= (int)st.max, "too-many", r, " tasks at once in a pool of ", st.max);
    runs++;
    if (runsOut) ++*runsOut;
    if (at) at->store(++st.order);
    st.c.log(1, id, prio);
    if (untilStop) {
      std::unique_lock<std::mutex> l(m);
      bool ok = cv.wait_for(l, std::chrono::seconds(15), [&] { return stopReq.load(); });
      st.c.expect(ok, "no-stop", "a running task got no stop request from shutdown");
    } else if (napUs) mon::napUs(napUs);
    st.ran++;
    st.running--;
  }
  void stop() override {
    st.c.expect(live, "dead-stop", "stop of a destroyed task");
    stops++;
    st.stops++;
    std::lock_guard<std::mutex> l(m);
    stopReq = true;
    cv.notify_all();
  }
};
const PoolType kTypes[] = {DynamicCount, StableCount, Priority};
}  // namespace

// many submitters, every task once, then shutdown at a quiet or busy moment
SCENARIO(pool_run) {
  auto type = kTypes[c.rng.below(3)];
  unsigned size = c.rng.range(1, 5);
  PoolStat st(c, size);
  const int nS = c.rng.range(1, 4), per = c.rng.range(1, c.thorough ? 120 : 40);
  std::vector<std::atomic<int>> runs(nS * per), dels(nS * per);
  std::vector<std::unique_ptr<Task>> owned;
  for (auto &r : runs) r = 0;
  for (auto &r : dels) r = 0;
  std::vector<bool> autoDel(nS * per);
  std::vector<Task *> tasks;
  for (int i = 0; i < nS * per; ++i) {
    auto *t = new Task(st, i);
    t->runsOut = &runs[i];
    t->delOut = &dels[i];
    autoDel[i] = c.rng.chance(50);
    if (c.rng.chance(50) || autoDel[i]) t->setAutoDeleted(autoDel[i]);   // by default a task is not owned
    if (c.rng.chance(20)) t->napUs = (int)c.rng.below(300);
    if (!autoDel[i]) owned.emplace_back(t);
    tasks.push_back(t);
  }
  st.submitters.insert(std::this_thread::get_id());
  bool busyEnd = c.rng.chance(40);
  {
    auto pool = ThreadPoolFactory::createPool(type, size);
    std::vector<std::thread> ts;
    mon::Gate g;
    for (int s = 0; s < nS; ++s)
      ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
        g.wait();
        for (int i = 0; i < per; ++i) {
          pool->run(tasks[s * per + i], (unsigned)r.below(4));
          if (r.chance(10)) mon::jitter(r);
          if (r.chance(10)) c.expect(pool->activeThreadCount() <= size, "too-many", "more threads than the pool's size");
        }
      });
    g.release();
    for (auto &t : ts) t.join();
    if (!busyEnd) {
      bool all = mon::eventually([&] { return st.ran == nS * per; });
      c.expect(all, "lost", "only ", st.ran.load(), " of ", nS * per, " tasks were run");
      // owned tasks are destroyed after their run
      int a = 0;
      for (bool b : autoDel) a += b;
      c.expect(mon::eventually([&] { return st.deleted == a; }), "leak", st.deleted.load(), " of ", a, " owned tasks were destroyed");
    }
    if (c.rng.chance(50)) { pool->shutdown(); st.down = true; }
  }
  st.down = true;
  for (int i = 0; i < nS * per; ++i) {
    c.expect(runs[i] <= 1, "twice", "task run ", runs[i].load(), " times");
    if (!busyEnd) c.expect(runs[i] == 1, "lost", "task not run");
    c.expect(dels[i] == (autoDel[i] ? 1 : 0), "destroyed", "task with auto delete ", (bool)autoDel[i], " destroyed ", dels[i].load(), " times");
  }
  c.expect(st.running == 0, "running-after", "tasks run after the pool is gone");
  c.observe("tasks_run", st.ran);
  c.observe("peak_" + std::to_string(st.peak.load()) + "_of_" + std::to_string(size));
  c.sign();
  c.nontrivial();
}

// shutdown racing with submissions, long tasks, other shutdowns
SCENARIO(pool_shutdown) {
  auto type = kTypes[c.rng.below(3)];
  unsigned size = c.rng.range(1, 4);
  PoolStat st(c, size);
  const int nS = c.rng.range(1, 3);
  struct Rec { std::atomic<int> runs{0}, dels{0}; };
  std::vector<std::vector<std::unique_ptr<Rec>>> recs(nS);
  auto pool = ThreadPoolFactory::createPool(type, size);
  std::vector<std::thread> ts;
  mon::Gate g;
  std::atomic<int> submitted{0};
  const int per = c.rng.range(1, 30);
  for (int s = 0; s < nS; ++s) {
    for (int i = 0; i < per; ++i) recs[s].push_back(std::make_unique<Rec>());
    ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
      g.wait();
      for (int i = 0; i < per; ++i) {
        auto *t = new Task(st, s * 100 + i);
        t->runsOut = &recs[s][i]->runs;
        t->delOut = &recs[s][i]->dels;
        t->setAutoDeleted(true);
        t->untilStop = r.chance(15);
        if (r.chance(30)) t->napUs = (int)r.below(200);
        pool->run(t, (unsigned)r.below(3));
        submitted++;
        if (r.chance(20)) mon::jitter(r);
      }
    });
  }
  const int nDown = c.rng.range(1, 2);
  for (int k = 0; k < nDown; ++k)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      g.wait();
      if (r.chance(70)) mon::napUs((int)r.below(1500));
      pool->shutdown();
      st.down = true;
      c.expect(st.running == 0, "running-after", "tasks still run after shutdown returned");
    });
  g.release();
  for (auto &t : ts) t.join();
  // after shutdown: refused, destroyed if owned
  Rec late, kept;
  auto *lt = new Task(st, 9999);
  lt->runsOut = &late.runs;
  lt->delOut = &late.dels;
  lt->setAutoDeleted(true);
  pool->run(lt);
  Task keep(st, 9998);
  keep.runsOut = &kept.runs;
  keep.setAutoDeleted(false);
  pool->run(&keep);
  mon::napUs(300);
  pool->shutdown();
  pool.reset();
  c.expect(late.runs == 0 && kept.runs == 0, "started-after-shutdown", "a task submitted after shutdown was run");
  c.expect(late.dels == 1, "leak", "an owned task submitted after shutdown was destroyed ", late.dels.load(), " times");
  int ran = 0;
  for (auto &v : recs)
    for (auto &r : v) {
      c.expect(r->runs <= 1, "twice", "x");
      c.expect(r->dels == 1, "destroyed", "owned task destroyed ", r->dels.load(), " times (run ", r->runs.load(), ")");
      ran += r->runs;
    }
  c.observe("shutdowns");
  c.observe("shutdown_run", ran);
  c.observe("shutdown_dropped", nS * per - ran);
  c.observe("stop_requests", st.stops);
  c.sign((uint64_t)ran * 1000 + nS * per * 10 + st.stops);
  c.nontrivial();
}

// waiting tasks of the priority pool start in priority order; the other pools in submission order
SCENARIO(pool_priority) {
  auto type = kTypes[c.rng.below(3)];
  PoolStat st(c, 1);
  auto pool = ThreadPoolFactory::createPool(type, 1);
  struct Block : Runnable {
    mon::Gate g;
    std::atomic<bool> in{false};
    void run() override { in = true; g.wait(); }
  } block;
  block.setAutoDeleted(false);
  pool->run(&block, 0);
  c.expect(mon::eventually([&] { return block.in.load(); }), "lost", "x");
  int n = c.rng.range(2, 40);
  std::vector<std::unique_ptr<Task>> ts;
  std::vector<std::atomic<uint64_t>> at(n);
  for (int i = 0; i < n; ++i) {
    ts.push_back(std::make_unique<Task>(st, i));
    ts[i]->setAutoDeleted(false);
    ts[i]->prio = (unsigned)c.rng.below(c.rng.chance(50) ? 4 : 1000);
    ts[i]->at = &at[i];
    pool->run(ts[i].get(), ts[i]->prio);
  }
  block.g.release();
  c.expect(mon::eventually([&] { return st.ran == n; }), "lost", "x");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (type == Priority) {
        if (ts[i]->prio > ts[j]->prio) c.expect(at[i] < at[j], "priority", "a task of priority ", ts[j]->prio, " was started before one of ", ts[i]->prio);
      } else if (i < j) c.expect(at[i] < at[j], "fifo", "tasks were not started in submission order");
    }
  pool.reset();
  c.observe("ordered_tasks", n);
  c.sign(c.rng.s);
  c.nontrivial();
}

// the dynamic pool grows up to its limit
SCENARIO(pool_grow) {
  PoolStat st(c, 8);
  auto pool = ThreadPoolFactory::createPool(DynamicCount, 1);
  struct Block : Runnable {
    mon::Gate *g;
    std::atomic<int> *in;
    void run() override { (*in)++; g->wait(); }
  };
  mon::Gate g;
  std::atomic<int> in{0};
  int lim = 1, n = c.rng.range(2, 6);
  std::vector<std::unique_ptr<Block>> bs;
  for (int k = 0; k < n; ++k) {
    for (int i = 0; i < 2; ++i) {
      bs.push_back(std::make_unique<Block>());
      bs.back()->g = &g;
      bs.back()->in = &in;
      bs.back()->setAutoDeleted(false);
      pool->run(bs.back().get());
    }
    c.expect(mon::eventually([&] { return in >= std::min(lim, (int)bs.size()); }), "grow", in.load(), " tasks run in a pool of ", lim);
    mon::napUs(100);
    c.expect(in <= lim && pool->activeThreadCount() <= (unsigned)lim, "too-many", in.load(), " tasks in a pool of ", lim);
    if (c.rng.chance(70)) { lim++; pool->setMaxThreadCount(lim); }
  }
  g.release();
  c.expect(mon::eventually([&] { return in == (int)bs.size(); }), "lost", "x");
  pool->shutdown();
  c.observe("grown", bs.size());
  c.sign(n * 10 + lim);
  c.nontrivial();
}

// P10 -------------------------------------------------------------------------
namespace {
struct Op { int64_t v; uint64_t s = 0, e = 0; };
struct QItem {
  int64_t v;
  int prio;
  bool operator<(const QItem &o) const { return prio < o.prio; }
};
template <class Q, bool kPrio, class T>
void queueMt(Ctx &c) {
  Q q;
  std::atomic<uint64_t> clk{1};
  const int nP = c.rng.range(1, 4), nC = c.rng.range(1, 4), per = c.rng.range(5, c.thorough ? 150 : 60);
  std::vector<std::vector<Op>> pushes(nP), pops(nC), empties(nC);
  std::vector<std::thread> ps, cs;
  std::atomic<int> got{0};
  const int total = nP * per;
  mon::Gate g;
  auto mk = [](int64_t v) { if constexpr (kPrio) return QItem{v, (int)(v % 5)}; else return v; };
  auto val = [](const T &t) -> int64_t { if constexpr (kPrio) return t.v; else return t; };
  for (int p = 0; p < nP; ++p)
    ps.emplace_back([&, p, r = c.rng.fork()]() mutable {
      g.wait();
      for (int i = 0; i < per;) {
        Op o{(int64_t)p * 100000 + i};
        if (!kPrio && r.chance(10) && i + 2 < per) {   // a batch
          std::vector<T> b{mk(o.v), mk(o.v + 1), mk(o.v + 2)};
          o.s = clk++;
          q.push(b);
          o.e = clk++;
          for (int k = 0; k < 3; ++k) { pushes[p].push_back(Op{o.v + k, o.s, o.e}); }
          i += 3;
        } else {
          T x = mk(o.v);
          o.s = clk++;
          if (r.chance(50)) q.push(x); else q.push(std::move(x));
          o.e = clk++;
          pushes[p].push_back(o);
          ++i;
        }
        if (r.chance(15)) mon::jitter(r);
      }
    });
  for (int k = 0; k < nC; ++k)
    cs.emplace_back([&, k, r = c.rng.fork()]() mutable {
      g.wait();
      while (got < total) {
        T t{};
        Op o{0};
        o.s = clk++;
        bool ok;
        int how = (int)r.below(4);
        if (how == 0) ok = q.tryPop(t);
        else if (how == 1) { auto t0 = sclk::now(); ok = q.waitFor(t, us{300}); if (!ok) c.expect(sclk::now() - t0 >= us{300}, "early", "timed wait gave up early"); }
        else if (how == 2) { auto d = sclk::now() + us{300}; ok = q.waitUntil(t, d); if (!ok) c.expect(sclk::now() >= d, "early", "timed wait gave up early"); }
        else ok = got < total - nC && r.chance(50) ? q.waitFor(t, (long long)2) : q.tryPop(t);
        o.e = clk++;
        if (ok) { o.v = val(t); pops[k].push_back(o); got++; }
        else if (how == 0) empties[k].push_back(o);
        if (r.chance(10)) mon::jitter(r);
      }
    });
  g.release();
  for (auto &t : ps) t.join();
  for (auto &t : cs) t.join();
  std::map<int64_t, Op> in, out;
  for (auto &v : pushes) for (auto &o : v) in[o.v] = o;
  uint64_t sig = 0;
  std::vector<std::pair<uint64_t, int>> who;
  for (auto &v : pops)
    for (auto &o : v) {
      c.expect(out.emplace(o.v, o).second, "twice", "element handed out twice");
      c.expect(in.count(o.v), "invented", "element was never pushed");
      who.push_back({o.e, (int)(o.v / 100000)});
    }
  c.expect((int)out.size() == total, "lost", out.size(), " of ", total, " elements came out");
  c.expect(q.empty() && q.size() == 0, "empty", "queue not empty at the end");
  std::sort(who.begin(), who.end());
  for (size_t i = 0; i < who.size() && i < 64; ++i) sig = sig * 31 + who[i].second;
  std::vector<std::pair<Op, Op>> h;
  for (auto &x : out) h.push_back({in[x.first], x.second});
  auto pr = [](const Op &o) { return (int)(o.v % 5); };
  uint64_t pairs = 0;
  for (auto &a : h)
    for (auto &b : h) {
      if (a.first.v == b.first.v) continue;
      if (!kPrio) {
        bool before = a.first.e < b.first.s || (a.first.s == b.first.s && a.first.v < b.first.v);
        if (before) { pairs++; c.expect(!(b.second.e < a.second.s), "fifo", "element pushed first came out second"); }
      } else if (pr(a.first) > pr(b.first)) {
        // a was inside when b was taken although a is more important
        bool inside = a.first.e < b.second.s && a.second.s > b.second.e;
        pairs++;
        c.expect(!inside, "priority", "a less important element came out first");
      }
    }
  for (auto &v : empties)
    for (auto &e : v)
      for (auto &a : h)
        c.expect(!(a.first.e < e.s && a.second.s > e.e), "empty", "tryPop found nothing although an element was inside all the time");
  c.observe("queue_elements", total);
  c.observe("ordered_pairs", pairs);
  for (auto &v : empties) c.observe("empty_pops", v.size());
  c.sign(sig);
  c.nontrivial();
}
}  // namespace

SCENARIO(queue_fifo) { queueMt<Queue<int64_t>, false, int64_t>(c); }
SCENARIO(queue_prio) { queueMt<PriorityQueue<QItem>, true, QItem>(c); }

// consumers which take one element each: whatever number of elements arrives in
// whatever way, that many blocked consumers must return, the others must not
namespace {
template <class Q, class T, class Mk>
void queueParked(Ctx &c, Mk mk) {
  for (int round = 0; round < (c.thorough ? 40 : 12); ++round) {
    Q q;
    const int nC = c.rng.range(1, 6);
    std::atomic<int> got{0}, released{0}, entered{0};
    std::atomic<int64_t> sum{0};
    std::atomic<bool> closed{false};
    std::vector<std::thread> ts;
    for (int k = 0; k < nC; ++k)
      ts.emplace_back([&, how = (int)c.rng.below(3)] {
        T x{};
        entered++;
        bool ok;
        if (how == 0) ok = q.wait(x);
        else if (how == 1) ok = q.waitFor(x, std::chrono::seconds(60));
        else ok = q.waitUntil(x, sclk::now() + std::chrono::seconds(60));
        if (ok) { sum += (int64_t)mk.val(x); got++; }
        else { c.expect(closed, "spurious", "a blocked consumer was released for no reason"); released++; }
      });
    if (c.rng.chance(75)) {
      while (entered < nC) std::this_thread::yield();
      mon::napUs((int)c.rng.below(3000));
    }
    int n = 0;
    int64_t in = 0;
    const int want = c.rng.chance(60) ? nC : c.rng.range(0, nC + 3);
    while (n < want) {
      switch (c.rng.below(3)) {
        case 0: { T x = mk(++n); in += n; q.push(x); break; }
        case 1: { T x = mk(++n); in += n; q.push(std::move(x)); break; }
        default: {
          std::vector<T> b;
          for (int k = c.rng.range(0, want - n); k > 0; --k) b.push_back(mk(++n)), in += n;
          if (c.rng.chance(50)) q.push(b);
          else { std::list<T> l(b.begin(), b.end()); q.push(l); }
        }
      }
      if (c.rng.chance(30)) mon::napUs((int)c.rng.below(300));
    }
    const int due = std::min(nC, n);
    c.expect(mon::eventually([&] { return got == due; }), "parked-wakeup", got.load(), " of ", nC, " blocked consumers woke up although ", n, " elements arrived");
    c.expect((int)q.size() == n - due, "parked-size", "queue has ", q.size(), " elements left of ", n, " with ", nC, " consumers");
    T x{};
    while (q.tryPop(x)) { sum += (int64_t)mk.val(x); n--; }
    c.expect(n == due, "parked-rest", "x");
    closed = true;
    q.close();
    c.expect(mon::eventually([&] { return got + released == nC; }), "close-wakeup", "closing did not release all consumers");
    for (auto &t : ts) t.join();
    c.expect(sum == in, "parked-values", "elements came out changed, twice or not at all");
    c.observe("parked_consumers", nC);
    c.sign((uint64_t)(nC * 10 + due));
  }
  c.nontrivial();
}
}  // namespace
SCENARIO(queue_parked) {
  struct { int64_t operator()(int64_t v) const { return v; } int64_t val(int64_t v) const { return v; } } mk;
  queueParked<Queue<int64_t>, int64_t>(c, mk);
}
SCENARIO(queue_parked_prio) {
  struct { QItem operator()(int64_t v) const { return QItem{v, (int)(v % 5)}; } int64_t val(const QItem &q) const { return q.v; } } mk;
  queueParked<PriorityQueue<QItem>, QItem>(c, mk);
}

// blocked consumers, close, reopen, clear
SCENARIO(queue_close) {
  using P = std::shared_ptr<int>;
  Queue<P> q;
  for (int round = 0; round < (c.thorough ? 20 : 6); ++round) {
    const int nC = c.rng.range(1, 4), n = c.rng.range(0, 6);
    std::vector<std::weak_ptr<int>> all;
    std::atomic<int> got{0}, released{0};
    std::vector<std::thread> ts;
    mon::Gate g;
    std::atomic<bool> closed{false}, done{false};
    for (int k = 0; k < nC; ++k)
      ts.emplace_back([&, r = c.rng.fork()]() mutable {
        g.wait();
        for (;;) {
          P p;
          bool ok;
          int how = (int)r.below(3);
          if (how == 0) ok = q.wait(p);
          else if (how == 1) ok = q.waitFor(p, std::chrono::seconds(20));
          else ok = q.waitUntil(p, sclk::now() + std::chrono::seconds(20));
          c.expect(ok == (p != nullptr), "value", "x");
          if (ok) { c.expect(!done, "after-close", "element handed out after the queue was closed"); got++; continue; }
          c.expect(closed, "spurious", "a blocked consumer was released for no reason");
          break;
        }
        released++;
      });
    std::atomic<int> refused{0};
    const bool busy = c.rng.chance(50);
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      g.wait();
      for (int i = 0; i < n; ++i) { q.push(std::make_shared<int>(i)); if (r.chance(50)) mon::jitter(r); }
    });
    g.release();
    if (!busy) c.expect(mon::eventually([&] { return got == n; }), "lost-wakeup", "a blocked consumer was not woken: ", got.load(), " of ", n);
    else mon::napUs((int)c.rng.below(500));
    closed = true;
    if (c.rng.chance(50)) { std::thread o([&] { q.close(); }); q.close(); o.join(); } else q.close();
    c.expect(mon::eventually([&] { return released == nC; }), "close-wakeup", "closing released ", released.load(), " of ", nC, " consumers");
    for (auto &t : ts) t.join();
    done = true;
    // closed: nothing in, nothing out
    P p;
    auto w = std::make_shared<int>(5);
    std::weak_ptr<int> ww = w;
    q.push(w);
    q.push(std::move(w));
    q.push(std::vector<P>{std::make_shared<int>(1)});
    w.reset();
    c.expect(ww.expired(), "closed-push", "a closed queue accepted an element");
    c.expect(!q.tryPop(p) && !q.wait(p) && !q.waitFor(p, 5LL) && !q.waitUntil(p, sclk::now() + ms{5}), "closed-pop", "a closed queue handed out an element");
    c.expect(q.isClosed(), "closed", "x");
    size_t left = q.size();
    size_t cb = 0;
    if (c.rng.chance(50)) { q.clear([&](P &x) { c.expect(x != nullptr, "clear", "x"); cb++; }); c.expect(cb == left, "clear", "x"); }
    else q.clear();
    c.expect(q.size() == 0 && q.empty(), "clear", "x");
    q.reOpen();
    c.expect(!q.isClosed(), "reopen", "x");
    c.expect(!q.tryPop(p), "reopen", "an old element came back");
    q.push(std::make_shared<int>(42));
    c.expect(q.wait(p) && *p == 42, "reopen", "a reopened queue does not work");
    auto t0 = sclk::now();
    c.expect(!q.waitFor(p, ms{2}) && sclk::now() - t0 >= ms{2}, "early", "x");
    c.observe("close_cycles");
    c.sign((uint64_t)got * 100 + n * 10 + nC);
  }
  // clear while the destructors of the elements use the queue
  {
    struct El { Queue<std::shared_ptr<El>> *q; ~El() { (void)q->size(); } };
    Queue<std::shared_ptr<El>> eq;
    for (int i = 0; i < 3; ++i) eq.push(std::make_shared<El>(El{&eq}));
    eq.clear();
  }
  c.nontrivial();
}

namespace {
struct Plain { int64_t a = 0, b = 0; std::string s; };
template <class Add, class Read>
void guard(Ctx &c, Add add, Read read, const char *what) {
  const int nT = c.rng.range(2, 4), per = c.thorough ? 600 : 200;
  std::vector<std::thread> ts;
  mon::Gate g;
  for (int t = 0; t < nT; ++t)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      g.wait();
      for (int i = 0; i < per; ++i) {
        add(r);
        if (r.chance(20)) { Plain p = read(); c.expect(p.a == p.b && (int64_t)p.s.size() == p.a % 50, "torn", what, ": torn read ", p.a, " ", p.b); }
        if (r.chance(3)) mon::jitter(r);
      }
    });
  g.release();
  for (auto &t : ts) t.join();
  Plain p = read();
  c.expect(p.a == nT * per, "lost-update", what, ": ", p.a, " of ", nT * per);
  c.observe("guarded_updates", nT * per);
  c.sign((uint64_t)p.a + c.rng.below(1000) * 10000);
}
void bump(Plain &p) { p.a++; p.s.assign((size_t)(p.a % 50), 'x'); p.b++; }
}  // namespace

SCENARIO(guarded_objects) {
  switch (c.rng.below(8)) {
    case 0: {
      Lockable<Plain> l;
      guard(c, [&](mon::Rng &r) {
        if (r.chance(30)) {   // tried until it succeeds: owned exclusively then
          std::unique_lock<Lockable<Plain>> u(l, std::defer_lock);
          while (!u.try_lock()) std::this_thread::yield();
          bump(*l);
        } else if (r.chance(50)) bump(*l.atomic()); else { auto a = l.atomic(); bump(*a); } },
            [&] { return *static_cast<const Lockable<Plain> &>(l).atomic(); }, "Lockable");
      break;
    }
    case 1: {
      Lockable<Plain, std::recursive_mutex> l;
      guard(c, [&](mon::Rng &r) { std::lock_guard<Lockable<Plain, std::recursive_mutex>> g(l); if (r.chance(50)) bump(*l); else { auto n = l.atomic(); auto m = l.atomic(); bump(*m); } },
            [&] { return *l.atomic(); }, "Lockable recursive");
      break;
    }
    case 2: {
      AtomicObject<Plain> a;
      guard(c, [&](mon::Rng &r) {
        if (r.chance(30)) { auto x = a.atomic(); bump(*x); }
        else if (r.chance(50)) { auto x = *a; x->s.assign((size_t)((x->a + 1) % 50), 'x'); x->a++; x->b++; }
        else { auto x = a.atomic(); auto y = std::move(x); bump(*y.operator->()); }
      }, [&] { auto x = static_cast<const AtomicObject<Plain> &>(a).atomic(); return *x; }, "AtomicObject");
      break;
    }
    case 3: {
      AtomicObject<Plain, std::recursive_mutex> a;
      guard(c, [&](mon::Rng &) { auto x = a.atomic(); auto y = a.atomic(); bump(**a); }, [&] { return **a; }, "AtomicObject recursive");
      break;
    }
    case 4: {
      AtomicObject<std::unique_ptr<Plain>> a(std::make_unique<Plain>());
      guard(c, [&](mon::Rng &r) { auto x = a.atomic(); if (r.chance(50)) bump(*x); else bump(*x.operator->()); },
            [&] { auto x = a.atomic(); return *x; }, "AtomicObject pointer");
      break;
    }
    case 5: {
      std::mutex m;
      Lockable<Plain, MutexReference<std::mutex>> dummy;
      (void)dummy;
      AtomicObject<Plain, MutexReference<std::mutex>> a1(MutexReference<std::mutex>{m}), a2(mutexRef(m));
      // two objects share one mutex
      Plain shared;
      guard(c, [&](mon::Rng &r) { if (r.chance(50)) { auto x = a1.atomic(); bump(shared); } else { auto x = a2.atomic(); bump(shared); } },
            [&] { auto x = a1.atomic(); return shared; }, "MutexReference");
      break;
    }
    case 6: {
      // whole value assignment is one access
      Lockable<Plain> l;
      AtomicObject<Plain> a, b;
      guard(c, [&](mon::Rng &r) { auto g = a.atomic(); Plain p = *g; bump(p); *g = p; l = p; if (r.chance(50)) b = p; else b = std::move(p); },
            [&] {
              { auto p = *l.atomic(); c.expect(p.a == p.b, "torn", "x"); }
              { Plain p; { auto y = b.atomic(); p = *y; } c.expect(p.a == p.b && (int64_t)p.s.size() == p.a % 50, "torn", "x"); }
              auto x = a.atomic();
              auto y = b.atomic();
              c.expect((*l.atomic()).a == x->a && y->a == x->a, "not-assigned", "an assigned value is not there");
              return *x;
            }, "assignment");
      break;
    }
    default: {
      Plain p;
      if (c.rng.chance(40)) {   // several lockers of one mutex
        std::mutex m;
        Locker<MutexReference<std::mutex>> l1(mutexRef(m)), l2(mutexRef(m));
        guard(c, [&](mon::Rng &r) {
          if (r.chance(50)) { while (!l1.try_lock()) std::this_thread::yield(); bump(p); l1.unlock(); }
          else { auto g = l2(p); bump(*g); } },
              [&] { auto g = l1(p); return *g; }, "Locker of a shared mutex");
        break;
      }
      Locker<std::mutex> lk;
      guard(c, [&](mon::Rng &r) { if (r.chance(50)) { auto g = lk(p); bump(*g); } else { auto g = lk(p); g->s.assign((size_t)((g->a + 1) % 50), 'x'); g->a++; g->b++; } },
            [&] { auto g = lk(p); return *g; }, "Locker");
    }
  }
  c.nontrivial();
}

// results passed on to another thread
SCENARIO(upcoming_results) {
  int n = c.rng.range(1, 20), sum = 0;
  for (int i = 0; i < n; ++i) {
    std::promise<int> pr;
    Upcoming<int> u(pr.get_future());
    bool drop = c.rng.chance(25), chain = c.rng.chance(50);
    c.expect(u.valid(), "valid", "x");
    std::thread t([pr = std::move(pr), drop, i, r = c.rng.fork()]() mutable {
      mon::jitter(r);
      if (!drop) pr.set_value(i);
      else { auto gone = std::move(pr); }
    });
    int calls = 0;
    if (chain) {
      auto v = u.then([&](int x) { calls++; return std::to_string(x); }).then([&](std::string s) { calls++; return (int)s.size() * 1000 + std::stoi(s); });
      auto o = v.get();
      c.expect(o.has_value() == !drop, "result", "x");
      if (o) c.expect(*o == (int)std::to_string(i).size() * 1000 + i && calls == 2, "result", "x");
      else c.expect(calls == 0, "result", "continuation ran without a result");
    } else {
      if (c.rng.chance(50)) u.wait();
      else u.waitFor(ms{20000});
      auto o = u.get();
      c.expect(o.has_value() == !drop && (!o || *o == i), "result", "x");
      c.expect(!u.get().has_value(), "twice", "result delivered twice");
    }
    t.join();
    sum += i;
    c.observe("upcoming");
  }
  std::vector<std::thread> v;
  std::atomic<int> d{0};
  {
    ThreadJoiner<std::vector<std::thread>> j(v);
    for (int i = 0; i < 3; ++i) v.emplace_back([&] { d++; });
  }
  c.expect(d == 3, "joiner", "x");
  c.sign(c.rng.s);
  c.nontrivial();
}
