// P06 / P07: signals and slots
#include <maf/SignalSlots.h>
#include <maf/utils/DirectExecutor.h>

#include <deque>

#include "proc_common.h"
using namespace hp;
using namespace maf::signal_slots;
namespace sd = maf::signal_slots::details;

namespace {
// Collects executions; they run when the test says so (possibly in another thread).
struct Deferred : maf::util::ExecutorIF {
  std::mutex m;
  std::deque<CallbackType> q;
  std::atomic<int> n{0};
  bool execute(CallbackType cb) noexcept override {
    std::lock_guard<std::mutex> l(m);
    q.push_back(std::move(cb));
    n++;
    return true;
  }
  int runAll() {
    int k = 0;
    for (;;) {
      CallbackType cb;
      {
        std::lock_guard<std::mutex> l(m);
        if (q.empty()) return k;
        cb = std::move(q.front());
        q.pop_front();
      }
      cb();
      k++;
    }
  }
};

enum Kind { Plain, Aware, Tracked, SharedSlot, Method, SharedMethod, SharedFunctor, Exec, ExecAware, ExecTracked, ExecMethod, Forward, TupleSlot, kKinds };

template <class Sig>
struct World;

template <class Sig>
struct Slot {
  using SlotFn = typename Sig::SlotType;
  World<Sig> *w;
  Kind kind;
  int id;
  bool conn = true;
  bool alive = true;      // tracked object
  bool dead = false;      // can not be reconnected (slot is gone)
  bool owner = true;
  bool scoped = false;
  bool busyAware = false;
  Connection con;
  std::unique_ptr<ScopedConnection> sc;
  std::shared_ptr<void> obj;
  std::shared_ptr<SlotFn> ps;
  std::shared_ptr<Deferred> ex;
  std::unique_ptr<Sig> fwd;
  std::deque<int> queued; // values whose deferred call is outstanding
  int deferredCalls = 0;
  // about the emission in progress
  int calls = 0;
  bool atStart = false, touched = false, aliveAtStart = true;
  bool counts() const { return conn && alive; }

  void method(const int &v, const std::string &s) { w->called(this, v, s, nullptr); }
};
template <class Sig>
struct Owner {
  Slot<Sig> *s;
  bool gone = false;
  ~Owner() { gone = true; s = nullptr; }
  void method(const int &v, const std::string &str) {
    s->w->called(s, v, str, nullptr);
  }
  void operator()(const int &v, const std::string &str) const { s->w->called(s, v, str, nullptr); }
};

template <class Sig>
struct World {
  using S = Slot<Sig>;
  Ctx &c;
  bool single;
  std::unique_ptr<Sig> sig;
  std::vector<std::unique_ptr<S>> all;
  std::vector<S *> order;       // connected slots in connection order
  bool emitting = false, runningDeferred = false;
  int cur = -1;
  std::string curS;
  std::vector<S *> callOrder;
  int emissions = 0, ops = 0;
  bool throwing = false;
  World(Ctx &c, bool single, std::unique_ptr<Sig> s) : c(c), single(single), sig(std::move(s)) {}

  S *pick() { return all[c.rng.below(all.size())].get(); }
  int live() const { int n = 0; for (auto *s : order) n += s->alive; return n; }
  void checkCount() {
    // slots of ended objects are only noticed by the next emission
    auto n = sig->connectionCount();
    c.expect(n >= (size_t)live() && n <= order.size(), "count", "connectionCount ", n, " expected ", live(), "..", order.size());
    c.expect(sig->connected() == (n > 0), "signal-connected", "connected() ", sig->connected(), " with ", n);
  }
  void checkCon(S *s) {
    if (s->owner && !s->scoped && s->alive)
      c.expect(s->con.connected() == s->conn, "connected", "connection of kind ", (int)s->kind, " reports ", s->con.connected());
  }
  void gone(S *s) {
    s->conn = false;
    for (auto it = order.begin(); it != order.end(); ++it)
      if (*it == s) { order.erase(it); break; }
  }
  void come(S *s) { s->conn = true; s->touched = emitting; order.push_back(s); }

  void connectNew() {
    all.push_back(std::make_unique<S>());
    S *s = all.back().get();
    s->w = this;
    s->id = (int)all.size();
    s->kind = (Kind)c.rng.below(kKinds);
    bool taken = single && !order.empty();
    auto fn = [this, s](const int &v, const std::string &str) { called(s, v, str, nullptr); };
    auto aw = [this, s](ConnectionPtr con, const int &v, const std::string &str) { called(s, v, str, con.get()); };
    switch (s->kind) {
      case Plain: s->con = sig->connect(fn); break;
      case Aware: s->con = sig->connect(aw); break;
      case Tracked: s->obj = std::make_shared<int>(1); s->con = sig->connect(s->obj, fn); break;
      case SharedSlot: s->ps = std::make_shared<typename Sig::SlotType>(fn); s->con = sig->connect(s->ps); break;
      case Method: s->con = sig->connect(s, &S::method); break;
      case SharedMethod: {
        auto o = std::make_shared<Owner<Sig>>(Owner<Sig>{s});
        o->s = s;
        s->obj = o;
        s->con = sig->connect(o, &Owner<Sig>::method);
        break;
      }
      case SharedFunctor: {
        auto o = std::make_shared<Owner<Sig>>(Owner<Sig>{s});
        o->s = s;
        s->obj = o;
        s->con = sig->connect(o);
        break;
      }
      case Exec: s->ex = std::make_shared<Deferred>(); s->con = sig->connect(fn, s->ex); break;
      case ExecAware: s->ex = std::make_shared<Deferred>(); s->con = sig->connect(aw, s->ex); break;
      case ExecTracked: s->ex = std::make_shared<Deferred>(); s->obj = std::make_shared<int>(1); s->con = sig->connect(s->obj, fn, s->ex); break;
      case ExecMethod: s->ex = std::make_shared<Deferred>(); s->con = sig->connect(s, &S::method, s->ex); break;
      case Forward: {
        if constexpr (std::is_same_v<Sig, SharedMutexSignal<int, std::string>> || std::is_same_v<Sig, SharedMutexSCSignal<int, std::string>>)
          s->fwd = std::make_unique<Sig>(mtx());
        else
          s->fwd = std::make_unique<Sig>();
        s->fwd->connect(fn);
        s->con = sig->connect(*s->fwd);
        break;
      }
      default: {
        std::function<void(const std::tuple<int, std::string> &)> tf = [this, s](const std::tuple<int, std::string> &t) {
          called(s, std::get<0>(t), std::get<1>(t), nullptr);
        };
        s->con = sig->connect(tf);
      }
    }
    if (taken) {
      c.expect(!s->con.connected(), "single", "a second slot was connected to a single connection signal");
      c.expect(!s->con.reconnect() && !s->con.disconnect(), "single", "x");
      s->conn = false;
      s->dead = true;
      c.observe("single_refused");
      return;
    }
    s->touched = emitting;
    order.push_back(s);
    checkCon(s);
    int k = (int)c.rng.below(100);
    if (k < 10) { s->owner = false; s->con = Connection{}; }
    else if (k < 25) { s->scoped = true; s->sc = std::make_unique<ScopedConnection>(std::move(s->con)); }
    c.observe("connects");
  }
  void disc(S *s) {
    if (s->scoped) {
      if (!s->sc) return;
      switch (c.rng.below(3)) {
        case 0: s->sc.reset(); break;
        case 1: { ScopedConnection other(std::move(*s->sc)); s->sc.reset(); break; }
        default: *s->sc = ScopedConnection{}; s->sc.reset();
      }
      bool was = s->conn;
      if (was) gone(s);
      s->dead = true;
      c.observe("scoped_ends");
      return;
    }
    if (!s->owner) return;
    bool was = s->conn, r;
    if (s->kind == SharedSlot && c.rng.chance(50)) {
      r = sig->disconnect(s->ps);
    } else {
      r = s->con.disconnect();
    }
    if (s->alive) c.expect(r == was, "disconnect-result", "disconnect returned ", r, " on a slot with connected=", was);
    if (was) gone(s);
    if (was && !r) s->dead = true;   // the emission in progress found its object ended
    checkCon(s);
    c.observe("disconnects");
  }
  void discAll() {
    sig->disconnect();
    auto cp = order;
    for (auto *s : cp) {
      gone(s);
      // nobody holds the slots any more, except shared ones
      s->dead = true;
    }
    c.expect(sig->connectionCount() == 0 && !sig->connected(), "all", "slots left after disconnecting all");
    c.observe("disconnect_all");
  }
  void reconn(S *s) {
    if (!s->owner || s->scoped || s->kind == SharedSlot) return;
    bool was = s->conn;
    bool full = single && !order.empty();
    bool r = s->con.reconnect();
    if (was || s->dead) c.expect(!r, "reconnect", "reconnect succeeded on connected=", was, " dead=", s->dead);
    else if (full) { c.expect(!r, "single", "reconnected to a taken single connection signal"); s->dead = true; }
    else { c.expect(r, "reconnect", "reconnect of a disconnected slot failed"); if (r) come(s); }
    checkCon(s);
    c.observe("reconnects");
  }
  void endObject(S *s) {
    if (!s->obj || !s->alive) return;
    s->obj.reset();
    s->alive = false;
    c.observe("ended_objects");
  }
  void moveCon(S *s) {
    if (!s->owner || s->scoped) return;
    Connection t(std::move(s->con));
    c.expect(!s->con.connected() && !s->con.disconnect() && !s->con.reconnect(), "moved", "a moved-from connection still works");
    s->con = std::move(t);
    checkCon(s);
  }
  void op() {
    ops++;
    int k = (int)c.rng.below(24);
    if (all.empty() || k < 5) { if (all.size() < 60) connectNew(); }
    else if (k < 11) disc(pick());
    else if (k < 16) reconn(pick());
    else if (k < 18) endObject(pick());
    else if (k < 20) moveCon(pick());
    else if (k < 21) { if (c.rng.chance(25)) discAll(); }
    else if (k < 22) { auto *s = pick(); if (s->kind == Forward && s->fwd && c.rng.chance(50)) { s->fwd.reset(); s->alive = false; } }
    else if (k < 23) { if (!emitting && c.rng.chance(40)) moveSignal(); }
    else deferred(pick());
    checkCount();
  }
  void moveSignal() {
    if (c.rng.chance(50)) {
      auto n = std::make_unique<Sig>(std::move(*sig));
      sig = std::move(n);
    } else {
      Sig t(std::move(*sig));
      *sig = std::move(t);
    }
    c.observe("signal_moves");
  }
  void deferred(S *s) {
    if (!s->ex || emitting) return;
    runningDeferred = true;
    s->deferredCalls = 0;
    size_t expect = s->queued.size();
    int n = s->ex->runAll();
    runningDeferred = false;
    c.expect((size_t)n == expect, "executor", "executor ran ", n, " executions, expected ", expect);
    c.expect((size_t)s->deferredCalls == expect, "executor", "slot called ", s->deferredCalls, " of ", expect);
    c.observe("executor_calls", n);
  }
  static std::string str(int v) { return payload(v, v * 3); }
  void called(S *s, int v, const std::string &str_, Connection *self) {
    c.checked();
    if (s->ex && runningDeferred) {
      c.expect(!s->queued.empty() && s->queued.front() == v && str_ == str(v), "executor-args", "deferred slot got ", v);
      if (!s->queued.empty()) s->queued.pop_front();
      s->deferredCalls++;
      if (self && c.rng.chance(15)) {
        bool was = s->conn, r = self->disconnect();
        c.expect(r == was, "self-disconnect", "x");
        if (was) { gone(s); s->dead = true; }  // the owner's connection is a weak one
      }
      return;
    }
    c.expect(!s->ex, "executor", "a slot with executor was called outside of it");
    c.expect(emitting, "outside", "slot called outside of an emission");
    c.expect(v == cur && str_ == curS, "args", "slot got ", v, " during emission of ", cur);
    c.expect(s->conn, "disconnected-called", "a disconnected slot was called, kind ", (int)s->kind);
    c.expect(s->alive, "ended-called", "a slot of an ended object was called, kind ", (int)s->kind);
    s->calls++;
    if (s->atStart) callOrder.push_back(s);
    c.log(1, s->kind, v, s->calls);
    if (self && c.rng.chance(30)) {
      c.expect(self->connected(), "self-connected", "x");
      bool r = self->disconnect();
      c.expect(r && !self->connected(), "self-disconnect", "disconnecting a slot from itself failed");
      gone(s);
      checkCon(s);
      if (c.rng.chance(50)) {
        bool full = single && !order.empty();
        bool rr = self->reconnect();
        c.expect(rr == !full, "self-reconnect", "x");
        if (rr) come(s);
        else s->dead = true;
      } else {
        s->dead = true;   // the owner's connection is a weak one
      }
      c.observe("self_disconnects");
    }
    int n = c.rng.chance(35) ? c.rng.range(1, 3) : 0;
    for (int i = 0; i < n; ++i) op();
    if (throwing && c.rng.chance(10)) throw 7;
  }
  std::vector<S *> startOrder;
  void emit() {
    cur = emissions++;
    curS = str(cur);
    emitting = true;
    callOrder.clear();
    startOrder = order;
    std::map<S *, int> exBefore;
    for (auto &s : all) { s->calls = 0; s->touched = false; s->aliveAtStart = s->alive; s->atStart = s->conn && s->alive; if (s->ex) exBefore[s.get()] = s->ex->n; }
    bool thrown = false;
    try {
      if (c.rng.chance(50)) (*sig)(cur, curS);
      else sig->notify(cur, curS);
    } catch (int) { thrown = true; c.observe("thrown"); }
    emitting = false;
    std::vector<int> want, got;
    for (auto *s : startOrder) if (s->calls && !s->touched) want.push_back(s->id);
    for (auto *s : callOrder) if (!s->touched) got.push_back(s->id);
    c.expect(thrown || want == got, "order", "slots were not called in connection order");
    for (auto &p : all) {
      auto *s = p.get();
      int calls = s->calls;
      if (s->ex) {
        calls = s->ex->n - (exBefore.count(s) ? exBefore[s] : 0);
        for (int i = 0; i < calls; ++i) s->queued.push_back(cur);
      }
      c.expect(calls <= 1 || s->touched, "twice", "slot of kind ", (int)s->kind, " called ", calls, " times by one emission");
      if (s->atStart && s->conn && s->alive && !s->touched && !thrown)
        c.expect(calls == 1, "missed", "connected slot of kind ", (int)s->kind, " called ", calls, " times");
      if (!s->atStart && !s->touched && !s->ex) c.expect(calls == 0, "disconnected-called", "x");
    }
    // connections to objects that ended before are dropped when it is noticed
    if (!thrown)
      for (auto *s : startOrder)
        if (!s->aliveAtStart && !s->touched && s->conn) {
          if (s->owner && !s->scoped) c.expect(!s->con.connected(), "ended-connected", "still connected after an emission found its object ended");
          gone(s);
          s->dead = true;
        }
    c.observe("emissions");
  }
  static std::recursive_mutex &mtx() { static std::recursive_mutex m; return m; }
};

template <class Sig>
void model(Ctx &c, bool single, std::unique_ptr<Sig> sig) {
  World<Sig> w(c, single, std::move(sig));
  w.throwing = !mon::kTsan && c.rng.chance(25);
  int steps = c.rng.range(15, c.thorough ? 200 : 80);
  for (int i = 0; i < 4; ++i) w.connectNew();
  for (int i = 0; i < steps; ++i) {
    if (c.rng.chance(45)) w.emit();
    else w.op();
    w.checkCount();
    for (auto &s : w.all) w.checkCon(s.get());
    if (c.failed()) return;
  }
  w.throwing = false;
  // ended objects disappear with the next emissions
  w.emit();
  w.emit();
  for (auto &s : w.all) w.deferred(s.get());
  if (c.rng.chance(50)) w.emit();
  // connections outlive the signal
  std::vector<std::pair<Connection, bool>> left;
  for (auto &s : w.all) if (s->owner && !s->scoped) left.emplace_back(std::move(s->con), s->conn);
  // the deferred executions outlive the signal too
  w.sig.reset();
  for (auto &s : w.all) { s->conn = false; s->dead = true; }
  w.order.clear();
  for (auto &l : left) {
    c.expect(!l.first.connected(), "outlive", "connected although the signal is gone");
    c.expect(!l.first.reconnect() && !l.first.disconnect() && !l.first.connected(), "outlive", "x");
  }
  for (auto &s : w.all) w.deferred(s.get());
  c.nontrivial();
  c.sign();
  c.note("slots=" + std::to_string(w.all.size()) + " emissions=" + std::to_string(w.emissions));
}
}  // namespace

SCENARIO(signals_model) {
  switch (c.rng.below(6)) {
    case 0: model(c, false, std::make_unique<SignalST<int, std::string>>()); break;
    case 1: model(c, true, std::make_unique<SCSignalST<int, std::string>>()); break;
    case 2: model(c, false, std::make_unique<Signal<int, std::string>>()); break;
    case 3: model(c, true, std::make_unique<SCSignal<int, std::string>>()); break;
    case 4: model(c, false, std::make_unique<SharedMutexSignal<int, std::string>>(World<SharedMutexSignal<int, std::string>>::mtx())); break;
    default:
      model(c, true, std::make_unique<SharedMutexSCSignal<int, std::string>>(World<SharedMutexSCSignal<int, std::string>>::mtx()));
  }
}

// P07 -----------------------------------------------------------------------
namespace {
struct Val {
  int who, seq;
  std::string data;
  bool ok() const { return data == payload(who, seq); }
};
inline int64_t key(const Val &v) { return (int64_t)v.who * 1000000 + v.seq; }

// State only slots touch: guarded by nothing but the signal itself.
struct Guarded {
  Ctx &c;
  int depth = 0;
  std::vector<int64_t> order;  // plain on purpose: a race here is a race of slots
  explicit Guarded(Ctx &c) : c(c) {}
  struct In {
    Guarded &g;
    In(Guarded &g) : g(g) { g.c.expect(++g.depth == 1, "overlap", "slots of one signal run at the same time"); }
    ~In() { --g.depth; }
  };
};
std::recursive_mutex gMtx;

template <class Sig>
std::unique_ptr<Sig> makeSig() {
  if constexpr (std::is_same_v<Sig, SharedMutexSignal<Val>>) return std::make_unique<Sig>(gMtx);
  else return std::make_unique<Sig>();
}

template <class Sig>
void runMt(Ctx &c) {
  auto sigP = makeSig<Sig>();
  Sig &sig = *sigP;
  Guarded g(c);
  const int nEmit = c.rng.range(1, 3), nChurn = c.rng.range(1, 3), nStable = c.rng.range(1, 4), per = c.thorough ? 120 : 40;
  std::atomic<int> ordered{0};
  std::atomic<bool> stop{false};
  // a first slot that knows the global order of emissions
  auto first = sig.connect([&](const Val &v) {
    Guarded::In in(g);
    c.expect(v.ok(), "args", "slot got damaged values");
    g.order.push_back(key(v));
    ordered.store((int)g.order.size());
  });
  std::vector<std::vector<int64_t>> seen(nStable);
  std::vector<Connection> stable;
  AsyncProcessor ap(Processor::create());
  auto proc = ap.instance();
  ap.launch();
  std::vector<int64_t> viaProc;
  for (int i = 0; i < nStable; ++i)
    stable.push_back(sig.connect([&, i](const Val &v) {
      Guarded::In in(g);
      seen[i].push_back(key(v));
    }));
  auto onProc = sig.connect([&](const Val &v) { viaProc.push_back(key(v)); c.expect(v.ok(), "args", "x"); }, proc->getExecutor());
  std::atomic<int> total{0};
  std::vector<std::thread> es, cs;
  for (int e = 0; e < nEmit; ++e)
    es.emplace_back([&, e, r = c.rng.fork()]() mutable {
      for (int s = 0; s < per || !stop; ++s) {
        if (s > 20000) break;
        if (r.chance(50)) sig(Val{e, s, payload(e, s)});
        else sig.notify(Val{e, s, payload(e, s)});
        total++;
        if (r.chance(20)) mon::jitter(r);
        if (s >= per) mon::napUs(20);
      }
    });
  for (int k = 0; k < nChurn; ++k)
    cs.emplace_back([&, k, r = c.rng.fork()]() mutable {
      const int me = 10 + k;
      int seq = 0;
      for (int i = 0; i < (c.thorough ? 40 : 15); ++i) {
        struct St { std::atomic<bool> off{false}; std::atomic<int> mine{0}, last{-1}; };
        auto st = std::make_shared<St>();
        auto slot = [&c, &g, st, me](const Val &v) {
          Guarded::In in(g);
          c.expect(!st->off, "called-after-disconnect", "slot called after its disconnect had completed");
          c.expect(v.ok(), "args", "x");
          if (v.who == me) { st->mine++; st->last = v.seq; }
        };
        int kind = (int)r.below(6);
        if (kind == 0) {   // waitable connection
          int b = ordered.load();
          Val got{-1, -1, ""};
          int n = 0;
          auto w = waitableConnect(sig, [&](const Val &v) { got = v; n++; });
          int a = ordered.load();
          c.expect(w.valid(), "waitable", "x");
          bool own = r.chance(50);
          if (own) { sig(Val{me, seq, payload(me, seq)}); seq++; total++; }
          bool ok;
          switch (own ? r.below(3) : 0) {
            case 0: ok = w.waitFor(ms{20000}); break;
            case 1: ok = w.wait(); break;
            default: ok = w.waitUtil(std::chrono::steady_clock::now() + ms{20000});
          }
          if (!ok && stop) continue;
          c.expect(ok && n == 1 && got.ok(), "waitable", "waiting for an emission returned ", ok, " with ", n, " calls");
          int at = -1;
          {
            // the order is read inside an emission's exclusion
            auto con = sig.connect([&](const Val &) { if (at < 0) for (size_t j = 0; j < g.order.size(); ++j) if (g.order[j] == key(got)) at = (int)j; });
            sig(Val{me, seq, payload(me, seq)});
            seq++;
            total++;
            con.disconnect();
          }
          // exactly the first emission after it was connected
          c.expect(at >= b - 1 && at <= a, "waitable-first", "got emission ", at, ", connected between ", b, " and ", a);
          c.observe("waitables");
          continue;
        }
        std::shared_ptr<int> obj = kind == 1 ? std::make_shared<int>(0) : nullptr;
        Connection con = kind == 1   ? sig.connect(obj, slot)
                         : kind == 2 ? sig.connect(typename Sig::ConnectionAwareSlotType([slot](ConnectionPtr, const Val &v) { slot(v); }))
                                     : sig.connect(slot);
        c.expect(con.connected(), "connected", "x");
        for (int round = r.range(1, 3); round > 0; --round) {
          int m = r.range(0, 3);
          for (int j = 0; j < m; ++j) {
            int before = st->mine;
            sig(Val{me, seq, payload(me, seq)});
            total++;
            c.expect(st->mine == before + 1 && st->last == seq, "missed", "a slot connected during a whole emission was called ",
                     st->mine - before, " times");
            seq++;
          }
          if (kind == 1 && round == 1) { obj.reset(); break; }
          c.expect(con.disconnect(), "disconnect", "x");
          st->off = true;
          c.expect(!con.connected(), "connected", "x");
          mon::jitter(r);
          if (r.chance(30)) { int before = st->mine; sig(Val{me, seq, payload(me, seq)}); seq++; total++; c.expect(st->mine == before, "called-after-disconnect", "x"); }
          if (round > 1) {
            st->off = false;
            c.expect(con.reconnect() && con.connected(), "reconnect", "x");
          }
        }
        if (kind == 1) {
          // the last reference may be held by a call that is running
          int before = st->mine;
          sig(Val{me, seq, payload(me, seq)});
          seq++;
          total++;
          c.expect(st->mine == before, "ended-called", "slot called after its object ended");
        } else if (kind == 3) {
          st->off = false;
          { ScopedConnection sc(sig.connect(slot)); mon::jitter(r); }
          st->off = true;
        }
        c.observe("churned");
      }
    });
  for (auto &t : cs) t.join();
  stop = true;
  for (auto &t : es) t.join();
  c.expect(ordered == total, "lost", "emitted ", total.load(), " seen ", ordered.load());
  // all see all emissions in one order; each emitter's own order is kept
  for (auto &s : seen) c.expect(s == g.order, "order", "slots saw different sequences of emissions");
  proc->waitableExecute([] {}).wait();
  c.expect(viaProc == g.order, "executor", "the slot run through an executor saw ", viaProc.size(), " of ", g.order.size(), " emissions or another order");
  std::map<int, int> last;
  for (auto k : g.order) {
    int who = (int)(k / 1000000), s = (int)(k % 1000000);
    auto it = last.find(who);
    int prev = it == last.end() ? -1 : it->second;
    c.expect(s == prev + 1, "order", "emissions of one thread were lost or reordered");
    last[who] = s;
  }
  c.observe("mt_emissions", total);
  uint64_t h = 1;
  for (size_t i = 0; i < g.order.size() && i < 60; ++i) h = h * 1000003 + (uint64_t)(g.order[i] / 1000000);
  c.sign(h);
  c.nontrivial();
}
}  // namespace

SCENARIO(signals_mt) {
  if (c.rng.chance(70)) runMt<Signal<Val>>(c);
  else runMt<SharedMutexSignal<Val>>(c);
}

// Signals, tracked objects, connections and forwarding targets that end while others use them.
SCENARIO(signals_life) {
  struct Obj {
    Ctx &c;
    std::atomic<int> calls{0};
    std::atomic<bool> alive{true};
    int plain = 0;
    explicit Obj(Ctx &c) : c(c) {}
    ~Obj() { alive = false; plain = -1; }
    void on(const int &) { c.expect(alive, "ended-called", "method of an ended object called"); plain++; calls++; }
  };
  for (int round = 0; round < (c.thorough ? 20 : 8); ++round) {
    auto a = std::make_shared<Signal<int>>();
    auto b = std::make_unique<Signal<int>>();
    auto sc = std::make_shared<SCSignal<int>>();
    std::atomic<int> viaB{0};
    std::atomic<bool> bOver{false};
    b->connect([&](int) { c.expect(!bOver, "called-after-end", "slot of a destroyed signal called"); viaB++; });
    auto fw = a->connect(*b);
    std::vector<std::shared_ptr<Obj>> objs;
    for (int i = 0; i < 3; ++i) {
      objs.push_back(std::make_shared<Obj>(c));
      a->connect(objs.back(), &Obj::on);
    }
    auto con = std::make_shared<Connection>(a->connect([](int) {}));
    const int n = c.rng.range(5, 30);
    std::atomic<int> scCalls{0}, scWins{0};
    std::vector<std::thread> ts;
    mon::Gate gate;
    for (int k = 0; k < 2; ++k)
      ts.emplace_back([&, a, sc, r = c.rng.fork()]() mutable {
        gate.wait();
        for (int i = 0; i < n; ++i) { (*a)(i); if (r.chance(30)) mon::jitter(r); (*sc)(i); }
      });
    // several threads try to become the only slot
    for (int k = 0; k < 2; ++k)
      ts.emplace_back([&, sc, r = c.rng.fork()]() mutable {
        gate.wait();
        for (int i = 0; i < n; ++i) {
          auto x = sc->connect([&](int) { scCalls++; });
          if (x.connected()) {
            c.expect(scWins.fetch_add(1) == 0, "single", "two slots connected to a single connection signal");
            c.expect(sc->connectionCount() == 1, "count", "x");
            if (r.chance(40)) mon::jitter(r);
            scWins--;
            c.expect(x.disconnect(), "disconnect", "x");
          }
        }
      });
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      gate.wait();
      mon::napUs((int)r.below(400));
      for (auto &o : objs) { o.reset(); mon::jitter(r); }
    });
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      gate.wait();
      mon::napUs((int)r.below(400));
      b.reset();
      bOver = true;
    });
    // connections are used by one thread while the signal goes away with its last user
    std::weak_ptr<Signal<int>> wa = a;
    ts.emplace_back([&, con, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int i = 0; i < n; ++i) {
        bool was = con->connected();
        bool d = con->disconnect();
        c.expect(!d || was, "disconnect", "x");
        if (r.chance(30)) mon::jitter(r);
        con->reconnect();
      }
    });
    // waiters on a signal that may end
    auto wsig = std::make_shared<Signal<int>>();
    ts.emplace_back([&, wsig, r = c.rng.fork()]() mutable {
      int n = 0;
      auto w = waitableConnect(*wsig, [&](int v) { c.expect(v == 7, "args", "x"); n++; });
      gate.wait();
      wsig.reset();
      bool ok = w.wait();
      c.expect(ok == (n == 1), "waitable", "wait returned ", ok, " with ", n, " calls");
      c.observe(ok ? "waits_served" : "waits_released");
    });
    ts.emplace_back([&, wsig = std::move(wsig), r = c.rng.fork()]() mutable {
      gate.wait();
      mon::napUs((int)r.below(300));
      if (r.chance(50)) (*wsig)(7);
      wsig.reset();
    });
    a.reset();
    sc.reset();
    gate.release();
    for (auto &t : ts) t.join();
    c.expect(!wa.lock() && !con->connected() && !con->reconnect(), "outlive", "x");
    c.observe("lifecycles");
    c.sign((uint64_t)viaB * 131 + scCalls * 7 + n);
  }
  // a cancelled wait is released
  {
    Signal<int> s;
    auto w = waitableConnect(s, [](int) {});
    std::thread t([&, r = c.rng.fork()]() mutable { mon::napUs((int)r.below(500)); w.cancel(); });
    bool ok = w.wait();
    c.expect(!ok, "cancel", "a cancelled wait reported an emission");
    t.join();
    s(1);
    c.expect(s.connectionCount() == 0, "count", "x");
  }
  c.nontrivial();
}
