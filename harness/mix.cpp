// P22: applications which use everything at once. Threads perform random actions on shared
// processors, timers, signals, observables, pools, services and clients; whatever an action makes
// run later (handlers, slots, observers, timers, tasks, responses, ...) performs actions as well.
#include <maf/Observable.h>
#include <maf/SignalSlots.h>
#include <maf/logging/Logger.h>
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/SyncTimer.h>
#include <maf/messaging/Timer.h>
#include <maf/threading/Queue.h>
#include <maf/threading/ThreadPoolFactory.h>

#include "cs_work.h"

namespace mix {
using namespace cs;
using hp::Typed;
using namespace maf::signal_slots;
using namespace maf::threading;

constexpr uint64_t kAlive = 0x6d61662d616c6976ULL;
struct Counters {
  std::atomic<int64_t> live{0};
  std::atomic<uint64_t> made{0}, runs{0}, dropped{0}, last{0};
  struct Kind {
    std::atomic<const char *> what{nullptr};
    std::atomic<int64_t> live{0};
  } kinds[64];
  // (literals only)
  Kind &kind(const char *w) {
    for (auto i = std::hash<std::string_view>()(w);; ++i) {
      auto &k = kinds[i % 64];
      const char *e = nullptr;
      if (k.what.compare_exchange_strong(e, w) || !strcmp(e, w)) return k;
    }
  }
  std::string left() {
    std::string s;
    for (auto &k : kinds)
      if (k.live) s += (s.empty() ? "" : ", ") + std::to_string(k.live) + " " + k.what.load();
    return s;
  }
};
// What callbacks hold: proves that they run while they exist, at most as often as
// they may, and that they are destroyed in the end.
struct TokObj {
  std::shared_ptr<Counters> k;
  uint64_t magic = kAlive;
  Counters::Kind &kind;
  std::string what, data;
  int maxRuns;
  std::atomic<int> runs{0};
  struct World *w;
  TokObj(struct World *world, std::shared_ptr<Counters> k, const char *w, int m) : k(std::move(k)), kind(this->k->kind(w)), what(w), data(what), maxRuns(m), w(world) {
    kind.live++;
    this->k->live++;
    this->k->made++;
  }
  ~TokObj() {
    magic = 0;
    last();
    kind.live--;
    k->live--;
    if (!runs) k->dropped++;
  }
  void last();
};
using Tok = std::shared_ptr<TokObj>;
struct Note {
  int ttl;
  Tok tok;
};
struct Exec_ {};  // tag

template <class T>
struct Cell {  // exchanges a shared resource
  std::mutex m;
  T v;
  T get() {
    std::lock_guard l(m);
    return v;
  }
  T swap(T n) {
    std::lock_guard l(m);
    std::swap(v, n);
    return n;
  }
};

thread_local Rng *tlRng = nullptr;
thread_local int tlRank = 0, tlDepth = 0;

enum Op {
  oPost, oExec, oRoute, oBroadcast, oHandler, oTimer, oRemoteTimer, oEmit, oConnect, oSet, oObserve, oPool, oRequest, oAbort, oStatus, oSignal,
  oRegister, oUnregister, oServe, oLog, oGet, nAnywhere,
  oWait = nAnywhere, oSync, oNewProc, oNewPool, oNewProxy, oNewStub, oSyncTimer, oBlocking, oAvailable, nOps
};
const char *const kOpNames[] = {"post", "execute", "route", "broadcast", "handler", "timer", "remote_timer", "emit", "connect", "set", "observe", "pool", "request", "abort",
                                "status", "signal", "register", "unregister", "serve", "log", "get", "wait", "sync_request", "new_processor", "new_pool",
                                "new_proxy", "new_stub", "sync_timer", "blocking", "available"};

using Sig = Signal<Note>;
using SharedSig = SharedMutexSignal<Note>;
using Obs = maf::signal_slots::mt::Observable<int>;
using TwoObs = maf::signal_slots::mt::Observable<std::string, int>;

struct World;
struct Task : Runnable {
  World *w;
  Tok tok;
  int ttl;
  std::atomic<bool> stopped{false};
  void run() override;
  void stop() override { stopped = true; }
};

// lives on a processor's thread
struct Timers {
  std::vector<std::unique_ptr<Timer>> ts;
  std::vector<std::unique_ptr<SignalTimer>> sts;
};
thread_local Timers *tlTimers = nullptr;

template <class PT>
struct Side {
  Cell<std::shared_ptr<BasicStub<PT>>> stub[2];
  Cell<std::shared_ptr<BasicProxy<PT>>> proxy[3];
  std::shared_ptr<ServiceStatusObserverIF> obs[3];  // of the drivers
  ServiceID sid[2];
  std::mutex m;
  std::vector<std::pair<int, RegID>> regs, reqs;
};

struct World {
  Ctx &c;
  std::shared_ptr<Counters> k = std::make_shared<Counters>();
  std::atomic<bool> closing{false};
  std::atomic<uint64_t> ops[nOps]{};
  std::atomic<uint64_t> rngSeed, budget;
  static constexpr int kProcs = 3, kSigs = 3, kObs = 3, kPools = 2;
  struct P {
    Cell<ProcessorInstance> inst;
    std::unique_ptr<AsyncProcessor> ap;  // of its driver
    ProcessorID id;
  } procs[kProcs];
  std::unique_ptr<Sig> sigs[kSigs];
  std::recursive_mutex gm;
  std::unique_ptr<SharedSig> shared;
  std::unique_ptr<Obs> obs[kObs];
  std::unique_ptr<TwoObs> two;
  std::mutex cm;
  std::vector<std::pair<int, Connection>> cons;  // with the rank of their signal
  std::vector<std::shared_ptr<int>> objs;
  Cell<std::shared_ptr<IThreadPool>> pools[kPools];
  std::unique_ptr<Side<Itc>> itc = std::make_unique<Side<Itc>>();
  std::unique_ptr<Side<Ipc>> ipc = std::make_unique<Side<Ipc>>();
  ProcessorInstance dead = Processor::create();
  Address addr;
  bool withIpc;
  std::atomic<uint64_t> seq{1};
  explicit World(Ctx &c) : c(c), rngSeed(c.rng.next()), budget(0), addr(hp::uniqueId(c, "mix" + std::to_string(getpid())), 7), withIpc(c.rng.chance(50)) {
    dead->stop();
  }

  Rng &rng() {
    if (!tlRng) {
      thread_local std::unique_ptr<Rng> own;
      own = std::make_unique<Rng>(rngSeed.fetch_add(1));
      tlRng = own.get();
    }
    return *tlRng;
  }
  Tok tok(const char *what, int maxRuns = 1 << 30) { return std::make_shared<TokObj>(this, k, what, maxRuns); }
  void use(const Tok &t) {
    int n = ++t->runs;
    k->runs++;
    if (t->magic != kAlive || t->data != t->what || n > t->maxRuns) {
      c.expect(t->magic == kAlive, "dead", "a callback of a destroyed ", t->what, " runs");
      c.expect(t->data == t->what, "damaged", "the contents of a callback changed");
      c.expect(n <= t->maxRuns, "ran_again", "a ", t->what, " was run ", n, " times");
    }
  }
  // a callback which performs actions
  auto then(const char *what, int ttl, int maxRuns = 1 << 30) {
    return [this, t = tok(what, maxRuns), ttl](const auto &...) {
      use(t);
      act(ttl - 1);
    };
  }
  auto slot(const char *what, int rank, int ttl) {
    return [this, t = tok(what), ttl, rank](const auto &...) {
      use(t);
      int old = tlRank;
      tlRank = std::max(tlRank, rank + 1);  // its signal may be locked meanwhile
      act(ttl - 1);
      tlRank = old;
    };
  }
  ProcessorInstance proc() { return procs[rng().below(kProcs)].inst.get(); }
  ExecutorIFPtr executor(bool direct) {
    auto p = proc();
    // (one of a processor which is gone refuses)
    if (!p) p = dead;
    switch (rng().below(direct ? 3 : 2)) {
      case 0: return p->getExecutor();
      case 1: return p->getAsyncExecutor();
      default: return maf::util::directExecutor();
    }
  }

  // from any thread, while signals of a lower rank are locked
  void act(int ttl) {
    if (closing || ttl <= 0 || tlDepth >= 6) return;
    if (budget.fetch_sub(1) > (1ull << 62)) {
      budget = 0;
      return;
    }
    ++tlDepth;
    perform((Op)rng().below(nAnywhere), ttl);
    --tlDepth;
  }
  void perform(Op op, int ttl) {
    auto &r = rng();
    ops[op]++;
    switch (op) {
      case oPost:
        if (auto p = proc()) {
          if (r.chance(50)) p->post<Note>(Note{ttl, tok("message")});
          else p->post(makeMessage<Typed<1>>(Typed<1>{(int)r.below(100), "typed"}));
        }
        break;
      case oExec:
        if (auto p = proc()) {
          if (r.chance(50)) p->executeAsync(then("execution", ttl, 1));
          else p->execute(then("execution", ttl, 1));
        }
        break;
      case oRoute:
        maf::messaging::routing::post<Note>(procs[r.below(kProcs)].id, Note{ttl, tok("routed message")});
        if (r.chance(30)) maf::messaging::routing::findProcessor(procs[r.below(kProcs)].id);
        break;
      case oBroadcast: maf::messaging::routing::postToAll<Note>(Note{ttl, tok("broadcast message")}); break;
      case oHandler:
        if (auto p = proc()) {
          // connecting waits for running handlers (as with any signal), which may wait for locked signals
          if (this_processor::instance() ? this_processor::instance() != p : tlRank > 0) break;
          switch (r.below(4)) {
            case 0: p->connect<Typed<1>>([f = then("handler", ttl)](const Typed<1> &t) { f(t); }); break;
            case 1: p->disconnect<Typed<1>>(); break;
            case 2: {
              auto con = p->connect<Note>([this, t = tok("handler")](const Note &n) {
                use(t);
                use(n.tok);
              });
              if (r.chance(50)) mon::jitter(r);
              con.disconnect();
              break;
            }
            default: p->connected<Note>(); break;
          }
        }
        break;
      case oTimer:
        if (tlTimers && tlRank < 1000) timers(ttl);
        else if (auto p = proc())
          p->executeAsync([this, t = tok("timer setup", 1), ttl] {
            use(t);
            if (tlTimers && !closing) timers(ttl);
          });
        break;
      case oRemoteTimer:
        if (auto p = proc()) Timer::timeoutAfter(ms{r.range(0, 8)}, then("timeout", ttl, 1), p);
        break;
      case oEmit: {
        int rank = r.range(0, kSigs + 1);
        if (rank < tlRank) break;
        Note n{ttl, tok("emitted value")};
        if (rank < kSigs) {
          if (r.chance(50)) (*sigs[rank])(n);
          else sigs[rank]->notify(n);
        } else if (rank == kSigs) (*shared)(n);
        break;
      }
      case oConnect: connect(ttl); break;
      case oSet: {
        int i = r.range(0, kObs), rank = kSigs + 1 + i;
        if (rank < tlRank) break;
        if (i == kObs) {
          auto v = (int)r.below(5);
          if (r.chance(50)) two->set(std::to_string(v), v);
          else {
            auto m = two->mutable_();
            m.template get<0>() = std::to_string(v);
            m.template get<1>() = v;
          }
          break;
        }
        auto &o = *obs[i];
        switch (r.below(4)) {
          case 0: ++o; break;
          case 1: o.set((int)r.below(5)); break;
          case 2: *o.mutable_() += 1; break;
          default: o = (int)r.below(5); break;
        }
        break;
      }
      case oObserve: observe(ttl); break;
      case oPool: {
        if (tlRank >= 1000) break;
        auto &cell = pools[r.below(kPools)];
        auto *t = new Task;
        t->w = this;
        t->tok = tok("task", 1);
        t->ttl = ttl;
        t->setAutoDeleted(true);
        std::lock_guard l(cell.m);  // the pool is not replaced meanwhile
        if (cell.v) cell.v->run(t, (unsigned)r.below(4));
        else delete t;
        break;
      }
      case oLog: MAF_LOGGER_INFO("mix ", ttl, " ", seq.load()); break;
      case oRequest:
      case oAbort:
      case oStatus:
      case oSignal:
      case oRegister:
      case oUnregister:
      case oServe:
      case oGet:
        if (withIpc && r.chance(50)) service(*ipc, op, ttl);
        else service(*itc, op, ttl);
        break;
      default: break;
    }
  }
  void timers(int ttl) {
    auto &r = rng();
    auto &t = *tlTimers;
    switch (r.below(6)) {
      case 0:
      case 1:
        if (t.ts.size() < 6) {
          t.ts.push_back(std::make_unique<Timer>(r.chance(30)));
          t.ts.back()->start(ms{r.range(1, 10)}, then("timer", ttl));
        } else {
          t.ts[r.below(t.ts.size())]->restart();
        }
        break;
      case 2:
        if (!t.ts.empty()) t.ts[r.below(t.ts.size())]->start(r.range(1, 10), then("timer", ttl));
        break;
      case 3:
        if (!t.ts.empty()) t.ts[r.below(t.ts.size())]->stop();
        break;
      case 4:
        if (!t.ts.empty()) t.ts.erase(t.ts.begin() + (long)r.below(t.ts.size()));
        break;
      default:
        if (t.sts.size() < 3) {
          t.sts.push_back(std::make_unique<SignalTimer>());
          t.sts.back()->timeoutSignal.connect([f = slot("timeout slot", 0, ttl)] { f(); });
        }
        t.sts[r.below(t.sts.size())]->start(ms{r.range(1, 10)});
        break;
    }
  }
  void keep(int rank, Connection con) {
    auto &r = rng();
    if (r.chance(30)) {
      if (r.chance(50)) mon::jitter(r);
      con.disconnect();
      return;
    }
    Connection old;
    int oldRank = -1;
    {
      std::lock_guard l(cm);
      cons.emplace_back(rank, std::move(con));
      for (size_t i = 0; cons.size() > 12 && i < cons.size(); ++i)
        if (cons[i].first >= tlRank) {
          oldRank = cons[i].first;
          old = std::move(cons[i].second);
          cons.erase(cons.begin() + (long)i);
          break;
        }
    }
    if (oldRank >= 0) old.disconnect();
  }
  template <class S>
  Connection attach(S &s, int rank, int ttl) {
    auto &r = rng();
    switch (r.below(4)) {
      case 0: return s.connect(one(slot("slot", rank, ttl)));
      case 1: return s.connect(one(slot("executed slot", rank, ttl))  /* maybe at once */, executor(false));
      case 2: {
        auto o = std::make_shared<int>(1);
        std::shared_ptr<int> gone;
        {
          std::lock_guard l(cm);
          objs.push_back(o);
          if (objs.size() > 6) {
            gone = std::move(objs.front());
            objs.erase(objs.begin());
          }
        }
        return s.connect(o, one(slot("slot of an object", rank, ttl)));
      }
      default: return s.connect(one(slot("slot", rank, ttl)), maf::util::directExecutor());
    }
  }
  template <class F>
  static auto one(F f) {
    return [f](const auto &) { f(); };
  }
  template <class F>
  static auto pair(F f) {
    return [f](const std::string &, const int &) { f(); };
  }
  void connect(int ttl) {
    int rank = rng().range(0, kSigs);
    if (rank < tlRank) return;
    if (rank < kSigs) keep(rank, attach(*sigs[rank], rank, ttl));
    else keep(rank, attach(*shared, rank, ttl));
  }
  void observe(int ttl) {
    auto &r = rng();
    int i = r.range(0, kObs), rank = kSigs + 1 + i;
    if (rank < tlRank) return;
    if (i == kObs) {
      if (r.chance(50)) keep(rank, two->connect(pair(slot("observer", rank, ttl))));
      else keep(rank, two->silentlyConnect(pair(slot("observer", rank, ttl))));
      return;
    }
    if (r.chance(50)) keep(rank, attach(*obs[i], rank, ttl));
    else keep(rank, obs[i]->silentlyConnect(one(slot("observer", rank, ttl))));
  }

  template <class PT>
  void service(Side<PT> &s, Op op, int ttl) {
    constexpr bool ipc = std::is_same_v<PT, Ipc>;
    auto &r = rng();
    int pi = (int)r.below(3);
    auto proxy = s.proxy[pi].get();
    auto stub = s.stub[r.below(2)].get();
    // a receiver's thread must not send, so clients and services of local ipc use executors
    if (proxy && (ipc || r.chance(30))) {
      auto e = executor(!ipc);
      if (!e) return;
      proxy = proxy->with(e);
    }
    switch (op) {
      case oRequest: {
        if (!proxy) break;
        RegID reg;
        auto n = seq++;
        if (r.chance(70))
          reg = proxy->template sendRequestAsync<echo_request::output>(
              echo_request::make_input(n, dataOf(n % 1000)), [this, n, f = then("response", ttl, 2)](ResponseT<echo_request::output> rs) {
                if (auto o = rs.isOutput() ? rs.getOutput() : nullptr)
                  c.expect(o->get_serial() == n && o->get_data() == dataOf(n % 1000, 3), "response_mixed", "a response with serial ", o->get_serial(), " for ", n);
                f();
              });
        else
          reg = proxy->template sendRequestAsync<ping_request>([f = then("void response", ttl, 1)](auto rs) { f(); });
        if (reg.valid()) {
          std::lock_guard l(s.m);
          s.reqs.emplace_back(pi, reg);
          if (s.reqs.size() > 20) s.reqs.erase(s.reqs.begin());
        }
        break;
      }
      case oAbort: {
        RegID reg;
        {
          std::lock_guard l(s.m);
          if (s.reqs.empty()) break;
          auto i = r.below(s.reqs.size());
          pi = s.reqs[i].first;
          reg = s.reqs[i].second;
        }
        if (auto p = s.proxy[pi].get()) p->abortRequest(reg);
        break;
      }
      case oStatus:
        if (!stub) break;
        if (r.chance(70)) {
          auto n = seq++;
          stub->template setStatus<level_status>(1, n, dataOf(n % 1000));
        } else if (r.chance(50)) stub->template setStatus<other_status>(1, seq.load(), "o");
        else stub->template getStatus<level_status>();
        break;
      case oSignal:
        if (!stub) break;
        if (r.chance(70)) {
          auto n = seq++;
          stub->template broadcastSignal<tick_attributes>(1, n, dataOf(n % 1000, 5));
        } else stub->template broadcastSignal<nothing_signal>();
        break;
      case oRegister: {
        if (!proxy) break;
        RegID reg;
        switch (r.below(4)) {
          case 0:
            reg = proxy->template registerStatus<level_status>([this, f = then("status callback", ttl)](auto st) {
              if (st && st->get_seq()) c.expect(st->get_data() == dataOf(st->get_seq() % 1000), "status_changed", "a status changed on its way");
              f();
            });
            break;
          case 1: reg = proxy->template registerStatus<other_status>([f = then("status callback", ttl)](auto st) { f(); }); break;
          case 2:
            reg = proxy->template registerSignal<tick_attributes>([this, f = then("signal callback", ttl)](auto at) {
              if (at) c.expect(at->get_data() == dataOf(at->get_seq() % 1000, 5), "signal_changed", "a signal changed on its way");
              f();
            });
            break;
          default: reg = proxy->template registerSignal<nothing_signal>([f = then("signal callback", ttl)] { f(); }); break;
        }
        std::pair<int, RegID> old{-1, {}};
        if (reg.valid()) {
          std::lock_guard l(s.m);
          s.regs.emplace_back(pi, reg);
          if (s.regs.size() > 6) {
            old = s.regs.front();
            s.regs.erase(s.regs.begin());
          }
        }
        if (old.first >= 0)
          if (auto p = s.proxy[old.first].get()) p->unregister(old.second);
        break;
      }
      case oUnregister: {
        std::pair<int, RegID> old{-1, {}};
        if (r.chance(20)) {
          if (proxy) proxy->unregisterAll(PT::template getOperationID<tick_attributes>());
          break;
        }
        {
          std::lock_guard l(s.m);
          if (s.regs.empty()) break;
          auto i = r.below(s.regs.size());
          old = s.regs[i];
          s.regs.erase(s.regs.begin() + (long)i);
        }
        if (auto p = s.proxy[old.first].get()) p->unregister(old.second);
        break;
      }
      case oServe:
        if (!stub) break;
        if (r.chance(25)) stub->stopServing();
        else stub->startServing();
        break;
      case oGet:
        if (!proxy) break;
        proxy->serviceStatus();
        if (r.chance(50)) proxy->template getStatus<level_status>([f = then("getStatus callback", ttl, 1)](auto st) { f(); });
        break;
      default: break;
    }
  }

  // ---- by drivers only: may wait -----------------------------------------
  void newProc(int i) {
    auto &p = procs[i];
    p.inst.swap({});
    p.ap.reset();  // stops and joins
    p.ap = std::make_unique<AsyncProcessor>(Processor::create(p.id));
    auto inst = p.ap->instance();
    c.expect(!!inst, "id_taken", "the id of a processor which ended is still taken");
    if (!inst) {
      p.ap.reset();
      return;
    }
    inst->connect<Note>([this, t = tok("handler")](const Note &n) {
      use(t);
      use(n.tok);
      act(n.ttl - 1);
    });
    inst->connect<maf::messaging::routing::ProcessorStatusUpdateMsg>([this, t = tok("status handler")](const maf::messaging::routing::ProcessorStatusUpdateMsg &m) {
      use(t);
      if (auto p = m.messageprocessor()) act(1);
    });
    auto tm = std::make_shared<Timers>();
    p.ap->launch([tm] { tlTimers = tm.get(); },
                 [tm] {
                   tlTimers = nullptr;
                   tm->ts.clear();
                   tm->sts.clear();
                 });
    p.inst.swap(inst);
  }
  void newPool(int i) {
    auto old = pools[i].swap({});
    if (old) {
      if (rng().chance(50)) old->shutdown();
      old.reset();
    }
    static const PoolType types[] = {DynamicCount, StableCount, Priority};
    pools[i].swap(ThreadPoolFactory::createPool(types[rng().below(3)], (unsigned)rng().range(1, 3)));
  }
  template <class PT>
  std::shared_ptr<BasicProxy<PT>> makeProxy(Side<PT> &s, int i) {
    auto &sid = s.sid[i % 2];
    if constexpr (std::is_same_v<PT, Ipc>) return maf::localipc::createProxy(addr, sid, procs[i % kProcs].inst.get()->getExecutor());
    else return maf::itc::createProxy(sid, rng().chance(50) ? maf::util::directExecutor() : executor(false));
  }
  // what is registered stays with the service respectively its client
  template <class PT>
  void dropProxy(Side<PT> &s, int i) {
    if (auto old = s.proxy[i].swap({})) {
      old->unregisterServiceStatusObserver(s.obs[i]);
      s.obs[i].reset();
    }
  }
  template <class PT>
  void dropStub(Side<PT> &s, int i) {
    if (auto old = s.stub[i].swap({})) {
      if (rng().chance(50)) old->stopServing();
      old->template unregisterRequestHandler<echo_request>();
      old->template unregisterRequestHandler<ping_request>();
      old->stopServing();
    }
  }
  template <class PT>
  void newProxy(Side<PT> &s, int i) {
    dropProxy(s, i);
    auto p = makeProxy(s, i);
    c.expect(!!p, "no_proxy", "creating a proxy failed");
    if (!p) return;
    s.obs[i] = p->onServiceStatusChanged([this, f = then("availability callback", 2)](Availability o, Availability n) {
      c.expect(o != n, "no_change", "told a change which is none");
      f();
    });
    s.proxy[i].swap(p);
  }
  template <class PT>
  void newStub(Side<PT> &s, int i) {
    dropStub(s, i);
    std::shared_ptr<BasicStub<PT>> st;
    if constexpr (std::is_same_v<PT, Ipc>) st = maf::localipc::createStub(addr, s.sid[i], procs[i].inst.get()->getExecutor());
    else st = maf::itc::createStub(s.sid[i], rng().chance(50) ? maf::util::directExecutor() : procs[i].inst.get()->getExecutor());
    c.expect(!!st, "no_stub", "creating a stub failed");
    if (!st) return;
    using Stub = BasicStub<PT>;
    st->template registerRequestHandler<echo_request::input>([this, t = tok("request handler")](typename Stub::template Request<echo_request::input> rq) {
      use(t);
      auto in = rq.getInput();
      c.expect(in && in->get_data() == dataOf(in->get_serial() % 1000), "input_changed", "an input changed on its way");
      if (!in) return;
      auto n = in->get_serial();
      auto answer = [n](auto &q) { q.respond(echo_request::make_output(n, kFinal, dataOf(n % 1000, 3))); };
      switch (rng().below(5)) {
        case 0: return;  // dropped
        case 1: rq.error("no", CSErrorCode::RequestRejected); return;
        case 2:
          if (auto p = proc()) {  // later, by a processor; dropped with it
            auto q = std::make_shared<decltype(rq)>(std::move(rq));
            p->executeAsync([this, q, answer, t = tok("held answer", 1)] {
              use(t);
              answer(*q);
              act(1);
            });
            return;
          }
          answer(rq);
          return;
        default:
          if (rng().chance(30)) act(1);
          answer(rq);
      }
    });
    st->template registerRequestHandler<ping_request>([this, t = tok("request handler")](typename Stub::template Request<ping_request> rq) {
      use(t);
      rq.respond();
    });
    if (rng().chance(80)) st->startServing();
    s.stub[i].swap(st);
  }
  template <class PT>
  void syncRequest(Side<PT> &s) {
    auto p = s.proxy[rng().below(3)].get();
    if (!p) return;
    auto n = seq++;
    ActionCallStatus st{};
    auto rs = p->template sendRequest<echo_request::output>(echo_request::make_input(n, dataOf(n % 1000)), &st, ms{rng().chance(50) ? 0 : rng().range(1, 40)});
    if (st == ActionCallStatus::Success && rs.isOutput() && rs.getOutput())
      c.expect(rs.getOutput()->get_serial() == n, "response_mixed", "a response with serial ", rs.getOutput()->get_serial(), " for ", n);
    else
      c.expect(!rs.isOutput() || !rs.getOutput(), "response_mixed", "a failed request has a response");
  }
  template <class U>
  void await(U &&u) {
    if (u.valid()) u.wait();  // not when the processor is gone
  }
  void drive(int me, int steps) {
    auto &r = rng();
    for (int i = 0; i < steps && !c.failed(); ++i) {
      if (r.chance(80)) {
        act(4);
        if (r.chance(15)) mon::jitter(r);
        continue;
      }
      auto op = (Op)(nAnywhere + (int)r.below(nOps - nAnywhere));
      ops[op]++;
      bool ip = withIpc && r.chance(50);
      switch (op) {
        case oWait:
          if (auto p = proc()) {
            if (r.chance(50)) await(p->waitableExecute(Execution{then("waited execution", 2, 1)}));
            else await(p->waitablePost<Note>(Note{2, tok("waited message")}));
          }
          if (r.chance(20)) await(maf::messaging::routing::sendToAll<Note>(Note{1, tok("waited broadcast")}));
          if (r.chance(20)) await(maf::messaging::routing::send<Note>(procs[r.below(kProcs)].id, Note{1, tok("waited routed")}));
          break;
        case oSync:
          if (ip) syncRequest(*ipc);
          else syncRequest(*itc);
          break;
        // every driver replaces its own ones only
        case oNewProc:
          if (me < kProcs && r.chance(40)) newProc(me);
          break;
        case oNewPool:
          if (me < kPools) newPool(me);
          break;
        case oNewProxy:
          if (me < 3 && r.chance(50)) {
            if (!procs[me].inst.get()) break;
            if (ip) newProxy(*ipc, me);
            else newProxy(*itc, me);
          }
          break;
        case oNewStub:
          if (me < 2 && r.chance(50)) {
            if (!procs[me].inst.get()) break;
            if (ip) newStub(*ipc, me);
            else newStub(*itc, me);
          }
          break;
        case oSyncTimer: {
          SyncTimer t;
          t.start(r.range(1, 3), then("sync timer", 2, 1));
          break;
        }
        case oBlocking:
          if (auto p = proc()) p->getBlockingExecutor()->execute(then("blocking execution", 2, 1));
          break;
        case oAvailable: {
          if (ip) {
            if (auto p = ipc->proxy[r.below(3)].get()) serviceStatusSignal(p)->waitIfNot(Availability::Available, ms{r.range(0, 5)});
          } else if (auto p = itc->proxy[r.below(3)].get()) serviceStatusSignal(p)->waitIfNot(Availability::Available, ms{r.range(0, 5)});
          break;
        }
        default: break;
      }
    }
  }
  template <class PT>
  void clear(Side<PT> &s) {
    for (int i = 0; i < 3; ++i) dropProxy(s, i);
    for (int i = 0; i < 2; ++i) dropStub(s, i);
  }
};
// Whatever callbacks own may act as well when it is destroyed with them, except with signals, which
// may be locked then.
void TokObj::last() {
  if (w->closing || tlDepth >= 4) return;
  auto seed = w->rngSeed.fetch_add(1);
  Rng r(seed);
  if (!r.chance(15)) return;
  if (w->budget.fetch_sub(1) > (1ull << 62)) {
    w->budget = 0;
    return;
  }
  static const Op ops[] = {oPost, oExec, oRoute, oBroadcast, oRemoteTimer, oRequest, oAbort, oStatus, oSignal, oRegister, oUnregister, oGet, oLog};
  auto oldRng = tlRng;  // of a thread which ends maybe
  int oldRank = tlRank;
  tlRng = &r;
  tlRank = 1000;
  ++tlDepth;
  k->last++;
  w->perform(ops[r.below(std::size(ops))], 2);
  --tlDepth;
  tlRank = oldRank;
  tlRng = oldRng;
}
void Task::run() {
  w->use(tok);
  w->act(ttl - 1);
}
}  // namespace mix

SCENARIO_T(mix, 90) {
  using namespace mix;
  // never destroyed: a late callback would be reported, not crash
  auto *w = new World(c);
  auto k = w->k;
  // (not while others log)
  static std::once_flag logging;
  std::call_once(logging, [] { maf::logging::init(maf::logging::LOG_LEVEL_INFO | maf::logging::LOG_LEVEL_FATAL, [](const std::string &) {}); });
  for (int i = 0; i < World::kProcs; ++i) w->procs[i].id = hp::uniqueId(c, "mixp");
  for (auto &s : w->sigs) s = std::make_unique<Sig>();
  w->shared = std::make_unique<SharedSig>(w->gm);
  for (auto &o : w->obs) o = std::make_unique<Obs>(0);
  w->two = std::make_unique<TwoObs>();
  for (int i = 0; i < World::kProcs; ++i) w->newProc(i);
  for (int i = 0; i < World::kPools; ++i) w->newPool(i);
  for (int i = 0; i < 2; ++i) {
    w->itc->sid[i] = hp::uniqueId(c, "mix-itc");
    w->ipc->sid[i] = hp::uniqueId(c, "mix-ipc");
    w->newStub(*w->itc, i);
    if (w->withIpc) w->newStub(*w->ipc, i);
  }
  for (int i = 0; i < 3; ++i) {
    w->newProxy(*w->itc, i);
    if (w->withIpc) w->newProxy(*w->ipc, i);
  }
  int nd = c.rng.range(2, 4), steps = c.thorough ? 150 : 60;
  w->budget = 20000;
  {
    std::vector<std::thread> ths;
    mon::Gate gate;
    for (int d = 0; d < nd; ++d)
      ths.emplace_back([&, d] {
        gate.wait();
        w->drive(d, steps);
      });
    gate.release();
    for (auto &t : ths) t.join();
  }
  if (c.failed()) mon::quit();
  mon::napUs((int)c.rng.below(3000));
  w->closing = true;
  // everything shuts down, in any order
  int order[] = {0, 1, 2, 3, 4};
  for (int i = 4; i > 0; --i) std::swap(order[i], order[c.rng.below((uint64_t)i + 1)]);
  for (int o : order) switch (o) {
      case 0:
        for (auto &p : w->procs) {
          p.inst.swap({});
          p.ap.reset();
        }
        break;
      case 1:
        for (auto &p : w->pools) p.swap({});
        break;
      case 2: w->clear(*w->itc); break;
      case 3:
        w->clear(*w->ipc);
        if (w->withIpc) {
          csmgmt::shutdownAllServers();
          csmgmt::shutdownAllClients();
        }
        break;
      default: break;
    }
  // signals and observables must outlive what uses them
  {
    std::lock_guard l(w->cm);
    w->cons.clear();
    w->objs.clear();
  }
  for (auto &s : w->sigs) s.reset();
  w->shared.reset();
  for (auto &s : w->obs) s.reset();
  w->two.reset();
  bool gone = mon::eventually([&] { return k->live == 0; }, 10000);
  c.expect(gone, "leak", k->live.load(), " of ", k->made.load(), " delivered objects and callbacks were never destroyed: ", k->left());
  for (int i = 0; i < nOps; ++i) c.observe(std::string("op_") + kOpNames[i], w->ops[i]);
  c.observe("callbacks_run", k->runs);
  c.observe("objects_made", k->made);
  c.observe("never_run", k->dropped);
  c.observe("calls_from_destructors", k->last);
  c.sign(mon::mix64(k->runs * 1000003 + k->made));
  c.nontrivial();
}
