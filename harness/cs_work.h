// The client-server scenarios, for any transport
#pragma once
#include "cs_common.h"

namespace cs {
struct Procs {
  std::vector<std::unique_ptr<AsyncProcessor>> v;
  AsyncProcessor &add() {
    v.push_back(std::make_unique<AsyncProcessor>());
    v.back()->launch();
    return *v.back();
  }
  void stop() {
    for (auto &p : v) p->stopAndWait();
  }
  void flush() {
    for (auto &p : v) p->instance()->waitableExecute(Execution{[] {}}).wait();
  }
  ~Procs() { stop(); }
};

// where services and clients of one case live
template <class PT>
struct Env {
  static constexpr bool ipc = std::is_same_v<PT, Ipc>;
  using Proxy = std::shared_ptr<BasicProxy<PT>>;
  using Stub = std::shared_ptr<BasicStub<PT>>;
  Ctx &c;
  ServiceID sid;
  Address addr;
  explicit Env(Ctx &c) : c(c), sid(hp::uniqueId(c, "svc")), addr(hp::uniqueId(c, "mafv" + std::to_string(getpid())), 1) {}
  Proxy proxy(ExecutorIFPtr ex, const ServiceID &s) {
    if constexpr (ipc) return maf::localipc::createProxy(addr, s, std::move(ex));
    else return maf::itc::createProxy(s, std::move(ex));
  }
  Proxy proxy(ExecutorIFPtr ex) { return proxy(std::move(ex), sid); }
  Stub stub(ExecutorIFPtr ex, const ServiceID &s) {
    if constexpr (ipc) return maf::localipc::createStub(addr, s, std::move(ex));
    else return maf::itc::createStub(s, std::move(ex));
  }
  Stub stub(ExecutorIFPtr ex) { return stub(std::move(ex), sid); }
  void waitAvailable(const Proxy &p) {
    bool ok = serviceStatusSignal(p)->waitIfNot(Availability::Available, 10000).isReady();
    c.expect(ok, "not_available", "the started service is not available");
    if (!ok) mon::quit();
  }
  // everything sent before was processed by the other side (needs a ping handler)
  void fence(const Proxy &p) {
    if constexpr (ipc) {
      ActionCallStatus st{};
      p->template sendRequest<ping_request>(&st, ms{20000});
      c.expect(st == ActionCallStatus::Success, "fence", "an empty request failed: ", (int)st);
    }
  }
  // nothing of this case is under way any more (the service must be stopped)
  void settle(const Proxy &p) {
    if constexpr (ipc) c.expect(mon::eventually([&] { return p->serviceStatus() == Availability::Unavailable; }), "stop_unnoticed", "the client did not notice the stopped service");
  }
  ~Env() {
    if constexpr (ipc) {
      csmgmt::shutdownAllServers();
      csmgmt::shutdownAllClients();
    }
  }
};

template <class PT>
void requests(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  std::shared_ptr<PoolExec> pool;
  ExecutorIFPtr ex;
  switch (c.rng.below(3)) {
    case 0: ex = maf::util::directExecutor(); break;
    case 1: ex = procs.add()->getExecutor(); break;
    default: ex = pool = std::make_shared<PoolExec>(3); break;
  }
  auto stub = env.stub(ex);
  auto prov = std::make_shared<Provider<PT>>(c, stub, c.rng.range(1, 3));
  prov->registerAll();
  bool early = c.rng.chance(50);
  if (early) stub->startServing();
  std::vector<std::pair<typename Env<PT>::Proxy, Processor *>> proxies;
  auto base = env.proxy(maf::util::directExecutor());
  proxies.emplace_back(base, nullptr);
  int np = c.rng.range(1, 3);
  for (int i = 0; i < np; ++i) {
    auto &p = procs.add();
    proxies.emplace_back(c.rng.chance(50) ? base->with(p->getExecutor()) : env.proxy(p->getExecutor()), p.instance().get());
  }
  if (!early) stub->startServing();
  c.expect(serviceStatusSignal(base)->waitIfNot(Availability::Available, 5000).isReady(), "not_available", "the started service is not available");
  runClient<PT>(c, proxies, c.idx << 20, c.rng.range(1, 4), c.thorough ? 60 : 25);
  prov->finish();
  c.expect(prov->nHandled > 0, "nothing", "no request was handled");
  c.observe("held_answers", prov->nHeld);
  c.observe("double_answers", prov->nDoubles);
  c.nontrivial();
  stub->stopServing();
  c.sign();
  if (pool) pool->stop();
  procs.stop();
  c.observe("raced_answers", prov->nRaces);
  // the registered handlers must not outlive prov
  stub->template unregisterRequestHandler<echo_request>();
  stub->template unregisterRequestHandler<twin_request>();
  stub->template unregisterRequestHandler<ping_request>();
}

// ---------------------------------------------------------------- P16
template <class PT>
using EchoReq = typename BasicStub<PT>::template Request<echo_request::input>;
template <class PT>
struct Fate {  // what the provider and the client saw of one request
  uint64_t serial = 0;
  int how = 0;
  std::atomic<int> abortCbs{0}, accepted{0}, refused{0}, responses{0};
  std::atomic<bool> arrived{false}, abortReturned{false};
  std::mutex m;
  std::shared_ptr<EchoReq<PT>> rq;
  std::shared_ptr<EchoReq<PT>> get() {
    std::lock_guard l(m);
    return rq;
  }
};
enum How { AbortQuiet, AbortRace, TimeoutQuiet, TimeoutRace, DropIt, LateOnAborted, AnswerThenAbort, OnAbortedAfterAbort, NHow };

template <class PT>
void endings(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto &srvProc = procs.add();
  auto stub = env.stub(srvProc->getExecutor());
  bool direct = c.rng.chance(50);
  auto proxy = env.proxy(direct ? ExecutorIFPtr(maf::util::directExecutor()) : procs.add()->getExecutor());
  auto answerProc = procs.add().instance();
  int threads = c.rng.range(1, 4), per = c.thorough ? 24 : 12;
  std::vector<Fate<PT>> fates((size_t)(threads * per));
  uint64_t base = c.idx << 20;
  bool cbOnExecutor = c.rng.chance(50);
  for (size_t i = 0; i < fates.size(); ++i) {
    fates[i].serial = base + i;
    fates[i].how = (int)c.rng.below(NHow);
  }
  auto fateOf = [&](uint64_t s) -> Fate<PT> & { return fates.at((size_t)(s - base)); };
  auto answer = [&](Fate<PT> &f) {
    auto rq = f.get();
    if (!rq) return;
    auto st = rq->respond(echo_request::make_output(f.serial, kFinal, std::string("late")));
    (st == ActionCallStatus::Success ? f.accepted : f.refused)++;
    c.log(4, (int64_t)f.serial, (int)st);
  };
  auto hookAbort = [&](Fate<PT> &f) {
    auto rq = f.get();
    auto cb = [&, rqw = std::weak_ptr<EchoReq<PT>>(rq)] {
      c.log(5, (int64_t)f.serial);
      f.abortCbs++;
      // calls back into the request must be possible
      if (auto rq = rqw.lock()) {
        c.expect(!rq->valid(), "abort_valid", "an aborted request is valid");
        c.expect(rq->respond() != ActionCallStatus::Success, "abort_answered", "an aborted request was answered");
      }
    };
    if (cbOnExecutor) rq->onAborted(cb, answerProc->getExecutor());
    else rq->onAborted(cb);
  };
  stub->template unregisterRequestHandler<echo_request>();
  stub->template registerRequestHandler<echo_request::input>([&](EchoReq<PT> r) {
    auto in = r.getInput();
    auto &f = fateOf(in->get_serial());
    if (f.how == DropIt) {
      f.arrived = true;
      return;
    }
    {
      std::lock_guard l(f.m);
      f.rq = std::make_shared<EchoReq<PT>>(std::move(r));
    }
    if (f.how != LateOnAborted && f.how != OnAbortedAfterAbort) hookAbort(f);
    f.arrived = true;
  });
  stub->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
  stub->startServing();
  env.waitAvailable(proxy);
  std::vector<std::thread> ths;
  mon::Gate gate;
  for (int t = 0; t < threads; ++t)
    ths.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int i = 0; i < per && !c.failed(); ++i) {
        auto &f = fates[(size_t)(t * per + i)];
        auto in = echo_request::make_input(f.serial, std::string("x"));
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        auto cb = [&](ResponseT<echo_request::output> rs) {
          c.log(6, (int64_t)f.serial);
          c.expect(f.how == DropIt ? rs.isError() && rs.getError()->code() == CSErrorCode::ResponseIgnored : rs.isOutput(), "wrong_end", "request ended wrongly");
          f.responses++;
        };
        auto arrive = [&] {
          bool ok = mon::eventually([&] { return f.arrived.load(); });
          c.expect(ok, "not_arrived", "a sent request never arrived at its handler");
          return ok;
        };
        RegID reg;
        switch (f.how) {
          case AbortQuiet:
          case OnAbortedAfterAbort: {
            reg = proxy->template sendRequestAsync<echo_request::output>(in, cb, &st);
            if (!arrive()) break;
            ActionCallStatus ast = ActionCallStatus::FailedUnknown;
            proxy->abortRequest(reg, &ast);
            c.expect(ast == ActionCallStatus::Success, "abort_failed", "aborting an open request failed: ", (int)ast);
            f.abortReturned = true;
            if (f.how == OnAbortedAfterAbort) hookAbort(f);
            c.expect(mon::eventually([&] { return f.abortCbs >= 1; }), "abort_cb_lost", "the abort callback of an aborted request was not called");
            answer(f);
            if (r.chance(50)) proxy->abortRequest(reg);
            c.observe("aborts");
            break;
          }
          case AbortRace: {
            reg = proxy->template sendRequestAsync<echo_request::output>(in, cb, &st);
            if (r.chance(70) && !arrive()) break;
            answerProc->executeAsync([&, k = r.below(200)] {
              if (k < 100) mon::napUs((int)k);
              answer(f);
            });
            if (r.chance(50)) mon::napUs((int)r.below(200));
            proxy->abortRequest(reg);
            f.abortReturned = true;
            c.observe("abort_races");
            break;
          }
          case TimeoutQuiet: {
            auto to = r.range(5, 60);
            auto t0 = sclk::now();
            auto rs = proxy->template sendRequest<echo_request::output>(in, &st, ms{to});
            auto took = std::chrono::duration_cast<ms>(sclk::now() - t0).count();
            f.abortReturned = true;
            c.expect(st == ActionCallStatus::Timeout && rs.isError() && !rs.isOutput(), "timeout_status", "an unanswered request ended with ", (int)st);
            c.expect(took >= to - 1, "early_timeout", "a request with timeout ", to, " ms was given up after ", took);
            c.expect(took <= to + 4000, "late_timeout", "a request with timeout ", to, " ms returned after ", took);
            if (!arrive()) break;
            c.expect(mon::eventually([&] { return f.abortCbs >= 1; }), "abort_cb_lost", "the abort callback of a timed out request was not called");
            answer(f);
            c.observe("timeouts");
            break;
          }
          case TimeoutRace: {
            auto to = r.range(1, 12);
            std::thread([&, d = r.range(0, 14000)] {
              mon::napUs(d);
              mon::eventually([&] { return f.arrived.load(); });
              answer(f);
              f.responses += 100;  // the answering thread ended
            }).detach();
            auto rs = proxy->template sendRequest<echo_request::output>(in, &st, ms{to});
            c.expect((st == ActionCallStatus::Timeout && rs.isError()) || (st == ActionCallStatus::Success && rs.isOutput() && rs.getOutput()->get_serial() == f.serial),
                     "timeout_race", "a request answered around its timeout ended with ", (int)st);
            if (st == ActionCallStatus::Success) {
              f.responses++;
              c.observe("timeout_races_answered");
            }
            c.expect(mon::eventually([&] { return f.responses.load() >= 100; }), "harness", "answering thread stuck");
            f.responses -= 100;
            c.observe("timeout_races");
            break;
          }
          case DropIt: {
            if (r.chance(50)) {
              auto rs = proxy->template sendRequest<echo_request::output>(in, &st);
              cb(rs);
            } else {
              proxy->template sendRequestAsync<echo_request::output>(in, cb, &st);
            }
            c.expect(mon::eventually([&] { return f.responses == 1; }), "dropped_unanswered", "a request object dropped unanswered left its requester waiting");
            break;
          }
          case LateOnAborted:
          case AnswerThenAbort: {
            reg = proxy->template sendRequestAsync<echo_request::output>(in, cb, &st);
            if (!arrive()) break;
            answer(f);
            if (f.how == LateOnAborted) hookAbort(f);
            c.expect(mon::eventually([&] { return f.responses == 1; }), "no_response", "response lost");
            proxy->abortRequest(reg);
            answer(f);
            c.observe("aborts_after_answer");
            break;
          }
        }
      }
    });
  gate.release();
  for (auto &t : ths) t.join();
  if (c.failed()) mon::quit();
  env.fence(proxy);
  procs.flush();
  for (auto &f : fates) {  // aborts may still be on their way
    if (f.how == AbortRace && f.rq && f.refused) c.expect(mon::eventually([&] { return f.abortCbs >= 1; }), "abort_cb_lost", "the answer was refused but the abort callback was not called");
    if (f.how == TimeoutRace) mon::eventually([&] { return f.abortCbs + f.accepted >= 1; });
  }
  env.fence(proxy);
  procs.flush();
  for (auto &f : fates) {
    auto d = [&] {
      return " (request " + std::to_string(f.serial - base) + " ending " + std::to_string(f.how) + ": abort callbacks " + std::to_string(f.abortCbs) +
             ", accepted answers " + std::to_string(f.accepted) + ", refused " + std::to_string(f.refused) + ", responses " + std::to_string(f.responses) + ")";
    };
    c.expect(f.abortCbs <= 1, "abort_cb_twice", "abort callback called more than once", d());
    c.expect(f.accepted <= 1, "answered_twice", "more than one answer accepted", d());
    switch (f.how) {
      case AbortQuiet:
      case OnAbortedAfterAbort:
      case TimeoutQuiet:
        c.expect(f.abortCbs == 1 && f.accepted == 0 && f.refused >= 1 && f.responses == 0, "aborted_end", "an aborted request must not be answered", d());
        break;
      case AbortRace:
        // the answer may find the request before it arrived: then only the abort happened
        c.expect(f.abortCbs + f.accepted <= 1, "abort_and_answer", "a request was both answered and aborted", d());
        if (f.rq && f.refused) c.expect(f.abortCbs == 1, "abort_cb_lost", "the answer was refused but the abort callback was not called", d());
        c.expect(f.responses <= f.accepted, "response_invented", "a response without answer", d());
        if (f.abortCbs) c.observe("races_aborted");
        if (f.responses) c.observe("races_answered");
        break;
      case TimeoutRace:
        c.expect(f.abortCbs + f.accepted == 1, "abort_and_answer", "a request must be either answered or aborted", d());
        c.expect(f.responses <= f.accepted, "response_invented", "a response without answer", d());
        break;
      case DropIt: c.expect(f.responses == 1 && f.abortCbs == 0, "dropped_end", "a dropped request must end with one error", d()); break;
      default:
        c.expect(f.abortCbs == 0 && f.accepted == 1 && f.responses == 1, "answered_end", "an answered request is not aborted", d());
    }
    c.observe("requests");
  }
  stub->stopServing();
  procs.stop();
  c.nontrivial();
  c.sign();
  {
    ActionCallStatus st{};
    proxy->abortRequest(RegID{}, &st);
    c.expect(st == ActionCallStatus::InvalidParam, "abort_invalid", "aborting an invalid id returned ", (int)st);
  }
  for (auto &f : fates) f.rq.reset();
  stub->template unregisterRequestHandler<echo_request>();
}

// waiters must be released when the service stops, whatever is going on
// ---- requests whose handler never runs since its executor refuses or drops the execution
struct FickleExec : maf::util::ExecutorIF {
  std::mutex m;
  std::vector<CallbackType> q;
  int mode;  // 0: refuses, 1: keeps them until it drops them, 2: runs some later and drops the others
  explicit FickleExec(int mode) : mode(mode) {}
  bool execute(CallbackType f) noexcept override {
    if (mode == 0) return false;
    std::lock_guard l(m);
    q.push_back(std::move(f));
    return true;
  }
  void turn(Rng &r) {
    std::vector<CallbackType> v;
    {
      std::lock_guard l(m);
      v.swap(q);
    }
    for (auto &f : v)
      if (mode == 2 && r.chance(50)) f();
  }
};
template <class PT>
void dropped(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  int mode = (int)c.rng.below(4);
  std::shared_ptr<FickleExec> fick;
  AsyncProcessor *ap = nullptr;
  ExecutorIFPtr ex;
  if (mode < 3) ex = fick = std::make_shared<FickleExec>(mode);
  else ex = (ap = &procs.add())->instance()->getExecutor();
  auto stub = env.stub(ex);
  std::atomic<uint64_t> handled{0};
  bool ok = stub->template registerRequestHandler<echo_request::input>([&](typename BasicStub<PT>::template Request<echo_request::input> rq) {
    handled++;
    auto in = rq.getInput();
    if (in) rq.respond(echo_request::make_output(in->get_serial(), kFinal, dataOf(in->get_serial())));
  });
  c.expect(ok, "handler_refused", "registering a request handler failed");
  auto direct = env.stub(maf::util::directExecutor());
  direct->template registerRequestHandler<ping_request>([](typename BasicStub<PT>::template Request<ping_request> rq) { rq.respond(); });
  stub->startServing();
  auto base = env.proxy(maf::util::directExecutor());
  env.waitAvailable(base);
  int nt = c.rng.range(1, 3), per = c.rng.range(2, c.thorough ? 30 : 12);
  struct T {
    std::atomic<int> n{0};
    std::atomic<bool> out{false};
  };
  std::vector<T> async((size_t)(nt * per));
  std::vector<char> isAsync((size_t)(nt * per));
  std::atomic<int> over{0}, ended{0}, answered{0};
  std::atomic<bool> done{false};
  auto judge = [&](auto &rs, uint64_t n, const char *how) {
    if (rs.isOutput()) {
      c.expect(rs.getOutput() && rs.getOutput()->get_serial() == n, "response_mixed", how, ": request ", n, " got another response");
      answered++;
    } else {
      c.expect(rs.isError() && rs.getError() && rs.getError()->code() == CSErrorCode::ResponseIgnored, "dropped_error", how,
               ": a request dropped by the executor must end with ResponseIgnored", rs.isError() && rs.getError() ? ", not: " + rs.getError()->description() : std::string());
      ended++;
    }
  };
  for (auto &x : isAsync) x = c.rng.chance(50);
  std::vector<std::thread> ths;
  for (int t = 0; t < nt; ++t)
    ths.emplace_back([&, t, r = c.rng.fork()]() mutable {
      for (int i = 0; i < per && !c.failed(); ++i) {
        auto k = (size_t)(t * per + i);
        ActionCallStatus st{};
        if (isAsync[k]) {
          base->template sendRequestAsync<echo_request::output>(
              echo_request::make_input(k, dataOf(k)),
              [&, k](ResponseT<echo_request::output> rs) {
                judge(rs, k, "async");
                ++async[k].n;
              },
              &st);
          c.expect(st == ActionCallStatus::Success, "send_failed", "sending failed: ", (int)st);
        } else {
          auto rs = base->template sendRequest<echo_request::output>(echo_request::make_input(k, dataOf(k)), &st);
          c.expect(st == ActionCallStatus::Success, "dropped_status", "a request answered by its destruction returned ", (int)st);
          if (st == ActionCallStatus::Success) judge(rs, k, "sync");
        }
        if (r.chance(30)) mon::jitter(r);
      }
      over++;
    });
  if (ap) {
    mon::napUs((int)c.rng.below(2000));
    ap->stopAndWait();
  }
  auto fin = [&] {
    if (fick) fick->turn(c.rng);
    if (over < nt) return false;
    for (size_t k = 0; k < isAsync.size(); ++k)
      if (isAsync[k] && !async[k].n) return false;
    return true;
  };
  bool all = mon::eventually(fin, 20000);
  c.expect(all, "never_released", "a request dropped by the executor of its handler was never answered (executor kind ", mode, ")");
  if (!all) mon::quit();
  for (auto &t : ths) t.join();
  env.fence(base);
  for (size_t k = 0; k < isAsync.size(); ++k) c.expect(async[k].n == isAsync[k], "response_count", "request ", k, " got ", async[k].n.load(), " responses");
  c.expect(answered == (int)handled, "response_count", handled.load(), " requests were handled, ", answered.load(), " got their output");
  if (mode < 2) c.expect(!handled, "handled", "a handler ran though its execution was dropped");
  c.observe("dropped_requests", (uint64_t)ended.load());
  if (ended) c.nontrivial();
  c.sign((uint64_t)ended * 1000003 + (uint64_t)answered * 31 + (uint64_t)mode);
  stub->stopServing();
  stub->template unregisterRequestHandler<echo_request>();
  stub->template unregisterRequestHandler<ping_request>();
  env.settle(base);
}


struct QuietObserver : ServiceStatusObserverIF {
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) noexcept override {}
};
// What callbacks own is destroyed by the library, and may then call back to it
template <class PT>
void owned(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto stub = env.stub(procs.add()->getExecutor());
  auto direct = env.stub(maf::util::directExecutor());
  auto proxy = env.proxy(c.rng.chance(50) ? ExecutorIFPtr(maf::util::directExecutor()) : procs.add()->getExecutor());
  auto base = env.proxy(maf::util::directExecutor());
  struct World {
    typename Env<PT>::Proxy proxy;
    typename Env<PT>::Stub stub;
    std::mutex m;
    std::vector<RegID> requests, registrations;
    std::vector<EchoReq<PT>> held;
    std::atomic<bool> closing{false};
    std::atomic<int64_t> alive{0};
    std::atomic<uint64_t> calls{0}, seed{0};
    RegID pick(std::vector<RegID> &v, Rng &r) {
      std::lock_guard l(m);
      return v.empty() ? RegID{} : v[r.below(v.size())];
    }
    void keep(std::vector<RegID> &v, RegID id, Rng &r) {
      std::lock_guard l(m);
      if (v.size() < 40) v.push_back(std::move(id));
      else v[r.below(v.size())] = std::move(id);
    }
    void act(Rng &r) {
      calls++;
      switch (r.below(12)) {
        case 0: proxy->abortRequest(pick(requests, r)); break;
        case 1: proxy->unregister(pick(registrations, r)); break;
        case 2: proxy->template sendRequestAsync<echo_request::output>(echo_request::make_input(r.below(100), dataOf(1)), [](ResponseT<echo_request::output>) {}); break;
        case 3: keep(registrations, proxy->template registerSignal<tick_attributes>([](const std::shared_ptr<tick_attributes> &) {}), r); break;
        case 4: keep(registrations, proxy->template registerStatus<level_status>([](const std::shared_ptr<level_status> &) {}), r); break;
        case 5: {
          auto o = std::make_shared<QuietObserver>();
          proxy->registerServiceStatusObserver(o);
          proxy->unregisterServiceStatusObserver(o);
          break;
        }
        case 6: stub->template unregisterRequestHandler<twin_request>(); break;
        case 7: stub->template registerRequestHandler<twin_request::input>([](typename BasicStub<PT>::template Request<twin_request::input>) {}); break;
        case 8: stub->template getStatus<level_status>(); break;
        case 9: stub->template registerNotification<other_status>([](const std::shared_ptr<other_status> &) {}).disconnect(); break;
        case 10: proxy->serviceStatus(); break;
        default: proxy->unregisterAll(PT::template getOperationID<tock_attributes>()); break;
      }
    }
  };
  World w;
  w.proxy = base;
  w.stub = direct;
  w.seed = c.rng.next();
  struct Owner {
    World &w;
    explicit Owner(World &w) : w(w) { w.alive++; }
    ~Owner() {
      Rng r(w.seed++);
      if (!w.closing)
        for (int k = r.range(1, 3); k; --k) w.act(r);
      w.alive--;
    }
  };
  auto owner = [&] { return std::make_shared<Owner>(w); };
  struct OwningObserver : ServiceStatusObserverIF {
    std::shared_ptr<Owner> o;
    explicit OwningObserver(std::shared_ptr<Owner> o) : o(std::move(o)) {}
    void onServiceStatusChanged(const ServiceID &, Availability, Availability) noexcept override {}
  };
  auto onEcho = [&w](EchoReq<PT> rq) {
    auto n = rq.getInput()->get_serial();
    switch (n % 4) {
      case 0: rq.respond(echo_request::make_output(n, kFinal, dataOf(n))); break;
      case 1: break;  // dropped
      default: {
        std::lock_guard l(w.m);
        if (w.held.size() < 64) w.held.push_back(std::move(rq));
      }
    }
  };
  stub->template registerRequestHandler<echo_request::input>([onEcho, o = owner()](EchoReq<PT> rq) { onEcho(std::move(rq)); });
  direct->template registerRequestHandler<ping_request>([](typename BasicStub<PT>::template Request<ping_request> rq) { rq.respond(); });
  direct->template setStatus<level_status>(0, uint64_t{1}, dataOf(1));
  int rounds = c.thorough ? 6 : 3, nt = c.rng.range(1, 3);
  std::atomic<uint64_t> made{0};
  for (int round = 0; round < rounds && !c.failed(); ++round) {
    stub->startServing();
    env.waitAvailable(base);
    std::vector<std::thread> ths;
    for (int t = 0; t < nt; ++t)
      ths.emplace_back([&, r = c.rng.fork()]() mutable {
        std::vector<std::shared_ptr<ServiceStatusObserverIF>> obs;
        for (int i = 0; i < (c.thorough ? 80 : 40); ++i) {
          made++;
          switch (r.below(12)) {
            case 0: case 1: case 2: {
              auto o = owner();
              w.keep(w.requests, proxy->template sendRequestAsync<echo_request::output>(echo_request::make_input(r.below(1000), dataOf(2)),
                     [o = std::move(o)](ResponseT<echo_request::output>) {}), r);
              break;
            }
            case 3: base->abortRequest(w.pick(w.requests, r)); break;
            case 4: {
              auto o = owner();
              w.keep(w.registrations, r.chance(50) ? proxy->template registerSignal<tick_attributes>([o](const std::shared_ptr<tick_attributes> &) {})
                                                   : proxy->template registerSignal<tock_attributes>([o](const std::shared_ptr<tock_attributes> &) {}), r);
              break;
            }
            case 5: {
              auto o = owner();
              w.keep(w.registrations, proxy->template registerStatus<level_status>([o](const std::shared_ptr<level_status> &) {}), r);
              break;
            }
            case 6: base->unregister(w.pick(w.registrations, r)); break;
            case 7: {
              auto ob = std::make_shared<OwningObserver>(owner());
              proxy->registerServiceStatusObserver(ob);
              obs.push_back(std::move(ob));
              break;
            }
            case 8:
              if (!obs.empty()) {
                auto &raw = obs[r.below(obs.size())];
                auto ob = std::move(raw);
                raw = std::move(obs.back());
                obs.pop_back();
                proxy->unregisterServiceStatusObserver(ob);
                // the library might own it last
              }
              break;
            case 9:
              if (stub->template registerRequestHandler<twin_request::input>([o = owner()](typename BasicStub<PT>::template Request<twin_request::input>) {}))
                c.observe("owning_handlers");
              break;
            case 10:
              stub->template unregisterRequestHandler<twin_request>();
              break;
            default: {
              std::vector<EchoReq<PT>> some;
              {
                std::lock_guard l(w.m);
                some.swap(w.held);
              }
              for (auto &q : some) {
                if (r.chance(50)) q.onAborted([o = owner()] {});
                if (r.chance(50)) q.template respond<echo_request::output>(uint64_t{1}, kFinal, dataOf(3));
                else if (r.chance(50)) {
                  std::lock_guard l(w.m);
                  if (w.held.size() < 64) w.held.push_back(std::move(q));
                }
              }
            }
          }
          if (r.chance(20)) mon::jitter(r);
        }
        for (auto &o : obs) proxy->unregisterServiceStatusObserver(o);
      });
    bool amid = c.rng.chance(50);
    if (amid) {
      mon::napUs((int)c.rng.below(4000));
      stub->stopServing();
    }
    for (auto &t : ths) t.join();
    if (!amid) stub->stopServing();
    env.settle(base);
  }
  // everything is given up
  w.closing = true;
  stub->template unregisterRequestHandler<twin_request>();
  stub->template unregisterRequestHandler<echo_request>();
  {
    std::vector<EchoReq<PT>> some;
    {
      std::lock_guard l(w.m);
      some.swap(w.held);
    }
  }
  stub->startServing();
  env.waitAvailable(base);
  env.fence(base);
  direct->template unregisterRequestHandler<ping_request>();
  stub->stopServing();
  env.settle(base);
  procs.flush();
  bool gone = mon::eventually([&] { return w.alive == 0; }, 10000);
  c.expect(gone, "leaked", w.alive.load(), " objects owned by callbacks were never destroyed");
  if (!gone) mon::quit();
  c.observe("owned_objects", made.load());
  c.observe("calls_from_destructors", w.calls.load());
  c.nontrivial();
  c.sign(w.calls * 31 + made);
}

template <class PT>
void outage(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto &srvProc = procs.add();
  auto stub = env.stub(srvProc->getExecutor());
  auto proxy = env.proxy(maf::util::directExecutor());
  std::mutex m;
  std::vector<EchoReq<PT>> held;
  std::atomic<int> aborts{0};
  stub->template registerRequestHandler<echo_request::input>([&](EchoReq<PT> r) {
    auto s = r.getInput()->get_serial();
    r.onAborted([&] { aborts++; });
    if (s & 1) {
      r.template respond<echo_request::output>(s, kFinal, dataOf(s));
    } else {
      std::lock_guard l(m);
      held.push_back(std::move(r));
    }
  });
  int rounds = c.thorough ? 12 : 5, waiters = c.rng.range(1, 4);
  for (int k = 0; k < rounds && !c.failed(); ++k) {
    stub->startServing();
    c.expect(serviceStatusSignal(proxy)->waitIfNot(Availability::Available, 5000).isReady(), "not_available", "the started service is not available");
    std::atomic<int> inside{0}, released{0}, lateAsync{0};
    std::atomic<bool> stopped{false};
    std::vector<std::thread> ths;
    for (int w = 0; w < waiters; ++w)
      ths.emplace_back([&, w, r = c.rng.fork()]() mutable {
        for (int j = 0; j < 200; ++j) {
          auto s = (uint64_t)j * 2 + (r.chance(80) ? 1 : 0);
          ActionCallStatus st = ActionCallStatus::FailedUnknown;
          bool wasStopped = stopped && !Env<PT>::ipc;  // the news of a stop travels
          inside++;
          auto rs = proxy->template sendRequest<echo_request::output>(echo_request::make_input(s, dataOf(s)), &st);
          c.log(7, w, (int)st);
          if (st == ActionCallStatus::Success) {
            c.expect(rs.isOutput() && rs.getOutput() && rs.getOutput()->get_serial() == s, "response_mixed", "wrong response");
            c.expect(s & 1, "response_invented", "an unanswered request got a response");
            c.expect(!wasStopped, "sent_to_stopped", "a request sent after the service stopped was served");
          } else {
            c.expect(rs.isError() && rs.getError(), "no_error", "a broken request returned no error");
            c.expect(st == ActionCallStatus::ActionBroken || st == ActionCallStatus::ServiceUnavailable || st == ActionCallStatus::ReceiverUnavailable,
                     "broken_status", "a request broken by an outage returned ", (int)st);
            c.observe("broken_requests");
            released++;
            break;
          }
        }
        released++;
      });
    mon::napUs((int)c.rng.below(3000));
    stub->stopServing();
    stopped = true;
    auto t0 = sclk::now();
    for (auto &t : ths) t.join();  // a stuck waiter is found by the watchdog
    c.observe("outages");
    c.expect(sclk::now() - t0 < ms{15000}, "slow_release", "waiters were released late");
    // late answers are harmless
    srvProc->waitableExecute(Execution{[] {}}).wait();
    std::vector<EchoReq<PT>> late;
    {
      std::lock_guard l(m);
      late.swap(held);
    }
    for (auto &rq : late) {
      rq.template respond<echo_request::output>(uint64_t{1}, kFinal, std::string("late"));
      c.observe("late_answers");
    }
  }
  c.expect(aborts == 0, "abort_cb_invented", "an abort callback was called for a request which was not aborted");
  c.nontrivial();
  c.sign();
  procs.stop();
  stub->template unregisterRequestHandler<echo_request>();
}


// ---------------------------------------------------------------- P17
constexpr uint64_t kRemoved = ~0ull;
inline uint64_t keyOf(int writer, uint64_t seq) { return (uint64_t)writer << 32 | seq; }
inline std::string keyText(uint64_t k) { return k == kRemoved ? "removed" : std::to_string(k >> 32) + ":" + std::to_string(k & 0xffffffff); }

// what one subscription was told
struct Seen {
  std::mutex m;
  std::vector<uint64_t> v;
  std::atomic<uint64_t> n{0};
  std::atomic<bool> closed{false};
  uint64_t closedAt = 0;
  void add(uint64_t k) {
    std::lock_guard l(m);
    v.push_back(k);
    n++;
  }
  std::vector<uint64_t> get() {
    std::lock_guard l(m);
    return v;
  }
  uint64_t last(uint64_t none) {
    std::lock_guard l(m);
    return v.empty() ? none : v.back();
  }
};
using SeenPtr = std::shared_ptr<Seen>;

template <class Status>
uint64_t checkStatus(Ctx &c, const std::shared_ptr<Status> &s, int wlo, int whi, const char *where) {
  if (!s) return kRemoved;
  auto w = s->get_writer();
  c.expect(w >= wlo && w <= whi, "foreign_value", where, ": got a value of another property, writer ", w);
  c.expect(s->get_data() == dataOf(s->get_seq(), w), "value_changed", where, ": contents of value ", keyText(keyOf(w, s->get_seq())), " changed");
  return keyOf(w, s->get_seq());
}

// is `seen` a contiguous part of `all` where every value may be told repeatedly? returns the possible end positions
inline std::set<size_t> matchSegment(const std::vector<uint64_t> &all, const std::vector<uint64_t> &seen, size_t *badAt) {
  std::set<size_t> pos;
  for (size_t i = 0; i < seen.size(); ++i) {
    std::set<size_t> nx;
    if (i == 0) {
      for (size_t p = 0; p < all.size(); ++p)
        if (all[p] == seen[0]) nx.insert(p);
    } else {
      for (auto p : pos) {
        if (all[p] == seen[i]) nx.insert(p);
        if (p + 1 < all.size() && all[p + 1] == seen[i]) nx.insert(p + 1);
      }
    }
    if (nx.empty()) {
      *badAt = i;
      return {};
    }
    pos.swap(nx);
  }
  return pos;
}
inline std::string around(const std::vector<uint64_t> &v, size_t i) {
  std::string r;
  for (size_t k = i > 3 ? i - 3 : 0; k < v.size() && k < i + 3; ++k) r += (k == i ? " >" : " ") + keyText(v[k]);
  return r;
}

template <class PT>
struct Watcher {  // one subscription of `level`
  std::shared_ptr<BasicProxy<PT>> proxy;
  RegID id;
  SeenPtr seen = std::make_shared<Seen>();
  template <class Status>
  void open(Ctx &c, std::shared_ptr<BasicProxy<PT>> p, int wlo, int whi) {
    proxy = std::move(p);
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    id = proxy->template registerStatus<Status>(
        [&c, s = seen, wlo, whi](const std::shared_ptr<Status> &v) {
          auto k = checkStatus(c, v, wlo, whi, "notification");
          c.log(10, (int64_t)k);
          s->add(k);
        },
        &st);
    c.expect(st == ActionCallStatus::Success && id.valid(), "register_failed", "registering for a property failed: ", (int)st);
  }
  void close(Ctx &c) {
    if (!id.valid()) return;
    auto st = proxy->unregister(id);
    c.expect(st == ActionCallStatus::Success, "unregister_failed", "unregistering failed: ", (int)st);
    id.clear();
  }
};

template <class PT>
void properties(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto stub = env.stub(maf::util::directExecutor());
  stub->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
  auto base = env.proxy(maf::util::directExecutor());
  stub->startServing();
  env.waitAvailable(base);
  std::vector<typename Env<PT>::Proxy> proxies{base};
  int np = c.rng.range(1, 2);
  for (int i = 0; i < np; ++i) proxies.push_back(base->with(procs.add()->getExecutor()));

  const bool single = c.rng.chance(55);
  const int writers = single ? 1 : c.rng.range(2, 3);
  std::vector<std::atomic<uint64_t>> started(4), done(4);
  std::vector<uint64_t> all;  // single writer: the sequence of values
  // Without a single writer the sequence is taken from the first subscriber, who sees everything.
  std::vector<std::unique_ptr<Watcher<PT>>> stay;
  auto addStay = [&] {
    auto w = std::make_unique<Watcher<PT>>();
    w->template open<level_status>(c, proxies[c.rng.below(stay.empty() ? 1 : proxies.size())], 1, 3);
    stay.push_back(std::move(w));
  };
  auto otherSeen = std::make_shared<Watcher<PT>>();
  uint64_t otherSeq = 0;
  bool withOther = c.rng.chance(60);
  // what the provider side listeners see
  auto local = std::make_shared<Seen>();
  signal_slots::ScopedConnection localConn;
  bool withLocal = c.rng.chance(40);
  if (withLocal)
    localConn = stub->template registerNotification<level_status>([&c, local](const std::shared_ptr<level_status> &v) { local->add(checkStatus(c, v, 1, 3, "provider side")); });
  if (c.rng.chance(40)) {  // a value from before the first subscription
    auto q = ++started[1];
    c.expect(stub->template setStatus<level_status>(1, q, dataOf(q, 1)) != ActionCallStatus::FailedUnknown, "set_failed", "setting a value without subscribers failed");
    all.push_back(keyOf(1, q));
    done[1]++;
  }
  addStay();
  if (c.rng.chance(50)) addStay();
  env.fence(base);
  if (withOther) otherSeen->template open<other_status>(c, base, 11, 13);

  int phases = c.thorough ? 5 : 2, per = c.thorough ? 60 : 25;
  auto settle = [&](const char *what) {
    if (c.failed()) return;
    auto cur = stub->template getStatus<level_status>();
    uint64_t k = cur ? keyOf(cur->get_writer(), cur->get_seq()) : kRemoved;
    if (single && !all.empty()) c.expect(k == all.back(), "provider_value", "the provider's value is ", keyText(k), ", last set was ", keyText(all.back()));
    for (size_t i = 0; i < stay.size(); ++i) {
      auto &s = stay[i]->seen;
      bool ok = mon::eventually([&] { return s->last(kRemoved) == k; });
      c.expect(ok, "not_converged", what, ": subscriber ", i, " was last told ", keyText(s->last(kRemoved)), ", the value is ", keyText(k));
    }
  };
  for (int ph = 0; ph < phases && !c.failed(); ++ph) {
    std::atomic<int> running{writers};
    std::vector<std::thread> ths;
    mon::Gate gate;
    for (int w = 1; w <= writers; ++w)
      ths.emplace_back([&, w, r = c.rng.fork()]() mutable {
        gate.wait();
        for (int i = 0; i < per && !c.failed(); ++i) {
          if (single && r.chance(6)) {
            stub->template removeProperty<level_status>(true);
            all.push_back(kRemoved);
            c.observe("removals");
          } else {
            auto q = ++started[(size_t)w];
            if (single) all.push_back(keyOf(w, q));
            auto st = stub->template setStatus<level_status>(w, q, dataOf(q, w));
            c.log(11, w, (int64_t)q);
            c.expect(st == ActionCallStatus::Success, "set_failed", "setting a new value with subscribers returned ", (int)st);
            done[(size_t)w]++;
            if (single && r.chance(15)) {
              st = stub->template setStatus<level_status>(w, q, dataOf(q, w));
              c.expect(st == ActionCallStatus::NoAction, "unchanged_set", "setting the same value again returned ", (int)st);
              c.observe("unchanged_sets");
            }
          }
          if (withOther && w == 1 && r.chance(30)) {
            auto q = ++otherSeq;
            stub->template setStatus<other_status>(11, q, dataOf(q, 11));
          }
          if (r.chance(30)) mon::jitter(r);
        }
        running--;
      });
    std::vector<std::vector<std::unique_ptr<Watcher<PT>>>> churned(2);
    for (int t = 0; t < 2; ++t)
      ths.emplace_back([&, t, r = c.rng.fork()]() mutable {
        gate.wait();
        std::vector<std::unique_ptr<Watcher<PT>>> mine;
        while (running > 0 && !c.failed()) {
          auto w = std::make_unique<Watcher<PT>>();
          w->template open<level_status>(c, proxies[r.below(proxies.size())], 1, 3);
          mine.push_back(std::move(w));
          if (r.chance(50)) mon::jitter(r);
          else mon::napUs((int)r.below(300));
          while (!mine.empty() && r.chance(60)) {
            auto k = r.below(mine.size());
            mine[k]->close(c);
            c.observe("churned");
            churned[(size_t)t].push_back(std::move(mine[k]));
            mine.erase(mine.begin() + (long)k);
          }
          if (churned[(size_t)t].size() > 60) break;
        }
        for (auto &w : mine) {
          w->close(c);
          churned[(size_t)t].push_back(std::move(w));
        }
      });
    ths.emplace_back([&, r = c.rng.fork()]() mutable {
      gate.wait();
      while (running > 0 && !c.failed()) {
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        auto check = [&](const std::shared_ptr<level_status> &v, const char *how) {
          auto k = checkStatus(c, v, 1, 3, how);
          if (k != kRemoved) c.expect((k & 0xffffffff) <= started[k >> 32], "value_invented", how, " returned a value nobody set");
          c.observe("polled");
        };
        if (r.chance(50)) {
          check(base->template getStatus<level_status>(&st), "getStatus");
          c.expect(st == ActionCallStatus::Success, "get_failed", "getStatus failed: ", (int)st);
        } else {
          std::atomic<bool> got{false};
          base->template getStatus<level_status>([&](const std::shared_ptr<level_status> &v) {
            check(v, "async getStatus");
            got = true;
          });
          if (!mon::eventually([&] { return got.load(); })) {
            c.fail("get_lost", "an asynchronous getStatus was never answered");
            mon::quit();
          }
        }
        mon::napUs((int)r.below(200));
      }
    });
    gate.release();
    for (auto &t : ths) t.join();
    settle("after the last change");
    if (c.failed()) break;
    env.fence(base);
    procs.flush();
    std::vector<uint64_t> ref = all;
    if (!single) {
      ref.clear();
      for (auto k : stay[0]->seen->get())
        if (ref.empty() || ref.back() != k) ref.push_back(k);
      // everything that was set, in the order of every writer
      std::vector<uint64_t> nextOf(4, 0);
      for (auto k : ref) {
        if (k == kRemoved) continue;
        auto &n = nextOf[k >> 32];
        c.expect((k & 0xffffffff) == n + 1 || (n == 0), "value_lost", "a subscriber of all values was told ", keyText(k), " after ", n);
        n = k & 0xffffffff;
      }
      for (int w = 1; w <= writers; ++w)
        c.expect(nextOf[(size_t)w] == done[(size_t)w], "value_lost", "the last value of writer ", w, " was never told to a subscriber");
    }
    auto checkSegment = [&](const SeenPtr &s, const char *who, bool live) {
      auto v = s->get();
      size_t bad = 0;
      if (v.empty()) {
        c.expect(!live || ref.empty() || ref.back() == kRemoved, "not_told", who, " was told nothing");
        return;
      }
      auto ends = matchSegment(ref, v, &bad);
      if (ends.empty()) {
        size_t at = 0;
        for (size_t p = 0; p < ref.size(); ++p)
          if (ref[p] == v[bad]) at = p;
        c.fail("wrong_order", std::string(who) + " was told values out of order or missed some:" + around(v, bad) + ", values in order:" + around(ref, at));
      }
      if (!ends.empty() && live) c.expect(ends.count(ref.size() - 1), "not_converged", who, " does not end with the current value");
      c.observe("segments");
    };
    for (auto &w : stay) checkSegment(w->seen, "a staying subscriber", true);
    for (auto &v : churned)
      for (auto &w : v) checkSegment(w->seen, "a subscriber", false);
    if (withLocal) checkSegment(local, "a provider side listener", true);
    if (withOther && otherSeq) {
      bool ok = mon::eventually([&] { return otherSeen->seen->last(0) == keyOf(11, otherSeq); });
      c.expect(ok, "not_converged", "subscriber of another property was last told ", keyText(otherSeen->seen->last(0)), " instead of ", otherSeq);
      auto v = otherSeen->seen->get();
      for (size_t i = 1; i < v.size(); ++i) c.expect(v[i] == v[i - 1] || v[i] == v[i - 1] + 1, "wrong_order", "values of another property out of order");
    }
    if (c.failed()) break;

    // nobody writes now: everybody must see exactly the current value
    auto cur = stub->template getStatus<level_status>();
    uint64_t k = cur ? keyOf(cur->get_writer(), cur->get_seq()) : kRemoved;
    {
      ActionCallStatus st{};
      auto got = checkStatus(c, base->template getStatus<level_status>(&st), 1, 3, "getStatus");
      c.expect(got == k && st == ActionCallStatus::Success, "stale_get", "getStatus with a subscription returned ", keyText(got), " instead of ", keyText(k));
      std::atomic<uint64_t> ag{0};
      base->template getStatus<level_status>([&](const std::shared_ptr<level_status> &v) { ag = checkStatus(c, v, 1, 3, "async getStatus"); });
      c.expect(mon::eventually([&] { return ag.load() == k; }, 5000), "stale_get", "asynchronous getStatus returned ", keyText(ag), " instead of ", keyText(k));
      auto o = base->template getStatus<other_status>(&st);
      auto ok = checkStatus(c, o, 11, 13, "getStatus");
      c.expect(st == ActionCallStatus::Success && ok == (otherSeq ? keyOf(11, otherSeq) : kRemoved), "stale_get", "getStatus of another property returned ", keyText(ok),
               " status ", (int)st);
    }
    addStay();
    auto &fresh = stay.back()->seen;
    env.fence(base);
    if (k != kRemoved) {
      c.expect(mon::eventually([&] { return fresh->n >= 1; }), "not_told", "a new subscriber was not told the current value");
      auto v = fresh->get();
      if (!v.empty()) c.expect(v[0] == k, "wrong_initial", "a new subscriber was told ", keyText(v[0]), " instead of the current ", keyText(k));
    }
    // one leaves, the others go on
    if (stay.size() > 2) {
      auto gone = std::move(stay[1]);
      stay.erase(stay.begin() + 1);
      gone->close(c);
      procs.flush();
      auto before = gone->seen->n.load();
      auto q = ++started[1];
      all.push_back(keyOf(1, q));
      c.expect(stub->template setStatus<level_status>(1, q, dataOf(q, 1)) == ActionCallStatus::Success, "set_failed", "setting a value failed");
      done[1]++;
      settle("after one subscriber left");
      env.fence(base);
      procs.flush();
      c.expect(gone->seen->n == before, "told_after_unregister", "a value was told after unregistering");
      c.observe("leavers");
    }
  }
  // callbacks may call back
  if (!c.failed() && c.rng.chance(60)) {
    auto extra = std::make_shared<Watcher<PT>>();
    std::atomic<int> calls{0}, late{0};
    std::atomic<bool> armed{false}, changed{false};
    std::atomic<uint64_t> got{0}, provided{0};
    RegID nosy;
    signal_slots::ScopedConnection conn;
    std::shared_ptr<Seen> nested = std::make_shared<Seen>();
    signal_slots::ScopedConnection nestedConn;
    nosy = base->template registerStatus<level_status>([&](const std::shared_ptr<level_status> &v) {
      calls++;
      if (changed) late++;
      if (!armed) return;
      armed = false;
      base->unregister(nosy);
      extra->template open<level_status>(c, proxies[0], 1, 3);
      got = checkStatus(c, base->template getStatus<level_status>(), 1, 3, "nested getStatus");
    });
    conn = stub->template registerNotification<level_status>([&](const std::shared_ptr<level_status> &) {
      if (provided) return;
      provided = checkStatus(c, stub->template getStatus<level_status>(), 1, 3, "nested provider status");
      nestedConn = stub->template registerNotification<other_status>([nested](const std::shared_ptr<other_status> &v) { nested->add(v ? v->get_seq() : kRemoved); });
      stub->template setStatus<other_status>(11, ++otherSeq, dataOf(otherSeq, 11));
    });
    env.fence(base);
    armed = true;
    auto set = [&] {
      auto q = ++started[1];
      stub->template setStatus<level_status>(1, q, dataOf(q, 1));
      done[1]++;
      all.push_back(keyOf(1, q));
      settle("with callbacks which call back");
      env.fence(base);
      procs.flush();
    };
    set();
    auto k = all.back();
    c.expect(!armed && got == k, "nested_get", "getStatus in a callback returned ", keyText(got), " instead of ", keyText(k));
    c.expect(provided == k, "nested_get", "the provider's value in a listener is ", keyText(provided), " instead of ", keyText(k));
    c.expect(nested->last(0) == otherSeq, "nested_set", "a property set in a listener was not told");
    c.expect(mon::eventually([&] { return extra->seen->last(0) == k; }), "nested_register", "who registered in a callback was told ", keyText(extra->seen->last(0)), " instead of ", keyText(k));
    changed = true;
    set();
    c.expect(late == 0, "told_after_unregister", "a callback which unregistered itself was called again");
    c.expect(mon::eventually([&] { return extra->seen->last(0) == all.back(); }), "nested_register", "who registered in a callback missed a value");
    extra->close(c);
    conn = {};
    nestedConn = {};
    c.observe("nested");
  }
  // an outage ends subscriptions, but afterwards nothing old is told
  if (!c.failed()) {
    stub->stopServing();
    c.expect(mon::eventually([&] { return base->serviceStatus() == Availability::Unavailable; }), "stop_unnoticed", "the client did not notice the stopped service");
    auto q = ++started[1];
    stub->template setStatus<level_status>(1, q, dataOf(q, 1));
    done[1]++;
    auto k = keyOf(1, q);
    ActionCallStatus st{};
    {
      Watcher<PT> w;
      w.proxy = base;
      w.id = base->template registerStatus<level_status>([&](auto) {}, &st);
      c.expect(!w.id.valid() && st == ActionCallStatus::ServiceUnavailable, "register_stopped", "registering at a stopped service returned ", (int)st);
    }
    stub->startServing();
    c.expect(mon::eventually([&] { return base->serviceStatus() == Availability::Available; }), "start_unnoticed", "the client did not notice the started service");
    for (int i = 0; i < 2; ++i) {
      std::vector<std::unique_ptr<Watcher<PT>>> ws;
      auto got = checkStatus(c, base->template getStatus<level_status>(&st), 1, 3, "getStatus");
      c.expect(got == k, "stale_get", "getStatus after an outage returned ", keyText(got), " instead of ", keyText(k), ", subscriptions ", i);
      for (int j = 0; j < 2; ++j) {
        ws.push_back(std::make_unique<Watcher<PT>>());
        ws.back()->template open<level_status>(c, proxies[c.rng.below(proxies.size())], 1, 3);
        if (c.rng.chance(50)) {  // the value is not there yet
          if (c.rng.chance(50)) {
            got = checkStatus(c, base->template getStatus<level_status>(&st), 1, 3, "getStatus");
          } else {
            std::atomic<uint64_t> ag{0};
            base->template getStatus<level_status>([&](const std::shared_ptr<level_status> &v) { ag = checkStatus(c, v, 1, 3, "async getStatus"); });
            if (!mon::eventually([&] { return ag != 0; })) {
              c.fail("get_lost", "an asynchronous getStatus was never answered");
              mon::quit();
            }
            got = ag;
          }
          c.expect(got == k, "stale_get", "getStatus right after registering returned ", keyText(got), " instead of ", keyText(k));
        }
      }
      for (auto &w : ws) {
        bool ok = mon::eventually([&] { return w->seen->n >= 1; });
        auto v = w->seen->get();
        c.expect(ok && v[0] == k, "stale_initial", "a subscriber after an outage was told ", v.empty() ? "nothing" : keyText(v[0]), " instead of ", keyText(k));
      }
      if (i == 0 && c.rng.chance(50)) {
        base->unregisterAll(level_status::operationID());
        env.fence(base);
        procs.flush();
        auto n0 = ws[0]->seen->n.load(), n1 = ws[1]->seen->n.load();
        q = ++started[1];
        k = keyOf(1, q);
        stub->template setStatus<level_status>(1, q, dataOf(q, 1));
        env.fence(base);
        procs.flush();
        c.expect(ws[0]->seen->n == n0 && ws[1]->seen->n == n1, "told_after_unregister", "a value was told after unregistering all");
      } else {
        for (auto &w : ws) w->close(c);
      }
    }
    c.observe("outages");
  }
  if (c.failed()) mon::quit();
  c.observe("values", started[1] + started[2] + started[3]);
  c.nontrivial();
  c.sign();
  stub->stopServing();
  stub->template unregisterRequestHandler<ping_request>();
  localConn = {};
  env.settle(base);
  procs.stop();
}

// ---------------------------------------------------------------- P18
template <class PT>
void broadcasts(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto stub = env.stub(maf::util::directExecutor());
  stub->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
  auto base = env.proxy(maf::util::directExecutor());
  stub->startServing();
  env.waitAvailable(base);
  std::vector<typename Env<PT>::Proxy> proxies{base, env.proxy(procs.add()->getExecutor())};
  if (c.rng.chance(50)) proxies.push_back(base->with(procs.add()->getExecutor()));
  const int casters = c.rng.range(1, 3);
  struct Counters {
    std::atomic<uint64_t> started{0}, done{0};
  };
  std::vector<Counters> tick((size_t)casters), tock((size_t)casters);
  Counters none;
  struct Sub {
    int kind = 0;  // 0 tick, 1 tock, 2 nothing
    std::shared_ptr<BasicProxy<PT>> proxy;
    RegID id;
    std::mutex m;
    std::vector<std::vector<uint64_t>> got;  // by caster
    std::atomic<uint64_t> count{0};
    std::vector<uint64_t> mustFrom, mayFrom, mustTo, mayTo;
  };
  using SubPtr = std::shared_ptr<Sub>;
  auto countersOf = [&](int kind, int w) -> Counters & { return kind == 0 ? tick[(size_t)w] : kind == 1 ? tock[(size_t)w] : none; };
  auto snapshot = [&](const Sub &s, bool started) {
    std::vector<uint64_t> v;
    for (int w = 0; w < (s.kind == 2 ? 1 : casters); ++w) {
      auto &k = countersOf(s.kind, w);
      v.push_back(started ? k.started.load() : k.done.load());
    }
    return v;
  };
  auto take = [&c, casters](const SubPtr &s, auto &v, int kind) {
    if (!v) {
      c.fail("signal_empty", "a signal arrived without its attributes");
      return;
    }
    int w = v->get_writer() - kind * 10;
    if (w < 0 || w >= casters) {
      c.fail("foreign_signal", "a callback got a signal it is not registered for");
      return;
    }
    c.expect(v->get_data() == dataOf(v->get_seq(), v->get_writer()), "signal_changed", "contents of a signal changed");
    c.log(12, w, (int64_t)v->get_seq());
    std::lock_guard l(s->m);
    s->got[(size_t)w].push_back(v->get_seq());
    s->count++;
  };
  auto open = [&](mon::Rng &r, int kind, const std::shared_ptr<BasicProxy<PT>> &fenceProxy) {
    auto s = std::make_shared<Sub>();
    s->kind = kind;
    s->proxy = proxies[r.below(proxies.size())];
    s->got.resize((size_t)casters);
    s->mayFrom = snapshot(*s, false);
    env.fence(fenceProxy);  // nothing of these is still under way
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    switch (s->kind) {
      case 0: s->id = s->proxy->template registerSignal<tick_attributes>([s, take](const std::shared_ptr<tick_attributes> &v) { take(s, v, 0); }, &st); break;
      case 1: s->id = s->proxy->template registerSignal<tock_attributes>([s, take](const std::shared_ptr<tock_attributes> &v) { take(s, v, 1); }, &st); break;
      default: s->id = s->proxy->template registerSignal<nothing_signal>([s, &c] { c.log(13), s->count++; }, &st);
    }
    c.expect(st == ActionCallStatus::Success && s->id.valid(), "register_failed", "registering for a signal failed: ", (int)st);
    env.fence(fenceProxy);
    s->mustFrom = snapshot(*s, true);
    return s;
  };
  auto close = [&](const SubPtr &s) {
    s->mustTo = snapshot(*s, false);
    // what was completely sent while registered must arrive
    bool ok = mon::eventually([&] {
      if (s->kind == 2) return s->mustTo[0] <= s->mustFrom[0] || s->count >= s->mustTo[0] - s->mustFrom[0];
      std::lock_guard l(s->m);
      for (size_t w = 0; w < s->got.size(); ++w)
        if (s->mustTo[w] > s->mustFrom[w] && (s->got[w].empty() || s->got[w].back() < s->mustTo[w])) return false;
      return true;
    });
    c.expect(ok, "signal_lost", "a callback did not get all signals broadcast while it was registered");
    auto st = s->proxy->unregister(s->id);
    c.expect(st == ActionCallStatus::Success, "unregister_failed", "unregistering failed: ", (int)st);
    s->mayTo = snapshot(*s, true);
  };
  auto verify = [&](const SubPtr &s) {
    if (s->kind == 2) {
      auto lo = s->mustTo[0] > s->mustFrom[0] ? s->mustTo[0] - s->mustFrom[0] : 0, hi = s->mayTo[0] - s->mayFrom[0];
      c.expect(s->count >= lo && s->count <= hi, "signal_count", "an empty signal arrived ", s->count.load(), " times instead of ", lo, "..", hi);
      c.observe("empty_signals", s->count);
      return;
    }
    std::lock_guard l(s->m);
    for (size_t w = 0; w < s->got.size(); ++w) {
      auto &g = s->got[w];
      uint64_t next = s->mustFrom[w] + 1;
      for (size_t i = 0; i < g.size(); ++i) {
        c.expect(i == 0 || g[i] == g[i - 1] + 1, "signal_order", "signal ", g[i], " arrived after ", i ? g[i - 1] : 0);
        c.expect(g[i] > s->mayFrom[w] && g[i] <= s->mayTo[w], "signal_uninvited", "signal ", g[i], " arrived at a callback registered for ", s->mayFrom[w] + 1, "..", s->mayTo[w]);
      }
      if (s->mustTo[w] >= next) {
        c.expect(!g.empty() && g.front() <= next && g.back() >= s->mustTo[w], "signal_lost", "callback registered for ", next, "..", s->mustTo[w], " got ",
                 g.empty() ? 0 : g.front(), "..", g.empty() ? 0 : g.back());
        c.observe("must_signals", s->mustTo[w] - next + 1);
      }
      c.observe("signals", g.size());
    }
  };
  // the provider's own listeners
  std::atomic<uint64_t> localNone{0}, localTick{0};
  signal_slots::ScopedConnection lc1, lc2;
  bool withLocal = c.rng.chance(50);
  if (withLocal) {
    lc1 = stub->template registerNotification<nothing_signal>([&] { localNone++; });
    lc2 = stub->template registerNotification<tick_attributes>([&](const std::shared_ptr<tick_attributes> &v) { if (v) localTick++; });
  }
  int per = c.thorough ? 150 : 60;
  std::vector<SubPtr> stay;
  for (int i = 0; i < 3; ++i) stay.push_back(open(c.rng, i, base));
  std::vector<std::thread> ths;
  std::atomic<int> running{casters};
  mon::Gate gate;
  for (int w = 0; w < casters; ++w)
    ths.emplace_back([&, w, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int i = 0; i < per && !c.failed(); ++i) {
        bool isTick = r.chance(60);
        auto &k = isTick ? tick[(size_t)w] : tock[(size_t)w];
        auto q = ++k.started;
        ActionCallStatus st;
        if (isTick) st = stub->template broadcastSignal<tick_attributes>(w, q, dataOf(q, w));
        else st = stub->template broadcastSignal<tock_attributes>(w + 10, q, dataOf(q, w + 10));
        k.done++;
        c.expect(st == ActionCallStatus::Success, "broadcast_status", "a broadcast with registered callbacks returned ", (int)st);
        if (w == 0 && r.chance(30)) {
          none.started++;
          st = stub->template broadcastSignal<nothing_signal>();
          none.done++;
          c.expect(st == ActionCallStatus::Success, "broadcast_status", "an empty broadcast with registered callbacks returned ", (int)st);
        }
        if (r.chance(30)) mon::jitter(r);
      }
      running--;
    });
  std::vector<std::vector<SubPtr>> ended(3);
  for (int t = 0; t < 3; ++t)
    ths.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      std::vector<SubPtr> mine;
      while ((running > 0 || !mine.empty()) && !c.failed() && ended[(size_t)t].size() < 100) {
        if (running > 0 && (mine.empty() || r.chance(50))) mine.push_back(open(r, (int)r.below(3), base));
        if (r.chance(40)) mon::jitter(r);
        if (!mine.empty() && (running == 0 || r.chance(60))) {
          auto k = r.below(mine.size());
          close(mine[k]);
          c.observe("churned");
          ended[(size_t)t].push_back(mine[k]);
          mine.erase(mine.begin() + (long)k);
        }
      }
      for (auto &s : mine) close(s), ended[(size_t)t].push_back(s);
    });
  gate.release();
  for (auto &t : ths) t.join();
  for (auto &s : stay) {
    close(s);
    for (size_t w = 0; w < s->mustTo.size() && !c.failed(); ++w) c.expect(s->mustFrom[w] == 0, "harness", "stayed from the beginning");
    ended[0].push_back(s);
  }
  if (c.failed()) mon::quit();
  env.fence(base);
  procs.flush();
  for (auto &v : ended)
    for (auto &s : v) verify(s);
  if (withLocal) {
    uint64_t ticks = 0;
    for (auto &t : tick) ticks += t.started;
    c.expect(localNone == none.started && localTick == ticks, "local_signals", "provider side listeners got ", localTick.load(), " and ", localNone.load(), " signals instead of ", ticks,
             " and ", none.started.load());
  }
  // nobody is registered any more
  std::vector<uint64_t> before;
  for (auto &v : ended)
    for (auto &s : v) before.push_back(s->count);
  tick[0].started++;
  stub->template broadcastSignal<tick_attributes>(0, tick[0].started.load(), dataOf(tick[0].started, 0));
  stub->template broadcastSignal<nothing_signal>();
  env.fence(base);
  procs.flush();
  size_t i = 0;
  for (auto &v : ended)
    for (auto &s : v) c.expect(s->count == before[i++], "signal_uninvited", "a signal arrived after unregistering");
  c.nontrivial();
  c.sign();
  stub->stopServing();
  stub->template unregisterRequestHandler<ping_request>();
  lc1 = {};
  lc2 = {};
  env.settle(base);
  procs.stop();
}


// ---------------------------------------------------------------- P19
// what one observer was told
struct Told {
  std::atomic<bool> foreign{false}, overlap{false};
  std::mutex m;
  std::vector<std::pair<Availability, Availability>> v;
  std::atomic<bool> gone{false};
  std::atomic<int> inCall{0};
  size_t goneAt = 0;
  int svc = 0;
  bool fromStart = false, dead = false;
  const char *how = "";
  void add(Availability o, Availability n) {
    std::lock_guard l(m);
    v.emplace_back(o, n);
  }
  std::vector<std::pair<Availability, Availability>> get() {
    std::lock_guard l(m);
    return v;
  }
  Availability last() {
    std::lock_guard l(m);
    return v.empty() ? Availability::Unavailable : v.back().second;
  }
};
using ToldPtr = std::shared_ptr<Told>;
inline void checkTold(Ctx &c, Told &t) {
  c.expect(!t.foreign, "foreign_status", "an observer was told about another service");
  c.expect(!t.overlap, "observer_overlap", "an observer was told two changes at once");
  for (auto &[o, n] : t.get()) c.log(20, (int64_t)o, (int64_t)n);
}

inline std::string toldText(const std::vector<std::pair<Availability, Availability>> &v) {
  std::string r;
  for (auto &[o, n] : v) r += " " + std::to_string((int)o) + ">" + std::to_string((int)n);
  return r;
}

struct DirectObserver : ServiceStatusObserverIF {
  ServiceID sid;
  ToldPtr told;
  std::function<void(Availability)> nested;
  // might still be called when its case is over
  DirectObserver(ServiceID s, ToldPtr t) : sid(std::move(s)), told(std::move(t)) {}
  void onServiceStatusChanged(const ServiceID &s, Availability o, Availability n) override {
    if (s != sid) told->foreign = true;
    if (told->inCall++ != 0) told->overlap = true;
    told->add(o, n);
    if (nested) nested(n);
    told->inCall--;
  }
};

template <class PT>
void statuses(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  struct Svc {
    ServiceID sid;
    typename Env<PT>::Stub stub;
    typename Env<PT>::Proxy base;
    std::atomic<int> changes{0};
    std::atomic<bool> up{false};
    bool chaos = false;  // started and stopped by several threads at once
    std::vector<ToldPtr> told;
    std::vector<std::shared_ptr<ServiceStatusObserverIF>> obs;
    std::mutex m;
  };
  const int ns = c.rng.range(1, 2);
  std::vector<std::unique_ptr<Svc>> svcs;
  std::vector<std::function<void()>> atEnd;
  for (int i = 0; i < ns; ++i) {
    svcs.push_back(std::make_unique<Svc>());
    auto &s = *svcs.back();
    s.sid = env.sid + "." + std::to_string(i);
    s.chaos = c.rng.chance(25);
  }
  auto mkStub = [&](Svc &s) {
    s.stub = env.stub(maf::util::directExecutor(), s.sid);
    s.stub->template registerRequestHandler<ping_request>([](auto r) { r.respond(); });
  };
  auto mkProxy = [&](Svc &s) {
    s.base = env.proxy(maf::util::directExecutor(), s.sid);
    c.expect(s.base && s.base->serviceStatus() != Availability::Available, "early_available", "a service which never started is available");
  };
  for (auto &s : svcs) {
    if (c.rng.chance(50)) mkStub(*s), mkProxy(*s);
    else mkProxy(*s), mkStub(*s);
  }
  std::vector<AsyncProcessor *> ps;
  for (int i = 0; i < 2; ++i) ps.push_back(&procs.add());
  // observer of a kind, on one service
  auto observe = [&](mon::Rng &r, int svc, bool fromStart) {
    auto &s = *svcs[(size_t)svc];
    auto t = std::make_shared<Told>();
    t->svc = svc;
    t->fromStart = fromStart;
    std::shared_ptr<ServiceStatusObserverIF> o;
    switch (r.below(fromStart ? 5 : 4)) {
      case 4: {  // posts messages to a processor
        t->how = "messages to a processor";
        auto &p = procs.add();
        p->connect<ServiceStatusMsg>([t, sid = s.sid](const ServiceStatusMsg &m) {
          if (m.serviceID != sid) t->foreign = true;
          t->add(m.oldStatus, m.newStatus);
        });
        o = asyncServiceStatusObserver(p.instance());
        s.base->registerServiceStatusObserver(o);
        c.observe("status_messages");
        break;
      }
      case 0: {  // callback with an executor
        t->how = "callback on a processor";
        auto p = s.base->with((*ps[r.below(ps.size())])->getExecutor());
        o = p->onServiceStatusChanged([t, &c](Availability a, Availability b) {
          c.log(21, (int64_t)a, (int64_t)b);
          t->add(a, b);
        });
        break;
      }
      case 1: {
        t->how = "direct callback";
        o = s.base->onServiceStatusChanged([t](Availability a, Availability b) { t->add(a, b); });
        break;
      }
      case 2: {  // given at creation of the proxy
        t->how = "observer of a new proxy";
        auto d = std::make_shared<DirectObserver>(s.sid, t);
        o = d;
        typename Env<PT>::Proxy p;
        if constexpr (Env<PT>::ipc) p = maf::localipc::createProxy(env.addr, s.sid, maf::util::directExecutor(), o);
        else p = maf::itc::createProxy(s.sid, maf::util::directExecutor(), o);
        break;
      }
      default: {  // calls back
        t->how = "observer which calls back";
        auto d = std::make_shared<DirectObserver>(s.sid, t);
        o = d;
        auto self = std::weak_ptr<DirectObserver>(d);
        auto kind = r.below(5);
        int other = (svc + 1) % ns;
        auto reg = s.base;
        d->nested = [self, kind, other, reg, &env, &svcs, &c](Availability n) {
          auto d = self.lock();
          switch (kind) {
            case 0: (void)reg->serviceStatus(); break;
            case 1: env.proxy(maf::util::directExecutor(), svcs[(size_t)other]->sid); break;
            case 2: {
              auto extra = std::make_shared<DirectObserver>(d->sid, std::make_shared<Told>());
              reg->registerServiceStatusObserver(extra);
              reg->unregisterServiceStatusObserver(extra);
              break;
            }
            case 3:
              if (n == Availability::Available) reg->template sendRequestAsync<ping_request>([](auto) {});
              break;
            default:
              if (n == Availability::Available) {
                auto id = reg->template registerStatus<level_status>([](auto) {});
                if (id.valid()) reg->unregister(id);
              }
          }
          c.observe("nested_calls");
        };
        s.base->registerServiceStatusObserver(o);
      }
    }
    {
      std::lock_guard l(s.m);
      s.told.push_back(t);
      s.obs.push_back(o);
    }
    return std::make_pair(t, o);
  };
  for (int i = 0; i < ns; ++i)
    for (int k = 0; k < 3; ++k) observe(c.rng, i, true);
  // one on a processor which ends meanwhile: must not harm the others
  auto dying = std::make_unique<AsyncProcessor>();
  dying->launch();
  if (c.rng.chance(50))
    for (auto &s : svcs) {
      auto p = s->base->with((*dying)->getExecutor());
      p->onServiceStatusChanged([](Availability, Availability) {});
    }
  for (auto &s : svcs)
    for (int k = 0; k < 2; ++k) {
      auto t = std::make_shared<Told>();
      t->fromStart = true;
      t->how = "callback which was registered after one that fails";
      s->obs.push_back(s->base->onServiceStatusChanged([t](Availability a, Availability b) { t->add(a, b); }));
      s->told.push_back(t);
    }
  // all changes up to now were received. At first: the client registers with
  // the server asynchronously, and only then it is told every change
  auto statusFence = [&, n = 0]() mutable {
    if constexpr (Env<PT>::ipc) {
      auto probe = env.sid + ".probe" + std::to_string(n++);
      auto ps = env.stub(maf::util::directExecutor(), probe);
      auto pp = env.proxy(maf::util::directExecutor(), probe);
      ps->startServing();
      env.waitAvailable(pp);
      ps->stopServing();
      env.settle(pp);
    }
  };
  statusFence();
  int rounds = c.thorough ? 30 : 14;
  std::atomic<int> running{ns};
  std::vector<std::thread> ths;
  mon::Gate gate;
  for (int i = 0; i < ns; ++i)
    ths.emplace_back([&, i, r = c.rng.fork()]() mutable {
      auto &s = *svcs[(size_t)i];
      gate.wait();
      if (s.chaos) {
        for (int k = 0; k < rounds && !c.failed(); ++k) {
          std::vector<std::thread> togglers;
          mon::Gate go;
          for (int t = 0; t < 3; ++t)
            togglers.emplace_back([&s, &go, t, r = r.fork()]() mutable {
              go.wait();
              for (int n = r.range(1, 3); n > 0; --n) {
                if (r.chance(30)) mon::jitter(r);
                (r.chance(20) ? r.chance(50) : t % 2 == 0) ? s.stub->startServing() : s.stub->stopServing();
              }
            });
          go.release();
          for (auto &t : togglers) t.join();
          auto want = s.stub->availability();
          s.up = want == Availability::Available;
          bool ok = mon::eventually([&] { return s.base->serviceStatus() == want; });
          c.expect(ok, "not_converged", "after concurrent starts and stops: the service is ", (int)want, " but the client's view is ", (int)s.base->serviceStatus());
        }
        c.observe("concurrent_toggles");
      }
      for (int k = 0; k < rounds && !s.chaos && !c.failed(); ++k) {
        bool to = !s.up;
        // several threads may ask for it
        bool twice = r.chance(15);
        std::thread t2;
        if (twice) t2 = std::thread([&] { to ? s.stub->startServing() : s.stub->stopServing(); });
        to ? s.stub->startServing() : s.stub->stopServing();
        if (twice) t2.join();
        s.up = to;
        s.changes++;
        c.expect(s.stub->availability() == (to ? Availability::Available : Availability::Unavailable), "provider_status", "wrong availability of the provider");
        if (r.chance(15)) to ? s.stub->startServing() : s.stub->stopServing();  // no change
        if (r.chance(50)) mon::jitter(r);
        else mon::napUs((int)r.below(2000));
      }
      running--;
    });
  for (int t = 0; t < 2; ++t)
    ths.emplace_back([&, r = c.rng.fork()]() mutable {
      gate.wait();
      std::vector<std::pair<ToldPtr, std::shared_ptr<ServiceStatusObserverIF>>> mine;
      for (int n = 0; running > 0 && n < 150 && !c.failed(); ++n) {
        int i = (int)r.below((uint64_t)ns);
        if (r.chance(70)) mine.push_back(observe(r, i, false));
        if (mine.size() > 3 || (!mine.empty() && r.chance(30))) {
          auto k = r.below(mine.size());
          auto [t, o] = mine[k];
          svcs[(size_t)t->svc]->base->unregisterServiceStatusObserver(o);
          t->gone = true;
          mine.erase(mine.begin() + (long)k);
          c.observe("unobserved");
        }
        mon::napUs((int)r.below(400));
      }
    });
  ths.emplace_back([&, r = c.rng.fork()]() mutable {  // waits for a status
    gate.wait();
    while (running > 0 && !c.failed()) {
      auto &s = *svcs[r.below(svcs.size())];
      auto sig = serviceStatusSignal(s.base);
      auto want = r.chance(50) ? Availability::Available : Availability::Unavailable;
      int limit = r.range(1, 20);
      auto t0 = sclk::now();
      auto w = sig->waitIfNot(want, limit);
      auto dt = sclk::now() - t0;
      if (w.isTimeout()) {
        c.expect(dt >= ms{limit}, "wait_early", "a wait for a status ended before its limit");
        c.observe("waits_expired");
      } else {
        c.expect(w.isReady(), "wait_result", "a wait was interrupted by nobody");
        c.observe("waits_ready");
      }
      s.base->unregisterServiceStatusObserver(sig);
    }
  });
  ths.emplace_back([&, r = c.rng.fork()]() mutable {
    gate.wait();
    mon::napUs((int)r.below(3000));
    dying->stopAndWait();
    while (running > 0 && !c.failed()) {  // uses the services
      auto &s = *svcs[r.below(svcs.size())];
      ActionCallStatus st{};
      auto p = env.proxy(maf::util::directExecutor(), s.sid);
      p->template sendRequest<ping_request>(&st, ms{2000});
      if (st == ActionCallStatus::Success) c.observe("pings");
      mon::napUs((int)r.below(500));
    }
  });
  gate.release();
  for (auto &t : ths) t.join();
  auto truth = [](Svc &s) { return s.up ? Availability::Available : Availability::Unavailable; };
  auto settle = [&](const char *when, bool fence = true) {
    if (!c.failed() && fence) statusFence();
    for (auto &s : svcs) {
      auto want = truth(*s);
      bool ok = mon::eventually([&] { return s->base->serviceStatus() == want; });
      c.expect(ok, "not_converged", when, ": the service is ", (int)want, " but the client's view is ", (int)s->base->serviceStatus());
      std::lock_guard l(s->m);
      for (auto &t : s->told) {
        if (t->gone || t->dead) continue;
        bool exact = t->fromStart && !s->chaos;
        ok = mon::eventually([&] { return t->last() == want && (!exact || (int)t->get().size() >= s->changes); });
        c.expect(ok, "not_told", when, ": ", t->how, " was told ", toldText(t->get()), " but the service is ", (int)want, exact ? " after " + std::to_string(s->changes) + " changes" : "");
        if (c.failed()) return;
      }
    }
  };
  settle("after the last change");
  auto verify = [&] {
    for (auto &s : svcs)
      for (auto &t : s->told) {
        auto v = t->get();
        checkTold(c, *t);
        for (size_t i = 0; i < v.size(); ++i) {
          bool good = v[i].first != v[i].second && (v[i].second == Availability::Available || v[i].second == Availability::Unavailable);
          if (i) good = good && v[i].first == v[i - 1].second;
          else good = good && (v[i].first == Availability::Unknown ? v[i].second == Availability::Available && !t->fromStart : true);
          c.expect(good, "wrong_change", t->how, " was told", toldText(v));
        }
        if (t->fromStart && !t->gone && !s->chaos)
          c.expect((int)v.size() == s->changes, "change_count", t->how, " was told", toldText(v), " but there were ", s->changes.load(), " changes");
        c.observe("changes_told", v.size());
      }
  };
  procs.flush();
  if (!c.failed()) verify();
  // the limit of a wait, and a wait which ends by the change
  for (auto &s : svcs) {
    if (c.failed()) break;
    auto sig = serviceStatusSignal(s->base);
    auto now = truth(*s), not_ = s->up ? Availability::Unavailable : Availability::Available;
    c.expect(sig->waitIfNot(now, 10000).isReady(), "wait_lost", "waiting for the present status did not end");
    auto t0 = sclk::now();
    c.expect(sig->waitIfNot(not_, 20).isTimeout(), "wait_wrong", "a wait for a status which was not reached ended");
    c.expect(sclk::now() - t0 >= ms{20}, "wait_early", "a wait for a status ended before its limit");
    std::thread t([&] {
      auto w = sig->waitIfNot(not_);
      c.expect(w.isReady(), "wait_lost", "waiting for a change did not end well");
    });
    mon::napUs((int)c.rng.below(500));
    s->up = !s->up;
    s->changes++;
    s->up ? s->stub->startServing() : s->stub->stopServing();
    t.join();
    s->base->unregisterServiceStatusObserver(sig);
    auto stopped = serviceStatusSignal(s->base);
    std::thread t3([&] { c.expect(stopped->waitIfNot(Availability::Unknown).isInterrupted(), "wait_result", "a stopped wait must be interrupted"); });
    stopped->stop();
    t3.join();
    s->base->unregisterServiceStatusObserver(stopped);
  }
  settle("after a change");
  // leaving observers are not told any more
  if (!c.failed()) {
    procs.flush();
    for (auto &s : svcs)
      for (auto &t : s->told)
        if (t->gone) t->goneAt = t->get().size();
    for (auto &s : svcs) {
      s->up ? s->stub->stopServing() : s->stub->startServing();
      s->up = !s->up;
      s->changes++;
    }
    settle("after another change");
    procs.flush();
    for (auto &s : svcs)
      for (auto &t : s->told)
        if (t->gone) c.expect(t->get().size() == t->goneAt, "told_after_unregister", t->how, " was told a change after it was unregistered");
  }
  // the server goes and comes again
  if constexpr (Env<PT>::ipc) {
    int restarts = c.failed() ? 0 : c.rng.range(0, 2);
    for (int k = 0; k < restarts && !c.failed(); ++k) {
      csmgmt::shutdownAllServers();
      for (auto &s : svcs) {
        if (s->up) s->changes++;
        s->up = false;
      }
      if (c.rng.chance(50)) settle("after the server was shut down", false);
      else mon::napUs((int)c.rng.below(2000));
      for (auto &s : svcs) mkStub(*s);
      for (auto &s : svcs) {
        s->up = true;
        s->changes++;
        s->stub->startServing();
      }
      settle("after the server was restarted");
      for (auto &s : svcs) {
        ActionCallStatus st{};
        s->base->template sendRequest<ping_request>(&st, ms{10000});
        c.expect(st == ActionCallStatus::Success, "dead_after_restart", "a request after the restart failed: ", (int)st);
        std::atomic<uint64_t> got{0};
        auto id = s->base->template registerStatus<level_status>([&](const std::shared_ptr<level_status> &v) { if (v) got = v->get_seq(); });
        s->stub->template setStatus<level_status>(1, uint64_t{77}, dataOf(77, 1));
        c.expect(mon::eventually([&] { return got == 77; }), "dead_after_restart", "a property after the restart was not told");
        s->base->unregister(id);
        env.fence(s->base);
      }
      c.observe("restarts");
    }
  }
  procs.flush();
  if (!c.failed()) verify();
  if (c.failed()) mon::quit();
  c.nontrivial();
  c.sign();
  for (auto &s : svcs) {
    for (auto &o : s->obs) s->base->unregisterServiceStatusObserver(o);
    s->stub->stopServing();
    s->stub->template unregisterRequestHandler<ping_request>();
    env.settle(s->base);
  }
  procs.flush();
  procs.stop();
}

// ---- clients and servers which come and go while services change
inline void connects(Ctx &c) {
  Env<Ipc> env(c);
  auto direct = maf::util::directExecutor();
  int rounds = c.thorough ? 6 : 3;
  for (int k = 0; k < rounds && !c.failed(); ++k) {
    env.addr = Address(hp::uniqueId(c, "mafc" + std::to_string(getpid()) + "." + std::to_string(k)), 1);
    int ns = c.rng.range(1, 3);
    bool clientFirst = c.rng.chance(30);
    std::vector<Env<Ipc>::Stub> stubs;
    std::vector<Env<Ipc>::Proxy> proxies;
    std::vector<ToldPtr> told;
    auto connect = [&](mon::Rng &r) {
      for (int i = 0; i < ns; ++i) {
        auto sid = env.sid + "." + std::to_string(i);
        auto t = std::make_shared<Told>();
        std::shared_ptr<ServiceStatusObserverIF> o;
        if (r.chance(50)) {
          auto d = std::make_shared<DirectObserver>(sid, t);
          proxies.push_back(maf::localipc::createProxy(env.addr, sid, direct, d));
        } else {
          proxies.push_back(env.proxy(direct, sid));
          proxies.back()->onServiceStatusChanged([t](Availability a, Availability b) { t->add(a, b); });
        }
        told.push_back(t);
        if (r.chance(50)) mon::jitter(r);
      }
    };
    if (clientFirst) {
      connect(c.rng);
      if (c.rng.chance(50)) mon::napUs((int)c.rng.below(20000));
    }
    for (int i = 0; i < ns; ++i) {
      stubs.push_back(env.stub(direct, env.sid + "." + std::to_string(i)));
      stubs.back()->registerRequestHandler<ping_request>([](auto r) { r.respond(); });
      if (c.rng.chance(50)) stubs.back()->startServing();
    }
    auto churn = [&] {  // services change while clients connect
      std::vector<std::thread> ths;
      std::atomic<bool> end{false};
      for (auto &s : stubs)
        ths.emplace_back([&end, s, r = c.rng.fork()]() mutable {
          int extra = r.range(0, 3);
          for (int n = 0; n < 400 && (!end || extra-- > 0); ++n) {
            r.chance(50) ? s->startServing() : s->stopServing();
            if (r.chance(70)) mon::jitter(r);
            else mon::napUs((int)r.below(3000));
          }
        });
      if (proxies.empty()) {
        mon::napUs((int)c.rng.below(2000));
        connect(c.rng);
      }
      mon::napUs((int)c.rng.below(6000));
      end = true;
      for (auto &t : ths) t.join();
    };
    auto converged = [&, n = 0](const char *when) mutable {
      // all changes up to now were received
      auto probe = env.sid + ".probe" + std::to_string(n++);
      auto ps = env.stub(direct, probe);
      auto pp = env.proxy(direct, probe);
      ps->startServing();
      env.waitAvailable(pp);
      ps->stopServing();
      env.settle(pp);
      for (int i = 0; i < ns && !c.failed(); ++i) {
        auto want = stubs[(size_t)i]->availability();
        bool ok = mon::eventually([&] { return proxies[(size_t)i]->serviceStatus() == want; });
        c.expect(ok, "not_converged", when, ": the service is ", (int)want, " but the client's view is ", (int)proxies[(size_t)i]->serviceStatus());
        auto &t = told[(size_t)i];
        auto stated = [&] { return t->get().empty() ? want == Availability::Unavailable : t->last() == want; };
        ok = ok && mon::eventually(stated);
        c.expect(ok, "not_told", when, ": an observer was told", toldText(t->get()), " but the service is ", (int)want);
        auto v = t->get();
        checkTold(c, *t);
        for (size_t n = 0; n < v.size(); ++n)
          c.expect(v[n].first != v[n].second && (n == 0 || v[n].first == v[n - 1].second), "wrong_change", when, ": an observer was told", toldText(v));
        if (want == Availability::Available && !c.failed()) {
          ActionCallStatus st{};
          proxies[(size_t)i]->sendRequest<ping_request>(&st, ms{10000});
          c.expect(st == ActionCallStatus::Success, "dead", when, ": a request failed: ", (int)st);
          c.observe("pings");
        }
      }
    };
    churn();
    converged("after clients connected");
    c.observe("connected");
    if (c.failed()) break;
    int kind = (int)c.rng.below(4);
    if (kind == 1) {  // the clients leave and others come
      csmgmt::shutdownAllClients();
      proxies.clear();
      told.clear();
      churn();
      converged("after the clients were restarted");
      c.observe("clients_restarted");
    } else if (kind == 2) {  // the server leaves while services change
      stubs.clear();
      csmgmt::shutdownAllServers();
      if (c.rng.chance(50)) mon::napUs((int)c.rng.below(50000));
      for (int i = 0; i < ns; ++i) {
        stubs.push_back(env.stub(direct, env.sid + "." + std::to_string(i)));
        stubs.back()->registerRequestHandler<ping_request>([](auto r) { r.respond(); });
      }
      churn();
      converged("after the server was restarted");
      c.observe("servers_restarted");
    } else if (kind == 3) {  // everything at once
      std::thread t([&, r = c.rng.fork()]() mutable {
        mon::jitter(r);
        csmgmt::shutdownAllClients();
      });
      std::thread t2([stubs, r = c.rng.fork()]() mutable {
        for (int n = 0; n < 6; ++n)
          for (auto &s : stubs) r.chance(50) ? s->startServing() : s->stopServing();
      });
      mon::jitter(c.rng);
      csmgmt::shutdownAllServers();
      t.join();
      t2.join();
      c.observe("all_shut_down");
    }
    if (c.rng.chance(50)) csmgmt::shutdownAll();
    else {
      csmgmt::shutdownAllServers();
      csmgmt::shutdownAllClients();
    }
    for (auto &p : proxies) {  // what is left fails politely
      ActionCallStatus st{ActionCallStatus::Success};
      p->sendRequest<ping_request>(&st, ms{2000});
      c.expect(st != ActionCallStatus::Success, "dead_answer", "a request succeeded without a server");
    }
  }
  if (c.failed()) mon::quit();
  c.nontrivial();
  c.sign();
}

}  // namespace cs
