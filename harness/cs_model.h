// P17, P18: one history of calls at a time against an exact model: what every
// callback was told, in which order, and what can be asked for
#pragma once
#include "cs_work.h"

namespace cs {

template <class T>
struct Tag {
  using type = T;
};

template <class PT>
void model(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto &r = c.rng;
  constexpr int nKinds = 6;  // 3 properties, 2 signals with attributes, 1 without
  struct Sub {
    int svc, kind;
    bool local = false, open = true;
    typename Env<PT>::Proxy proxy;
    RegID id;
    signal_slots::Connection con;
    SeenPtr seen = std::make_shared<Seen>();
    std::vector<uint64_t> want;
  };
  struct Svc {
    ServiceID sid;
    typename Env<PT>::Stub stub;
    std::vector<typename Env<PT>::Proxy> proxies;
    uint64_t value[3] = {kRemoved, kRemoved, kRemoved};
    bool up = false;
  };
  std::vector<Svc> svcs((size_t)r.range(1, 2));
  std::vector<std::shared_ptr<Sub>> subs;
  uint64_t seq = 0;
  AsyncProcessor *ps[2] = {&procs.add(), &procs.add()};
  for (size_t i = 0; i < svcs.size(); ++i) {
    auto &s = svcs[i];
    s.sid = env.sid + "." + std::to_string(i);
    s.stub = env.stub(maf::util::directExecutor(), s.sid);
    s.stub->template registerRequestHandler<ping_request>([](auto q) { q.respond(); });
    s.proxies.push_back(env.proxy(maf::util::directExecutor(), s.sid));
    s.proxies.push_back(r.chance(50) ? s.proxies[0]->with((*ps[0])->getExecutor()) : env.proxy((*ps[0])->getExecutor(), s.sid));
    if (r.chance(50)) s.proxies.push_back(s.proxies[0]->with((*ps[1])->getExecutor()));
  }
  auto writer = [](int svc, int kind) { return svc * 10 + kind + 1; };
  auto withProp = [](int kind, auto f) {
    switch (kind) {
      case 0: return f(Tag<level_status>{});
      case 1: return f(Tag<other_status>{});
      default: return f(Tag<third_status>{});
    }
  };
  auto told = [&](int svc, int kind) {
    for (auto &s : subs)
      if (s->open && s->svc == svc && s->kind == kind) s->want.push_back(keyOf(writer(svc, kind), seq));
  };
  std::string did;  // the last calls
  auto note = [&](std::string what) {
    did += " " + what;
    if (did.size() > 400) did.erase(0, did.size() - 400);
  };
  // nulls tell that there is no value: at first, or once removed
  auto normal = [](std::vector<uint64_t> v) {
    std::vector<uint64_t> n;
    for (auto k : v)
      if (k != kRemoved || (!n.empty() && n.back() != kRemoved)) n.push_back(k);
    return n;
  };
  auto text = [](const std::vector<uint64_t> &v) {
    std::string t;
    for (size_t i = v.size() > 12 ? v.size() - 12 : 0; i < v.size(); ++i) t += " " + keyText(v[i]);
    return std::to_string(v.size()) + " values, the last are" + t;
  };
  auto check = [&](bool all) {
    for (auto &s : svcs)
      if (s.up) env.fence(s.proxies[0]);
    for (auto p : ps) (*p)->waitableExecute(Execution{[] {}}).wait();
    for (auto &s : subs) {
      if (!all && !s->open) continue;
      auto got = normal(s->seen->get()), want = normal(s->want);
      c.expect(got == want, "model_told", s->local ? "a listener at the provider" : "a client's callback", s->open ? "" : " (unregistered)", " of service ", s->svc, " kind ", s->kind, " was told ", text(got), " instead of ", text(want), " by:", did);
      if (c.failed()) return;
      c.observe("model_checks");
    }
  };
  auto setUp = [&](int i, bool up) {
    auto &s = svcs[(size_t)i];
    up ? s.stub->startServing() : s.stub->stopServing();
    s.up = up;
    bool ok = mon::eventually([&] { return (s.proxies[0]->serviceStatus() == Availability::Available) == up; });
    c.expect(ok, "model_status", "the client does not learn that service ", i, up ? " started" : " stopped");
    if (!ok) mon::quit();
    if (!up)
      for (auto &w : subs)
        if (w->svc == i && !w->local) w->open = false, w->id.clear();
    for (int k = 0; up && k < 3; ++k)
      s.value[k] = withProp(k, [&](auto t) -> uint64_t {
        auto v = s.stub->template getStatus<typename decltype(t)::type>();
        return v ? keyOf(v->get_writer(), v->get_seq()) : kRemoved;
      });
  };
  for (size_t i = 0; i < svcs.size(); ++i) setUp((int)i, true);

  const int steps = c.thorough ? 250 : 120;
  for (int n = 0; n < steps && !c.failed(); ++n) {
    int si = (int)r.below(svcs.size());
    auto &s = svcs[(size_t)si];
    int kind = r.chance(60) ? (int)r.below(2) : (int)r.below(nKinds);
    int w = writer(si, kind);
    auto name = std::to_string(si) + "." + std::to_string(kind);
    auto op = r.below(100);
    // through sockets, a client's view at a call is what it has received so far
    for (auto &x : svcs)
      if (x.up) env.fence(x.proxies[0]);
    if (op < 34) {  // a change or broadcast
      ActionCallStatus st;
      if (kind < 3) {
        bool same = s.value[kind] != kRemoved && r.chance(12);
        if (!same) ++seq;
        auto q = same ? (s.value[kind] & 0xffffffff) : seq;
        st = withProp(kind, [&](auto t) {
          using S = typename decltype(t)::type;
          if (!r.chance(25)) return s.stub->template setStatus<S>(w, q, dataOf(q, w));
          // a copy to be changed on the side
          auto copy = s.stub->template cloneStatus<S>();
          if (!copy) {
            c.fail("model_clone", "there is no copy of a status");
            return ActionCallStatus::FailedUnknown;
          }
          auto k = copy->get_seq() || copy->get_writer() ? keyOf(copy->get_writer(), copy->get_seq()) : kRemoved;
          c.expect(k == s.value[kind], "model_clone", "the copy of ", name, " is ", keyText(k), " instead of ", keyText(s.value[kind]), " after:", did);
          copy->set_writer(w);
          copy->set_seq(q);
          copy->set_data(dataOf(q, w));
          auto now = s.stub->template getStatus<S>();
          auto nk = now ? keyOf(now->get_writer(), now->get_seq()) : kRemoved;
          c.expect(nk == s.value[kind], "model_clone", "changing a copy of ", name, " changed the status itself after:", did);
          c.observe("model_clones");
          return s.stub->setStatus(copy);
        });
        note("set" + name);
        if (same) {
          c.expect(st == ActionCallStatus::NoAction, "model_same", "setting the same value again returned ", (int)st);
        } else {
          s.value[kind] = keyOf(w, q);
          told(si, kind);
        }
      } else {
        ++seq;
        if (kind == 3) st = s.stub->template broadcastSignal<tick_attributes>(w, seq, dataOf(seq, w));
        else if (kind == 4) st = s.stub->template broadcastSignal<tock_attributes>(w, seq, dataOf(seq, w));
        else st = s.stub->template broadcastSignal<nothing_signal>();
        note("cast" + name);
        told(si, kind);
        if (kind == 5)
          for (auto &x : subs)
            if (x->svc == si && x->kind == 5)
              for (auto &k : x->want) k = keyOf(w, 0);
      }
      c.observe("model_changes");
    } else if (op < 40 && kind < 3) {
      withProp(kind, [&](auto t) { return s.stub->template removeProperty<typename decltype(t)::type>(true); });
      note("remove" + name);
      s.value[kind] = kRemoved;
      for (auto &x : subs)
        if (x->open && x->svc == si && x->kind == kind) x->want.push_back(kRemoved);
      c.observe("model_removals");
    } else if (op < 62) {  // another callback
      auto x = std::make_shared<Sub>();
      x->svc = si, x->kind = kind;
      x->local = r.chance(12) && kind != 5;
      if (!x->local && !s.up) continue;
      x->proxy = s.proxies[r.below(s.proxies.size())];
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      auto take = [&c, seen = x->seen, w](const auto &v, const char *how) { seen->add(checkStatus(c, v, w, w, how)); };
      note((x->local ? "listen" : "sub") + name);
      if (kind < 3)
        withProp(kind, [&](auto t) {
          using S = typename decltype(t)::type;
          if (x->local) x->con = s.stub->template registerNotification<S>([take](const std::shared_ptr<S> &v) { take(v, "listener"); });
          else x->id = x->proxy->template registerStatus<S>([take](const std::shared_ptr<S> &v) { take(v, "callback"); }, &st);
          return 0;
        });
      else if (kind == 3) {
        if (x->local) x->con = s.stub->template registerNotification<tick_attributes>([take](const std::shared_ptr<tick_attributes> &v) { take(v, "signal listener"); });
        else x->id = x->proxy->template registerSignal<tick_attributes>([take](const std::shared_ptr<tick_attributes> &v) { take(v, "signal"); }, &st);
      } else if (kind == 4) {
        if (x->local) x->con = s.stub->template registerNotification<tock_attributes>([take](const std::shared_ptr<tock_attributes> &v) { take(v, "signal listener"); });
        else x->id = x->proxy->template registerSignal<tock_attributes>([take](const std::shared_ptr<tock_attributes> &v) { take(v, "signal"); }, &st);
      } else {
        x->id = x->proxy->template registerSignal<nothing_signal>([seen = x->seen, w] { seen->add(keyOf(w, 0)); }, &st);
      }
      if (!x->local) {
        c.expect(st == ActionCallStatus::Success && x->id.valid(), "model_register", "registering failed: ", (int)st);
        for (auto &y : subs)
          if (y->open && !y->local && y->svc == si && y->kind == kind) c.expect(!(y->id == x->id), "model_id", "two registrations have the same id");
        if (kind < 3 && s.value[kind] != kRemoved) x->want.push_back(s.value[kind]);
      }
      subs.push_back(x);
      c.observe("model_subscriptions");
    } else if (op < 80) {  // one less
      if (subs.empty()) continue;
      auto &x = subs[r.below(subs.size())];
      if (x->local) {
        x->con.disconnect();
        x->open = false;
      } else if (x->id.valid() && svcs[(size_t)x->svc].up) {
        auto &xs = svcs[(size_t)x->svc];
        auto st = xs.proxies[r.below(xs.proxies.size())]->unregister(x->id);
        c.expect(st == ActionCallStatus::Success, "model_unregister", "unregistering failed: ", (int)st);
        x->id.clear();
        x->open = false;
      }
      note("unsub" + std::to_string(x->svc) + "." + std::to_string(x->kind));
      c.observe("model_ends");
    } else if (op < 83 && kind < 3 && s.up) {
      note("unsuball" + name);
      auto st = s.proxies[r.below(s.proxies.size())]->unregisterAll(withProp(kind, [](auto t) { return OpID(PT::template getOperationID<typename decltype(t)::type>()); }));
      c.expect(st == ActionCallStatus::Success, "model_unregister", "unregistering all failed: ", (int)st);
      for (auto &x : subs)
        if (!x->local && x->svc == si && x->kind == kind) x->open = false, x->id.clear();
      c.observe("model_ends_of_all");
    } else if (op < 97) {  // asks for a value
      if (kind >= 3 || !s.up) continue;
      check(false);  // updates which are under way would make it newer only
      withProp(kind, [&](auto t) {
        using S = typename decltype(t)::type;
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        auto k = checkStatus(c, s.proxies[0]->template getStatus<S>(&st), w, w, "getStatus");
        c.expect(st == ActionCallStatus::Success && k == s.value[kind], "model_get", "getStatus of ", name, " gave ", keyText(k), " instead of ", keyText(s.value[kind]), " status ", (int)st, " after:", did);
        std::atomic<uint64_t> got{~0ull - 1};
        auto &p = s.proxies[r.below(s.proxies.size())];
        p->template getStatus<S>([&c, &got, w](const std::shared_ptr<S> &v) { got = checkStatus(c, v, w, w, "async getStatus"); });
        if (!mon::eventually([&] { return got != ~0ull - 1; })) {
          c.fail("model_get", "an asynchronous getStatus was never answered");
          mon::quit();
        }
        c.expect(got == s.value[kind], "model_get", "asynchronous getStatus of ", name, " gave ", keyText(got), " instead of ", keyText(s.value[kind]), " after:", did);
        return 0;
      });
      c.observe("model_gets");
    } else {
      note((s.up ? "stop" : "start") + std::to_string(si));
      check(true);
      setUp(si, !s.up);
      c.observe("model_restarts");
    }
    if (r.chance(60)) check(false);
    c.log(14, (int64_t)op, kind);
  }
  check(true);
  for (auto &s : subs) s->con.disconnect();
  for (auto &s : svcs) {
    s.stub->stopServing();
    env.settle(s.proxies[0]);
  }
  procs.stop();
  for (auto &s : svcs) s.stub->template unregisterRequestHandler<ping_request>();
  c.nontrivial();
  c.sign();
}

// P15, P16: the same for requests: who answered, with what, in which order,
// and which of both sides knows that it is over
template <class PT>
void requestModel(Ctx &c) {
  Env<PT> env(c);
  Procs procs;
  auto &r = c.rng;
  struct Life {  // what the provider knows
    std::mutex m;
    std::shared_ptr<EchoReq<PT>> rq;
    int handler = 0;
    std::vector<int> aborts;  // callbacks called, in order
  };
  struct Rec {
    int svc, type;
    typename Env<PT>::Proxy proxy;
    RegID id;
    uint64_t serial;
    bool open = false, aborted = false, outlived = false;
    int phase = 0, lastHook = 0, lastUsed = 0;
    std::shared_ptr<Life> life = std::make_shared<Life>();
    SeenPtr seen = std::make_shared<Seen>();
    std::vector<uint64_t> want;
    std::vector<int> wantAborts;
  };
  using RecPtr = std::shared_ptr<Rec>;
  constexpr uint64_t kErr = 1ull << 40, kEmpty = 1ull << 41, kOdd = 1ull << 42;
  struct Svc {
    ServiceID sid;
    typename Env<PT>::Stub stub;
    std::vector<typename Env<PT>::Proxy> proxies;
    int handler[2] = {0, 0};
    bool up = false;
  };
  std::vector<Svc> svcs((size_t)r.range(1, 2));
  // requests by serial, shared with the handlers
  struct Book {
    std::mutex m;
    std::map<uint64_t, std::shared_ptr<Life>> lives;
  };
  auto book = std::make_shared<Book>();
  std::vector<RecPtr> recs;
  uint64_t serials = c.idx << 20;
  int handlers = 0;
  AsyncProcessor *ps[2] = {&procs.add(), &procs.add()};
  auto srvProc = procs.add().instance();
  bool srvDirect = r.chance(50);
  std::string did;
  auto note = [&](std::string what) {
    did += " " + what;
    if (did.size() > 400) did.erase(0, did.size() - 400);
  };
  // what a handler does at once is asked for by the data
  auto handlerOf = [&c, book](int id, int type) {
    return [&c, book, id, type](EchoReq<PT> q) {
      auto in = q.getInput();
      if (!in) return c.fail("reqmodel_input", "a request arrived without its input");
      std::shared_ptr<Life> life;
      {
        std::lock_guard l(book->m);
        auto it = book->lives.find(in->get_serial());
        if (it != book->lives.end()) life = it->second;
      }
      if (!life) return c.fail("reqmodel_input", "a request arrived which was never sent");
      std::lock_guard l(life->m);
      if (life->handler) return c.fail("reqmodel_twice", "request " + std::to_string(in->get_serial()) + " was handled twice");
      life->handler = id;
      c.expect(q.valid(), "reqmodel_valid", "a request is not valid when it arrives");
      auto what = in->get_data();
      if (what.rfind("now", 0) == 0) {
        for (char u = 1; u <= what[3] - '0'; ++u) q.update(echo_request::make_output(in->get_serial(), u, std::to_string(id)));
        q.respond(echo_request::make_output(in->get_serial(), kFinal, std::to_string(id)));
      } else if (what.rfind("drop", 0) != 0) {
        life->rq = std::make_shared<EchoReq<PT>>(std::move(q));
      }
    };
  };
  auto setHandler = [&](Svc &s, int type) {
    int id = ++handlers;
    // both have the same contents
    bool ok = s.stub->template registerRequestHandler<echo_request::input>(handlerOf(id, type));
    c.expect(ok == !s.handler[type], "reqmodel_handler", ok ? "a handler was replaced" : "a handler was refused");
    if (ok) s.handler[type] = id;
  };
  auto fence = [&] {
    for (auto &x : svcs)
      if (x.up) env.fence(x.proxies[0]);
    srvProc->waitableExecute(Execution{[] {}}).wait();
    for (auto &x : svcs)  // answers the executor gave
      if (x.up) env.fence(x.proxies[0]);
    for (auto p : ps) (*p)->waitableExecute(Execution{[] {}}).wait();
  };
  auto check = [&] {
    fence();
    for (auto &x : recs) {
      auto got = x->seen->get();
      if (got != x->want) {
        auto text = [](const std::vector<uint64_t> &v) {
          std::string t = std::to_string(v.size()) + " [";
          for (auto k : v)
            t += k == kEmpty ? " empty" : k == kOdd ? " nonsense" : k >= kErr ? " error " + std::to_string(k - kErr)
                 : " " + std::to_string(k >> 16) + "." + std::to_string(k & 0xffff);
          return t + " ]";
        };
        c.fail("reqmodel_told", "the callback of request " + std::to_string(x->serial & 0xfffff) + (x->aborted ? " (aborted)" : "") + " was told " + text(got) +
                                    " instead of " + text(x->want) + " after:" + did);
        return;
      }
      std::lock_guard l(x->life->m);
      if (x->life->aborts != x->wantAborts) {
        c.fail("reqmodel_aborts", "request " + std::to_string(x->serial & 0xfffff) + " had " + std::to_string(x->life->aborts.size()) + " abort callbacks called instead of " +
                                      std::to_string(x->wantAborts.size()) + (x->life->aborts.size() == x->wantAborts.size() ? ", another one than the latest" : "") +
                                      " after:" + did);
        return;
      }
      if (x->life->rq && !x->outlived)
        c.expect(x->life->rq->valid() == x->open, "reqmodel_valid", "request ", x->serial & 0xfffff, " is ", x->open ? "in" : "", "valid although it is ",
                 x->open ? "open" : "over", " after:", did);
      c.observe("reqmodel_checks");
    }
  };
  auto setUp = [&](Svc &s, bool up) {
    up ? s.stub->startServing() : s.stub->stopServing();
    s.up = up;
    bool ok = mon::eventually([&] {
      for (auto &p : s.proxies)
        if ((p->serviceStatus() == Availability::Available) != up) return false;
      return true;
    });
    c.expect(ok, "reqmodel_status", "the client does not learn that a service ", up ? "started" : "stopped");
    if (!ok) mon::quit();
    if (!up)
      for (auto &x : recs)
        if (&svcs[(size_t)x->svc] == &s && x->open) x->open = false, x->outlived = true;
  };
  for (size_t i = 0; i < svcs.size(); ++i) {
    auto &s = svcs[i];
    s.sid = env.sid + "." + std::to_string(i);
    s.stub = env.stub(srvDirect ? ExecutorIFPtr(maf::util::directExecutor()) : srvProc->getExecutor(), s.sid);
    s.stub->template registerRequestHandler<ping_request>([](auto q) { q.respond(); });
    s.proxies.push_back(env.proxy(maf::util::directExecutor(), s.sid));
    s.proxies.push_back(r.chance(50) ? s.proxies[0]->with((*ps[0])->getExecutor()) : env.proxy((*ps[0])->getExecutor(), s.sid));
    if (r.chance(50)) s.proxies.push_back(s.proxies[0]->with((*ps[1])->getExecutor()));
    if (r.chance(80)) setHandler(s, 0);
    setUp(s, true);
  }
  auto pick = [&](auto f) -> RecPtr {
    std::vector<RecPtr> v;
    for (auto &x : recs)
      if (f(*x)) v.push_back(x);
    return v.empty() ? RecPtr{} : v[r.below(v.size())];
  };
  auto key = [](uint64_t serial, int phase) { return (serial & 0xfffff) << 16 | (uint64_t)phase; };
  const int steps = c.thorough ? 250 : 120;
  for (int n = 0; n < steps && !c.failed(); ++n) {
    int si = (int)r.below(svcs.size());
    auto &s = svcs[(size_t)si];
    auto op = r.below(100);
    fence();
    if (op < 30) {  // a request
      auto x = std::make_shared<Rec>();
      x->svc = si, x->type = 0;
      x->proxy = s.proxies[r.below(s.proxies.size())];
      x->serial = ++serials;
      int how = (int)r.below(10);  // mostly held
      int ups = (int)r.below(4);
      std::string data = how < 2 ? "now" + std::to_string(ups) : how == 2 ? "drop" : "held";
      {
        std::lock_guard l(book->m);
        book->lives[x->serial] = x->life;
      }
      auto serial = x->serial;
      auto take = [&c, seen = x->seen, serial, key](ResponseT<echo_request::output> rs) {
        if (rs.isError()) return seen->add(rs.getError() ? kErr + (uint64_t)rs.getError()->code() : kOdd);
        auto o = rs.getOutput();
        if (!o) return seen->add(kEmpty);
        seen->add(key(o->get_serial(), o->get_phase()));
      };
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      note("send" + std::to_string(serial & 0xfffff) + data);
      bool block = how < 3 && r.chance(30);
      if (block) {
        auto rs = x->proxy->template sendRequest<echo_request::output>(echo_request::make_input(serial, data), &st);
        if (s.up) take(rs);
        else c.expect(rs.isError() && !rs.isOutput(), "reqmodel_send", "a request to a stopped service got an answer");
      } else {
        x->id = x->proxy->template sendRequestAsync<echo_request::output>(echo_request::make_input(serial, data), take, &st);
        c.expect(x->id.valid() == s.up, "reqmodel_send", "the registration of a request is ", s.up ? "in" : "", "valid");
        for (auto &y : recs) c.expect(!x->id.valid() || y->svc != si || !(y->id == x->id), "reqmodel_id", "two requests have the same id");
      }
      c.expect((st == ActionCallStatus::Success) == s.up && (s.up || st == ActionCallStatus::ServiceUnavailable), "reqmodel_send", "sending to a service which is ",
               s.up ? "up" : "down", " returned ", (int)st, " after:", did);
      recs.push_back(x);
      if (!s.up) {
        c.observe("reqmodel_unsent");
      } else if (!s.handler[0]) {
        x->want.push_back(kErr + (uint64_t)CSErrorCode::HandlerUnavailable);
        c.observe("reqmodel_unhandled");
      } else if (how < 2) {
        for (int u = 1; u <= ups && !block; ++u) x->want.push_back(key(serial, u));
        x->want.push_back(key(serial, kFinal));
      } else if (how == 2) {
        x->want.push_back(kErr + (uint64_t)CSErrorCode::ResponseIgnored);
      } else {
        x->open = true;
      }
      fence();
      std::lock_guard l(x->life->m);
      int want = s.up ? s.handler[0] : 0;
      c.expect(x->life->handler == want, "reqmodel_handled", "request ", serial & 0xfffff, " was handled by ", x->life->handler, " instead of ", want, " after:", did);
      c.observe("reqmodel_requests");
    } else if (op < 38) {
      auto x = pick([](Rec &x) { return x.life->rq && (x.open || x.phase); });
      if (!x) continue;
      note("update" + std::to_string(x->serial & 0xfffff));
      auto st = x->life->rq->update(echo_request::make_output(x->serial, ++x->phase, std::string("u")));
      if (!x->outlived) c.expect((st == ActionCallStatus::Success) == x->open, "reqmodel_update", "updating ", x->open ? "an open" : "a finished", " request returned ", (int)st);
      if (x->open) x->want.push_back(key(x->serial, x->phase));
      c.observe("reqmodel_updates");
    } else if (op < 56) {  // the end, maybe a second one
      auto x = pick([&](Rec &x) { return x.life->rq && (x.open || x.outlived || r.chance(10)); });
      if (!x) continue;
      auto how = r.below(5);
      note("end" + std::to_string(how) + "." + std::to_string(x->serial & 0xfffff) + (x->open ? "" : "!"));
      ActionCallStatus st = ActionCallStatus::Success;
      uint64_t told = key(x->serial, kFinal);
      if (how < 2) {
        st = x->life->rq->respond(echo_request::make_output(x->serial, kFinal, std::string("r")));
      } else if (how == 2) {
        auto e = errOf(x->serial);
        st = x->life->rq->error("no", e);
        told = kErr + (uint64_t)e;
      } else if (how == 3) {
        st = x->life->rq->respond();
        told = kEmpty;
      } else {  // forgotten
        decltype(x->life->rq) gone;
        {
          std::lock_guard l(x->life->m);
          gone.swap(x->life->rq);
        }
        gone.reset();
        if (!x->open) st = ActionCallStatus::InvalidCall;
        told = kErr + (uint64_t)CSErrorCode::ResponseIgnored;
      }
      if (!x->outlived)
        c.expect((st == ActionCallStatus::Success) == x->open, "reqmodel_end", "ending ", x->open ? "an open" : "a finished", " request returned ", (int)st, " after:", did);
      if (x->open) x->want.push_back(told);
      if (x->outlived) c.observe("reqmodel_outlived");
      x->open = false;
      c.observe("reqmodel_ends");
    } else if (op < 68) {  // wants to know of its abort
      auto x = pick([&](Rec &x) { return x.life->rq && !x.outlived && (x.open || r.chance(15)); });
      if (!x) continue;
      int id = ++x->lastHook;
      auto cb = [life = x->life.get(), keep = std::weak_ptr<Life>(x->life), id] {
        if (auto l = keep.lock()) {
          std::lock_guard g(l->m);
          l->aborts.push_back(id);
        }
      };
      bool there = r.chance(30);
      if (there) x->life->rq->onAborted(cb, srvProc->getExecutor());
      else x->life->rq->onAborted(cb);
      note("hook" + std::to_string(x->serial & 0xfffff));
      if (x->aborted) x->wantAborts.push_back(id);
      else if (x->open) x->lastUsed = id;
      c.observe("reqmodel_hooks");
    } else if (op < 82) {  // the client changes its mind
      auto x = pick([&](Rec &x) { return x.id.valid() && (x.open || r.chance(10)); });
      if (!x) continue;
      auto &xs = svcs[(size_t)x->svc];
      note("abort" + std::to_string(x->serial & 0xfffff) + (x->open ? "" : "!"));
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      xs.proxies[r.below(xs.proxies.size())]->abortRequest(x->id, &st);
      if (x->open) {
        c.expect(st == ActionCallStatus::Success, "reqmodel_abort", "aborting an open request returned ", (int)st);
        x->open = false;
        x->aborted = true;
        if (x->lastUsed) x->wantAborts.push_back(x->lastUsed);
        c.observe("reqmodel_aborts");
      } else {
        c.observe("reqmodel_late_aborts");
      }
    } else if (op < 90) {
      note("handler" + std::to_string(si));
      if (r.chance(60)) {
        bool ok = s.stub->template unregisterRequestHandler<echo_request>();
        c.expect(ok == !!s.handler[0], "reqmodel_handler", "unregistering a handler which is ", s.handler[0] ? "" : "not ", "there returned ", ok);
        s.handler[0] = 0;
      }
      if (r.chance(80)) setHandler(s, 0);
      c.observe("reqmodel_handlers");
    } else if (op < 94) {
      check();
      note((s.up ? "stop" : "start") + std::to_string(si));
      setUp(s, !s.up);
      c.observe("reqmodel_restarts");
    }
    if (r.chance(50)) check();
    c.log(15, (int64_t)op);
  }
  check();
  for (auto &s : svcs) {
    s.stub->stopServing();
    env.settle(s.proxies[0]);
    s.stub->template unregisterRequestHandler<echo_request>();
    s.stub->template unregisterRequestHandler<ping_request>();
  }
  for (auto &x : recs) {  // none of them may do anything anymore
    decltype(x->life->rq) gone;
    std::lock_guard l(x->life->m);
    gone.swap(x->life->rq);
  }
  procs.stop();
  c.nontrivial();
  c.sign();
}

}  // namespace cs
