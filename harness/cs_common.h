// Shared by the client-server harnesses (P15-P19): the service contract, self
// verifying payloads, executors, the provider side workload of P15.
#pragma once
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/Messaging.h>
#include <maf/messaging/client-server/CSMgmt.h>
#include <maf/messaging/client-server/AsyncServiceStatusObserver.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>

#include <unistd.h>

#include <deque>

#include "mon.h"
#include "proc_common.h"

#define MAF_CS_CONTRACT_PREFIX "mafv."
// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(echo)
    INPUT((uint64_t, serial), (std::string, data))
    OUTPUT((uint64_t, serial), (int, phase), (std::string, data))
ENDREQUEST(echo)

REQUEST(twin)
    INPUT((uint64_t, serial), (std::string, data))
    OUTPUT((uint64_t, serial), (int, phase), (std::string, data))
ENDREQUEST(twin)

VOID_REQUEST(ping)
VOID_REQUEST(orphan)

PROPERTY(level)
    STATUS((int, writer, 0), (uint64_t, seq, 0), (std::string, data))
ENDPROPERTY(level)

PROPERTY(other)
    STATUS((int, writer, 0), (uint64_t, seq, 0), (std::string, data))
ENDPROPERTY(other)

PROPERTY(third)
    STATUS((int, writer, 0), (uint64_t, seq, 0), (std::string, data))
ENDPROPERTY(third)

SIGNAL(tick)
    ATTRIBUTES((int, writer), (uint64_t, seq), (std::string, data))
ENDSIGNAL(tick)

SIGNAL(tock)
    ATTRIBUTES((int, writer), (uint64_t, seq), (std::string, data))
ENDSIGNAL(tock)

VOID_SIGNAL(nothing)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on

namespace cs {
using namespace maf::messaging;
namespace signal_slots = maf::signal_slots;
using level_status = level_property::status;
using other_status = other_property::status;
using third_status = third_property::status;
using tick_attributes = tick_signal::attributes;
using tock_attributes = tock_signal::attributes;
using maf::util::ExecutorIFPtr;
using mon::Ctx;
using mon::Rng;
using ms = std::chrono::milliseconds;
using sclk = std::chrono::steady_clock;
using Itc = maf::itc::ParamTrait;
using Ipc = maf::localipc::ParamTrait;

inline std::string dataOf(uint64_t k, int salt = 0) {
  uint64_t h = mon::mix64(k * 31 + (uint64_t)salt);
  size_t n = h % 17 == 0 ? 0 : h % 97 == 1 ? 20000 + h % 50000 : h % 120;
  std::string s(n, 0);
  for (size_t i = 0; i < n; ++i) s[i] = (char)(h = h * 6364136223846793005ULL + 1442695040888963407ULL, h >> 40);
  return s;
}

// runs callbacks on a fixed number of threads
struct PoolExec : maf::util::ExecutorIF {
  std::mutex m;
  std::condition_variable cv;
  std::deque<CallbackType> q;
  bool end = false;
  std::vector<std::thread> ths;
  explicit PoolExec(int n) {
    for (int i = 0; i < n; ++i)
      ths.emplace_back([this] {
        for (;;) {
          CallbackType f;
          {
            std::unique_lock l(m);
            cv.wait(l, [&] { return end || !q.empty(); });
            if (q.empty()) return;
            f = std::move(q.front());
            q.pop_front();
          }
          f();
        }
      });
  }
  bool execute(CallbackType f) noexcept override {
    {
      std::lock_guard l(m);
      if (end) return false;
      q.push_back(std::move(f));
    }
    cv.notify_one();
    return true;
  }
  void stop() {
    {
      std::lock_guard l(m);
      end = true;
    }
    cv.notify_all();
    for (auto &t : ths)
      if (t.joinable()) t.join();
  }
  ~PoolExec() { stop(); }
};

// what is going to happen to a request, known to both sides
enum Kind { Now, Held, Err, UpdNow, UpdHeld, Drop, Twice, Empty, UpdErr, Race, NKinds };
struct Plan {
  Kind kind;
  int updates;
};
inline Plan planOf(uint64_t serial) {
  uint64_t h = mon::mix64(serial ^ 0x5151);
  Plan p{(Kind)(h % NKinds), 0};
  if (p.kind == UpdNow || p.kind == UpdHeld || p.kind == UpdErr) p.updates = 1 + (int)((h >> 20) % 4);
  return p;
}
constexpr int kFinal = 1000;
inline CSErrorCode errOf(uint64_t serial) {
  return serial % 3 == 0 ? CSErrorCode::OperationFailed : serial % 3 == 1 ? CSErrorCode::RequestRejected : CSErrorCode::ResourceUnavailable;
}
inline std::string errText(uint64_t serial) { return "refused " + std::to_string(serial); }

template <class PT>
struct Provider {
  using Stub = BasicStub<PT>;
  template <class T>
  using Req = typename Stub::template Request<T>;
  Ctx &c;
  std::shared_ptr<Stub> stub;
  std::mutex m;
  std::map<uint64_t, int> handled;  // by serial
  std::vector<std::function<void()>> held;
  std::atomic<bool> done{false};
  std::atomic<uint64_t> nHandled{0}, nHeld{0}, nPings{0}, nDoubles{0}, nRaces{0};
  std::vector<std::thread> answerers;

  Provider(Ctx &c, std::shared_ptr<Stub> s, int nAnswer) : c(c), stub(std::move(s)) {
    for (int i = 0; i < nAnswer; ++i)
      answerers.emplace_back([this, r = c.rng.fork()]() mutable {
        for (;;) {
          std::function<void()> f;
          {
            std::lock_guard l(m);
            if (!held.empty()) {
              auto k = r.below(held.size());
              f = std::move(held[k]);
              held.erase(held.begin() + (long)k);
            } else if (done) {
              return;
            }
          }
          if (f) {
            mon::jitter(r);
            f();
          } else {
            mon::napUs(50);
          }
        }
      });
  }
  ~Provider() { finish(); }
  void finish() {
    done = true;
    for (auto &t : answerers)
      if (t.joinable()) t.join();
    answerers.clear();
  }
  template <class Request>
  void on(Req<typename Request::input> req, int salt) {
    using Out = typename Request::output;
    auto in = req.getInput();
    if (!in) {
      c.fail("input_lost", "a request arrived without its input");
      return;
    }
    auto serial = in->get_serial();
    c.log(1, (int64_t)serial);
    nHandled++;
    {
      std::lock_guard l(m);
      if (++handled[serial] != 1) c.fail("handled_twice", "request " + std::to_string(serial) + " was handled more than once");
    }
    c.expect(in->get_data() == dataOf(serial, salt), "input_changed", "input of request ", serial, " changed on its way");
    c.expect(req.valid(), "request_invalid", "a fresh request is not valid");
    auto p = planOf(serial);
    auto out = [serial, salt](int phase) { return Request::make_output(serial, phase, dataOf(serial * 7 + (uint64_t)phase, salt)); };
    for (int u = 1; u <= p.updates; ++u) {
      auto st = req.update(out(u));
      c.expect(st == ActionCallStatus::Success, "update_failed", "update of an open request failed");
    }
    auto finalAnswer = [this, serial, p, out](Req<typename Request::input> &rq) {
      ActionCallStatus st;
      switch (p.kind) {
        case Err:
        case UpdErr: st = rq.error(errText(serial), errOf(serial)); break;
        case Empty: st = rq.respond(); break;
        default: st = rq.respond(out(kFinal)); break;
      }
      c.expect(st == ActionCallStatus::Success, "respond_failed", "response to ", serial, " failed: ", (int)st);
      c.expect(!rq.valid(), "still_valid", "an answered request is still valid");
      if (p.kind == Twice) {
        nDoubles++;
        st = serial % 2 ? rq.respond(out(kFinal + 1)) : rq.error("second answer");
        c.expect(st != ActionCallStatus::Success, "second_answer", "a second answer was accepted");
        st = rq.update(out(kFinal + 2));
        c.expect(st != ActionCallStatus::Success, "second_answer", "an update after the answer was accepted");
      }
    };
    if (p.kind == Drop) return;  // the request answers itself
    if (p.kind == Race) {  // answered by several threads at once: one of them wins
      struct Shared {
        Req<typename Request::input> rq;
        std::atomic<int> won{0}, tries{0};
        explicit Shared(Req<typename Request::input> r) : rq(std::move(r)) {}
      };
      auto sh = std::make_shared<Shared>(std::move(req));
      nRaces++;
      std::lock_guard l(m);
      for (int k = 0; k < 2; ++k)
        held.insert(held.begin() + (long)(serial % (held.size() + 1)), [this, sh, out, serial] {
          if (sh->rq.respond(out(kFinal)) == ActionCallStatus::Success) sh->won++;
          if (++sh->tries == 2) c.expect(sh->won == 1, "race_winners", "request ", serial, " answered by two threads: ", sh->won.load(), " answers accepted");
        });
      return;
    }
    if (p.kind == Held || p.kind == UpdHeld) {
      nHeld++;
      auto keep = std::make_shared<Req<typename Request::input>>(std::move(req));
      std::lock_guard l(m);
      held.push_back([keep, finalAnswer] { finalAnswer(*keep); });
      return;
    }
    finalAnswer(req);
  }
  void registerAll() {
    bool ok = stub->template registerRequestHandler<echo_request::input>([this](Req<echo_request::input> r) { on<echo_request>(std::move(r), 1); });
    c.expect(ok, "handler_refused", "registering a request handler failed");
    ok = stub->template registerRequestHandler<twin_request::input>([this](Req<twin_request::input> r) { on<twin_request>(std::move(r), 2); });
    c.expect(ok, "handler_refused", "registering a request handler failed");
    ok = stub->template registerRequestHandler<ping_request>([this](Req<ping_request> r) {
      nPings++;
      c.expect(r.respond() == ActionCallStatus::Success, "respond_failed", "empty response failed");
    });
    c.expect(ok, "handler_refused", "registering a request handler failed");
    ok = stub->template registerRequestHandler<ping_request>([this](Req<ping_request> r) { c.fail("wrong_handler", "a refused handler was called"); });
    c.expect(!ok, "handler_replaced", "a second handler for one request was accepted");
  }
};

struct Track {
  std::atomic<int> responses{0}, updates{0};
  uint64_t serial = 0;
  int salt = 0;
  bool async = false;
};

template <class Resp>
void checkFinal(Ctx &c, const Resp &r, uint64_t serial, int salt, const char *how) {
  auto p = planOf(serial);
  if (p.kind == Err || p.kind == UpdErr || p.kind == Drop) {
    c.expect(r.isError() && r.getError(), "response_mixed", how, ": request ", serial, " must end with an error");
    if (r.isError() && r.getError()) {
      auto want = p.kind == Drop ? CSErrorCode::ResponseIgnored : errOf(serial);
      c.expect(r.getError()->code() == want, "response_mixed", how, ": error code of request ", serial, " is ", (int)r.getError()->code());
      if (p.kind != Drop)
        c.expect(r.getError()->description() == errText(serial), "response_mixed", how, ": error of request ", serial, " is `", r.getError()->description(), "`");
    }
    return;
  }
  c.expect(r.isOutput(), "response_mixed", how, ": request ", serial, " must end with an output",
           r.isError() && r.getError() ? ", got error " + r.getError()->description() : std::string());
  if (!r.isOutput()) return;
  auto o = r.getOutput();
  if (p.kind == Empty) {
    c.expect(!o, "response_mixed", how, ": the empty response of ", serial, " has contents");
    return;
  }
  c.expect(!!o, "response_mixed", how, ": response of ", serial, " has no contents");
  if (!o) return;
  c.expect(o->get_serial() == serial && o->get_phase() == kFinal, "response_mixed", how, ": request ", serial, " got the response of ", o->get_serial(),
           " phase ", o->get_phase());
  c.expect(o->get_data() == dataOf(serial * 7 + kFinal, salt), "response_changed", how, ": output of ", serial, " changed on its way");
}

template <class PT, class Request>
void sendAsync(Ctx &c, const std::shared_ptr<BasicProxy<PT>> &proxy, Track &t, Processor *expectOn) {
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  using Out = typename Request::output;
  auto reg = proxy->template sendRequestAsync<Out>(
      Request::make_input(t.serial, dataOf(t.serial, t.salt)),
      [&c, &t, expectOn](ResponseT<Out> r) {
        c.log(2, (int64_t)t.serial);
        if (expectOn) c.expect(this_processor::instance().get() == expectOn, "wrong_executor", "a response was not delivered by the requested executor");
        auto p = planOf(t.serial);
        c.expect(t.responses.load() == 0, "late_delivery", "request ", t.serial, " got something after its response");
        auto o = r.getOutput();
        if (o && o->get_phase() < kFinal) {
          auto n = ++t.updates;
          c.expect(o->get_serial() == t.serial && o->get_phase() == n, "update_order", "request ", t.serial, " got update ", o->get_phase(), " of ",
                   o->get_serial(), " as number ", n);
          c.expect(o->get_data() == dataOf(t.serial * 7 + (uint64_t)n, t.salt), "response_changed", "update of ", t.serial, " changed on its way");
          c.expect(n <= p.updates, "update_order", "more updates than sent");
          return;
        }
        c.expect(t.updates.load() == p.updates, "update_lost", "request ", t.serial, " got ", t.updates.load(), " of ", p.updates,
                 " updates before its response");
        checkFinal(c, r, t.serial, t.salt, "async");
        t.responses++;
      },
      &st);
  c.expect(st == ActionCallStatus::Success && reg.valid(), "send_failed", "sending request ", t.serial, " failed: ", (int)st);
}

template <class PT, class Request>
void sendSync(Ctx &c, const std::shared_ptr<BasicProxy<PT>> &proxy, Track &t, int timeoutMs) {
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  using Out = typename Request::output;
  auto r = proxy->template sendRequest<Out>(Request::make_input(t.serial, dataOf(t.serial, t.salt)), &st, ms{timeoutMs});
  c.log(3, (int64_t)t.serial);
  c.expect(st == ActionCallStatus::Success, "send_failed", "blocking request ", t.serial, " kind ", (int)planOf(t.serial).kind, " failed: ", (int)st);
  if (st == ActionCallStatus::Success) checkFinal(c, r, t.serial, t.salt, "sync");
  t.responses++;
}

// the client side workload of P15: returns when every request got its response
template <class PT>
void runClient(Ctx &c, std::vector<std::pair<std::shared_ptr<BasicProxy<PT>>, Processor *>> proxies, uint64_t base, int threads, int perThread) {
  std::vector<Track> tr((size_t)(threads * perThread));
  std::vector<std::thread> ths;
  mon::Gate gate;
  for (int t = 0; t < threads; ++t)
    ths.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int i = 0; i < perThread && !c.failed(); ++i) {
        auto &k = tr[(size_t)(t * perThread + i)];
        k.serial = base + (uint64_t)(t * perThread + i);
        k.salt = r.chance(50) ? 1 : 2;
        auto &[proxy, on] = proxies[r.below(proxies.size())];
        k.async = r.chance(60);
        if (r.chance(10)) {
          ActionCallStatus st = ActionCallStatus::FailedUnknown;
          auto rs = proxy->template sendRequest<ping_request>(&st);
          c.expect(st == ActionCallStatus::Success && !rs.isError() && !rs.getOutput(), "void_request", "empty request failed: ", (int)st);
        }
        if (r.chance(4)) {
          ActionCallStatus st = ActionCallStatus::FailedUnknown;
          auto rs = proxy->template sendRequest<orphan_request>(&st);
          c.expect(rs.isError() && rs.getError() && rs.getError()->code() == CSErrorCode::HandlerUnavailable, "orphan_request",
                   "a request without handler must be answered with an error, status ", (int)st);
          std::atomic<bool> called{false};
          if (on) {
            proxy->template sendRequestAsync<orphan_request>([&](auto rs) {
              c.expect(rs.isError(), "orphan_request", "a request without handler must be answered with an error");
              called = true;
            });
            c.expect(mon::eventually([&] { return called.load(); }), "orphan_request", "a request without handler was never answered");
            if (!called) mon::quit();
          }
        }
        if (k.async) {
          if (k.salt == 1) sendAsync<PT, echo_request>(c, proxy, k, on);
          else sendAsync<PT, twin_request>(c, proxy, k, on);
        } else {
          int to = r.chance(50) ? 0 : 30000;
          if (k.salt == 1) sendSync<PT, echo_request>(c, proxy, k, to);
          else sendSync<PT, twin_request>(c, proxy, k, to);
        }
        if (r.chance(20)) mon::jitter(r);
      }
    });
  gate.release();
  for (auto &t : ths) t.join();
  for (auto &k : tr) {
    if (c.failed()) break;
    bool ok = mon::eventually([&] { return k.responses.load() >= 1 || c.failed(); });
    c.expect(ok, "no_response", "request ", k.serial, " kind ", (int)planOf(k.serial).kind, " never got its response");
  }
  if (!c.failed()) mon::napUs(500);
  for (auto &k : tr) {
    if (c.failed()) break;
    c.expect(k.responses.load() == 1, "response_count", "request ", k.serial, " got ", k.responses.load(), " responses");
    c.observe("requests");
    if (k.async) c.observe("async_requests");
    c.observe("updates", (uint64_t)k.updates.load());
  }
  if (c.failed()) mon::quit();
}
}  // namespace cs
