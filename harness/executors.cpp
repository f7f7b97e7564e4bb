// P26: what is called back is called back through the executor it was given
#include "cs_work.h"

namespace cs {
struct Marked : maf::util::ExecutorIF {
  enum Mode { AtOnce, Later, Never };
  static thread_local Marked *current;
  const Mode mode;
  std::mutex m;
  std::deque<CallbackType> queue;
  std::atomic<uint64_t> given{0};
  uint64_t want = 0;  // only used by the main thread of a case
  explicit Marked(Mode mode) : mode(mode) {}
  void run(CallbackType f) {
    auto outer = current;
    current = this;
    f();
    f = nullptr;
    current = outer;
  }
  bool execute(CallbackType f) noexcept override {
    given++;
    if (mode == Never) return false;
    if (mode == AtOnce) {
      run(std::move(f));
    } else {
      std::lock_guard l(m);
      queue.push_back(std::move(f));
    }
    return true;
  }
  bool drain() {
    bool any = false;
    for (;;) {
      CallbackType f;
      {
        std::lock_guard l(m);
        if (queue.empty()) return any;
        f = std::move(queue.front());
        queue.pop_front();
      }
      run(std::move(f));
      any = true;
    }
  }
};
thread_local Marked *Marked::current = nullptr;
using MarkedPtr = std::shared_ptr<Marked>;

template <class PT>
void executors(Ctx &c) {
  Env<PT> env(c);
  auto &r = c.rng;
  using Proxy = typename Env<PT>::Proxy;
  using Stub = typename Env<PT>::Stub;
  std::vector<MarkedPtr> exs;
  auto addExecutor = [&] {
    exs.push_back(std::make_shared<Marked>(r.chance(50) ? Marked::AtOnce : r.chance(70) ? Marked::Later : Marked::Never));
    return exs.back();
  };
  for (int i = r.range(3, 5); i > 0; --i) addExecutor();
  auto anyEx = [&]() -> MarkedPtr & { return exs[r.below(exs.size())]; };

  auto base = env.stub(maf::util::directExecutor());
  base->template registerRequestHandler<ping_request>([](auto q) { q.respond(); });
  base->startServing();
  auto plain = env.proxy(maf::util::directExecutor());
  env.waitAvailable(plain);

  // both ends, with the executor each has by now
  std::vector<std::pair<Proxy, MarkedPtr>> proxies;
  std::vector<std::pair<Stub, MarkedPtr>> stubs;
  for (int i = r.range(2, 4); i > 0; --i) {
    auto ex = anyEx();
    proxies.emplace_back(r.chance(50) ? env.proxy(ex) : plain->with(ex), ex);
  }
  for (int i = r.range(2, 3); i > 0; --i) {
    auto ex = anyEx();
    stubs.emplace_back(r.chance(50) ? env.stub(ex) : base->with(ex), ex);
  }
  c.expect(plain->getExecutor() == maf::util::directExecutor() && base->getExecutor() == maf::util::directExecutor(), "executor_kept",
           "with() changed the executor of the one it was made from");

  enum What { Level, Tick, Nothing, NWhat };
  struct Reg {
    MarkedPtr ex;
    const char *name = "";
    int what = 0;
    bool open = true, optional = false;
    RegID id;
    signal_slots::Connection con;
    uint64_t want = 0;
    std::atomic<uint64_t> calls{0}, elsewhere{0};
  };
  using RegPtr = std::shared_ptr<Reg>;
  std::vector<RegPtr> regs;
  auto makeReg = [&](MarkedPtr ex, const char *name) {
    auto x = std::make_shared<Reg>();
    x->ex = std::move(ex), x->name = name;
    regs.push_back(x);
    return x;
  };
  auto onCall = [](const RegPtr &x) {
    return [x] {
      if (Marked::current != x->ex.get()) x->elsewhere++;
      x->calls++;
    };
  };
  // it was given to the executor this many times more
  auto expectCalls = [](const RegPtr &x, uint64_t n = 1) {
    x->ex->want += n;
    if (x->ex->mode != Marked::Never) x->want += n;
  };
  std::string did;
  auto note = [&](std::string what) {
    did += " " + what;
    if (did.size() > 300) did.erase(0, did.size() - 300);
  };
  auto settleAll = [&] {
    for (bool more = true; more;) {
      more = false;
      // a handler's executor might have just answered
      for (int i = 0; i < 2; ++i) env.fence(plain);
      for (auto &e : exs) more |= e->drain();
    }
  };
  auto check = [&] {
    settleAll();
    for (auto &x : regs) {
      if (x->elsewhere) c.fail("elsewhere", std::string(x->name) + " was called outside of its executor after:" + did);
      if (x->calls != x->want)
        c.fail("calls", std::string(x->name) + (x->open ? "" : " (ended)") + " was called " + std::to_string(x->calls) + " times instead of " + std::to_string(x->want) +
                            " after:" + did);
      if (c.failed()) return;
    }
    for (auto &e : exs)
      if (e->given != e->want) {
        c.fail("given", "an executor was given " + std::to_string(e->given) + " callbacks instead of " + std::to_string(e->want) + " after:" + did);
        return;
      }
    c.observe("executor_checks");
  };

  struct Handler {
    MarkedPtr ex;
    RegPtr reg;
  } handler;
  uint64_t seq = 1;
  c.expect(base->template setStatus<level_status>(1, seq, dataOf(seq, 1)) == ActionCallStatus::Success, "set", "setting a status failed");
  auto tellAll = [&](int what) {
    for (auto &x : regs)
      if (x->open && x->what == what && (x->id.valid() || x->con.connected())) expectCalls(x);
  };
  const int steps = c.thorough ? 200 : 90;
  for (int n = 0; n < steps && !c.failed(); ++n) {
    auto &[proxy, pex] = proxies[r.below(proxies.size())];
    auto &[stub, sex] = stubs[r.below(stubs.size())];
    auto op = r.below(100);
    env.fence(plain);
    if (op < 18) {  // a callback at a client
      auto what = (int)r.below(NWhat);
      auto x = makeReg(pex, what == Level ? "a status callback" : what == Tick ? "a signal callback" : "a callback of an empty signal");
      x->what = what;
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      note("sub" + std::to_string(what));
      if (what == Level) {
        expectCalls(x);
        x->id = proxy->template registerStatus<level_status>([f = onCall(x)](const auto &) { f(); }, &st);
      } else if (what == Tick) {
        x->id = proxy->template registerSignal<tick_attributes>([f = onCall(x)](const auto &) { f(); }, &st);
      } else {
        x->id = proxy->template registerSignal<nothing_signal>(std::function<void()>(onCall(x)), &st);
      }
      c.expect(st == ActionCallStatus::Success && x->id.valid(), "register", "registering failed: ", (int)st);
      c.observe("client_callbacks");
    } else if (op < 26) {  // a listener at the provider
      auto what = (int)r.below(NWhat);
      auto x = makeReg(sex, what == Level ? "a status listener" : what == Tick ? "a signal listener" : "a listener of an empty signal");
      x->what = what;
      note("listen" + std::to_string(what));
      if (what == Level) x->con = stub->template registerNotification<level_status>([f = onCall(x)](const auto &) { f(); });
      else if (what == Tick) x->con = stub->template registerNotification<tick_attributes>([f = onCall(x)](const auto &) { f(); });
      else x->con = stub->template registerNotification<nothing_signal>(std::function<void()>(onCall(x)));
      c.expect(x->con.connected(), "register", "a listener was refused");
      c.observe("listeners");
    } else if (op < 44) {  // tells all of one kind
      auto what = (int)r.below(NWhat);
      ++seq;
      note("tell" + std::to_string(what));
      tellAll(what);
      if (what == Level) stub->template setStatus<level_status>(1, seq, dataOf(seq, 1));
      else if (what == Tick) stub->template broadcastSignal<tick_attributes>(1, seq, dataOf(seq, 1));
      else stub->template broadcastSignal<nothing_signal>();
      c.observe("told");
    } else if (op < 52) {
      auto x = makeReg(pex, "a callback of getStatus");
      x->open = false;
      expectCalls(x);
      note("get");
      auto st = proxy->template getStatus<level_status>([f = onCall(x)](const auto &) { f(); });
      c.expect(st == ActionCallStatus::Success, "get", "asking for a status failed: ", (int)st);
      c.observe("asked");
    } else if (op < 66) {  // a request
      auto x = makeReg(pex, "a response callback");
      x->open = false;
      auto updates = r.below(4);
      bool refused = handler.ex && handler.ex->mode == Marked::Never;
      if (handler.ex) expectCalls(handler.reg);
      expectCalls(x, handler.ex && !refused ? updates + 1 : 1);
      note("request");
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      auto id = proxy->template sendRequestAsync<echo_request::output>(
          echo_request::make_input(++seq, std::string(updates, 'u')),
          [f = onCall(x), &c, refused, handled = !!handler.ex](const auto &rs) {
            if (rs.isError() != (refused || !handled)) c.fail("response", rs.isError() ? "a request was answered with an error" : "a request nobody handled was answered");
            f();
          },
          &st);
      c.expect(st == ActionCallStatus::Success && id.valid(), "send", "sending failed: ", (int)st);
      c.observe("requests");
    } else if (op < 72) {  // another handler
      if (handler.ex) {
        settleAll();
        c.expect(stub->template unregisterRequestHandler<echo_request>(), "handler", "unregistering a handler failed");
        handler = {};
        note("nohandler");
      }
      if (r.chance(80)) {
        handler.ex = sex;
        handler.reg = makeReg(sex, "a request handler");
        handler.reg->open = false;
        note("handler");
        bool ok = stub->template registerRequestHandler<echo_request::input>([f = onCall(handler.reg)](auto q) {
          f();
          auto in = q.getInput();
          if (!in) return;
          for (size_t u = 0; u < in->get_data().size(); ++u) q.update(echo_request::make_output(in->get_serial(), (int)u, "u"));
          q.respond(echo_request::make_output(in->get_serial(), kFinal, "final"));
        });
        c.expect(ok, "handler", "registering a handler failed");
        c.observe("handlers");
      }
    } else if (op < 84) {  // what is registered keeps its executor
      auto ex = r.chance(20) ? addExecutor() : anyEx();
      if (r.chance(60)) {
        note("setexec");
        if (r.chance(20)) {
          auto clients = regs.size();
          proxy->setExecutor(nullptr);
          ActionCallStatus st = ActionCallStatus::Success;
          auto id = proxy->template registerStatus<level_status>([&c](const auto &) { c.fail("no_executor", "a callback without executor was called"); }, &st);
          c.expect(!id.valid() && st == ActionCallStatus::InvalidParam, "no_executor", "a callback without executor was registered");
          c.expect(!proxy->getExecutor() && clients == regs.size(), "executor_kept", "an executor can't be taken away");
          c.observe("without_executor");
        }
        proxy->setExecutor(ex);
        pex = ex;
        c.expect(proxy->getExecutor() == ex, "executor_kept", "a proxy does not have the executor it was given");
      } else {
        note("setstubexec");
        stub->setExecutor(ex);
        sex = ex;
        c.expect(stub->getExecutor() == ex, "executor_kept", "a stub does not have the executor it was given");
        if (r.chance(30)) {
          stub->setExecutor(nullptr);
          c.expect(stub->getExecutor() == ex, "executor_kept", "the executor of a stub was taken away");
        }
      }
      c.observe("executor_changes");
    } else if (op < 90) {
      auto ex = anyEx();
      note("with");
      if (r.chance(60)) proxies.emplace_back(proxies[r.below(proxies.size())].first->with(ex), ex);
      else stubs.emplace_back(stubs[r.below(stubs.size())].first->with(ex), ex);
      c.observe("derived");
    } else {  // one less
      std::vector<RegPtr> open;
      for (auto &x : regs)
        if (x->open) open.push_back(x);
      if (open.empty()) continue;
      auto x = open[r.below(open.size())];
      note("unsub" + std::to_string(x->what));
      x->open = false;
      if (x->id.valid()) c.expect(proxies[r.below(proxies.size())].first->unregister(x->id) == ActionCallStatus::Success, "unregister", "unregistering failed");
      else x->con.disconnect();
      c.observe("ended");
    }
    for (auto &[p, e] : proxies)
      if (p->getExecutor() != e) c.fail("executor_kept", "a proxy lost its executor after:" + did);
    if (r.chance(30)) check();
    c.log(26, (int64_t)op);
  }
  check();
  for (auto &x : regs) x->con.disconnect();
  if (handler.ex) base->template unregisterRequestHandler<echo_request>();
  base->stopServing();
  env.settle(plain);
  base->template unregisterRequestHandler<ping_request>();
  for (auto &e : exs) e->drain();
  c.nontrivial();
  c.sign();
}
}  // namespace cs

SCENARIO(cs_executors) { cs::executors<cs::Itc>(c); }
SCENARIO(ipc_executors) { cs::executors<cs::Ipc>(c); }
