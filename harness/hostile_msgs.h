// P24: a service and its clients get messages nobody of the library would send
#pragma once
#include <sys/resource.h>

#include "cs_work.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSender.h"
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"

namespace cs {
namespace hostile {
namespace local = maf::messaging::ipc::local;

// any bytes as payload
struct Blob : local::OutgoingPayload {
  std::string bytes;
  CSPayloadType t;
  Blob(std::string b, CSPayloadType t) : bytes(std::move(b)), t(t) {}
  CSPayloadType type() const override { return t; }
  bool equal(const CSMsgPayloadIF *) const override { return false; }
  CSMsgPayloadIF *clone() const override { return new Blob(bytes, t); }
  void dump(std::ostream &) const override {}
  bool serialize(maf::srz::OByteStream &os) const override {
    os.write(bytes.data(), bytes.size());
    return true;
  }
};

// what the service sends to the attacker
struct Sink : maf::messaging::ipc::BytesComeObserver {
  local::LocalIPCBufferReceiver rx;
  std::thread th;
  std::atomic<uint64_t> n{0};
  bool up = false;
  explicit Sink(const Address &a) {
    rx.setObserver(this);
    up = rx.init(a);
    if (up) th = std::thread([this] { rx.start(); });
  }
  void onBytesCome(maf::srz::Buffer &&) override { n++; }
  ~Sink() {
    if (up) {
      rx.stop();
      th.join();
    }
  }
};

inline std::string randomBytes(Rng &r, size_t n) {
  std::string s(n, 0);
  int mode = (int)r.below(3);
  for (auto &ch : s) ch = mode == 0 ? (char)r.below(256) : mode == 1 ? (char)r.below(3) : (char)(0xf0 + r.below(16));
  return s;
}

template <class Content>
std::string encoded(const std::shared_ptr<Content> &p) {
  maf::srz::OByteStream os;
  maf::srz::SR<maf::srz::OByteStream> sr(os);
  sr << p;
  return os.bytes();
}

inline std::string payloadBytes(Rng &r) {
  std::string b;
  switch (r.below(5)) {
    case 0: return randomBytes(r, r.below(200));
    case 1: b = encoded(echo_request::make_input(r.next(), dataOf(r.below(50)))); break;
    case 2: b = encoded(std::make_shared<other_status>((int)r.below(9), r.next(), dataOf(r.below(50)))); break;
    case 3: b = encoded(std::make_shared<tock_attributes>((int)r.below(9), r.next(), dataOf(r.below(50)))); break;
    default: b = encoded(std::make_shared<echo_request::output>(r.next(), 3, dataOf(r.below(50)))); break;
  }
  if (r.chance(40) && !b.empty()) b.resize(r.below(b.size()));
  if (r.chance(40) && !b.empty())
    for (int k = r.range(1, 4); k; --k) b[r.below(b.size())] = (char)r.below(256);
  return b;
}

inline CSPayloadIFPtr payload(Rng &r) {
  switch (r.below(6)) {
    case 0: return {};
    case 1: return std::make_shared<CSError>(randomBytes(r, r.below(100)), (CSErrorCode)(int)r.below(300));
    case 2: return std::make_shared<Blob>(payloadBytes(r), CSPayloadType::IncomingData);
    case 3: {
      auto t = (CSPayloadType)r.below(256);
      return std::make_shared<Blob>(payloadBytes(r), t == CSPayloadType::Error ? CSPayloadType::NA : t);
    }
    default: return std::make_shared<Blob>(payloadBytes(r), CSPayloadType::OutgoingData);
  }
}
inline std::atomic<uint64_t> gTouched{0};
inline void touch(const std::string &s) {
  uint64_t h = 0;
  for (char ch : s) h = h * 31 + (unsigned char)ch;
  gTouched += h | 1;
}
inline double cpuSeconds() {
  rusage u{};
  getrusage(RUSAGE_SELF, &u);
  return (double)u.ru_utime.tv_sec + (double)u.ru_stime.tv_sec + 1e-6 * ((double)u.ru_utime.tv_usec + (double)u.ru_stime.tv_usec);
}
}  // namespace hostile

inline void hostileMessages(Ctx &c) {
  using namespace hostile;
  Env<Ipc> env(c);
  Procs procs;
  std::shared_ptr<PoolExec> pool;
  ExecutorIFPtr ex;
  switch (c.rng.below(3)) {
    case 0: ex = maf::util::directExecutor(); break;
    case 1: ex = procs.add()->getExecutor(); break;
    default: ex = pool = std::make_shared<PoolExec>(2); break;
  }
  Address myAddr(env.addr.get_name() + std::to_string(getpid()), env.addr.get_port());   // the client's
  std::vector<std::unique_ptr<Sink>> sinks;
  std::vector<Address> sources{Address("mafv.nobody", 3), Address("", 0), Address(std::string(300, 'x'), 1), Address("mafv.nobody2", -1)};
  int ns = c.rng.range(0, 2);
  for (int i = 0; i < ns; ++i) {
    Address a(hp::uniqueId(c, "mafvsink" + std::to_string(getpid())), 1);
    sinks.push_back(std::make_unique<Sink>(a));
    c.expect(sinks.back()->up, "init", "no receiver at a free address");
    sources.push_back(a);
    sources.push_back(a);
  }
  auto stub = env.stub(ex);
  std::atomic<uint64_t> odd{0}, kept{0};
  std::mutex m;
  std::vector<EchoReq<Ipc>> held;
  stub->registerRequestHandler<echo_request::input>([&](EchoReq<Ipc> r) {
    auto in = r.getInput();
    if (!in || in->get_data() != dataOf(in->get_serial())) {
      odd++;
      if (in) touch(in->get_data());
      switch (odd % 4) {
        case 0: r.error("odd"); break;
        case 1: {
          std::lock_guard l(m);
          held.push_back(std::move(r));
          kept++;
          break;
        }
        case 2: r.update<echo_request::output>(uint64_t{1}, 1, std::string("odd")); [[fallthrough]];
        default: r.respond<echo_request::output>(uint64_t{1}, kFinal, std::string("odd")); break;
      }
      return;
    }
    r.respond<echo_request::output>(in->get_serial(), kFinal, in->get_data());
  });
  stub->registerRequestHandler<ping_request>([](BasicStub<Ipc>::Request<ping_request> r) { r.respond(); });
  stub->setStatus<level_status>(0, uint64_t{0}, dataOf(0));
  stub->setStatus<other_status>(0, uint64_t{0}, dataOf(0));
  stub->startServing();
  auto proxy = env.proxy(maf::util::directExecutor());
  env.waitAvailable(proxy);

  std::atomic<uint64_t> oddNotes{0}, levels{0}, ticks{0}, lastLevel{0}, lastTick{0};
  auto r1 = proxy->registerStatus<level_status>([&](const std::shared_ptr<level_status> &s) {
    if (!s || s->get_data() != dataOf(s->get_seq()) || (s->get_seq() <= lastLevel && lastLevel)) c.fail("status_wrong", "a status nobody set was told");
    else lastLevel = s->get_seq();
    levels++;
  });
  auto r2 = proxy->registerSignal<tick_attributes>([&](const std::shared_ptr<tick_attributes> &s) {
    if (!s || s->get_data() != dataOf(s->get_seq()) || s->get_seq() != lastTick + 1) c.fail("signal_wrong", "a signal nobody sent was told, or one was lost");
    else lastTick = s->get_seq();
    ticks++;
  });
  auto r3 = proxy->registerStatus<other_status>([&](const std::shared_ptr<other_status> &s) {
    if (s) touch(s->get_data());
    oddNotes++;
  });
  auto r4 = proxy->registerSignal<tock_attributes>([&](const std::shared_ptr<tock_attributes> &s) {
    if (s) touch(s->get_data());
    oddNotes++;
  });
  auto r5 = proxy->registerSignal<nothing_signal>([&] { oddNotes++; });
  c.expect(r1.valid() && r2.valid() && r3.valid() && r4.valid() && r5.valid(), "register", "registering failed");
  env.fence(proxy);

  std::atomic<bool> quit{false};
  std::atomic<uint64_t> toServer{0}, toClient{0}, refused{0};
  auto opEcho = Ipc::getOperationID<echo_request::input>(), opOther = Ipc::getOperationID<other_status>(),
       opTock = Ipc::getOperationID<tock_attributes>(), opNothing = Ipc::getOperationID<nothing_signal>(),
       opTwin = Ipc::getOperationID<twin_request::input>(), opLevel = Ipc::getOperationID<level_status>();
  std::vector<std::thread> ts;
  int na = c.rng.range(1, 3);
  for (int a = 0; a < na; ++a)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      local::LocalIPCBufferSender tx;
      for (int k = c.thorough ? 400 : 120; k; --k) {
        bool server = r.chance(60);
        maf::srz::Buffer bytes;
        if (r.chance(7)) {
          bytes = randomBytes(r, r.below(150));
        } else {
          auto op = std::string(r.chance(60) ? (server ? opEcho : opOther) : r.chance(30) ? opTock : r.chance(30) ? opOther : r.chance(30) ? opNothing
                                : r.chance(30) ? opTwin : server ? std::string(opLevel) : randomBytes(r, r.below(20)));
          auto code = (OpCode)(r.chance(90) ? (int)r.below(10) : (int)r.below(256));
          auto sid = r.chance(85) ? env.sid : r.chance(50) ? ServiceID{} : randomBytes(r, r.below(30));
          // nobody may end the service in the name of its server
          if (!server && (sid == env.sid || sid.empty()) && code == OpCode::ServiceStatusUpdate) code = OpCode::SignalRegister;
          // nor answer in its name
          auto id = server ? r.below(60) : r.chance(50) ? RequestIDInvalid : (uint64_t)1 << 40 | r.below(100);
          auto msg = maf::messaging::createCSMessage<local::LocalIPCMessage>(sid, op, code, id, payload(r), sources[r.below(sources.size())]);
          bytes = msg->toBytes();
          if (r.chance(15) && !bytes.empty()) bytes.resize(r.below(bytes.size()));
        }
        auto st = tx.send(bytes, server ? env.addr : myAddr);
        if (st == ActionCallStatus::Success) (server ? toServer : toClient)++;
        else refused++;
        if (r.chance(10)) mon::napUs((int)r.below(1000));
      }
    });
  // the well behaved ones
  std::atomic<uint64_t> good{0};
  for (int t = 0; t < 2; ++t)
    ts.emplace_back([&, t, r = c.rng.fork()]() mutable {
      for (int k = 0; k < (c.thorough ? 100 : 30) && !c.failed(); ++k) {
        auto s = c.idx << 20 | (uint64_t)t << 16 | (uint64_t)k;
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        auto rs = proxy->sendRequest<echo_request::output>(echo_request::make_input(s, dataOf(s)), &st, ms{20000});
        c.expect(st == ActionCallStatus::Success, "starved", "a request failed next to hostile messages: ", (int)st);
        c.expect(rs.isOutput() && rs.getOutput() && rs.getOutput()->get_serial() == s && rs.getOutput()->get_data() == dataOf(s), "response_mixed",
                 "a request got a wrong answer next to hostile messages");
        good++;
        if (r.chance(30)) mon::napUs((int)r.below(1000));
      }
    });
  uint64_t nTicks = c.thorough ? 60 : 25;
  ts.emplace_back([&, r = c.rng.fork()]() mutable {
    for (uint64_t k = 1; k <= nTicks; ++k) {
      stub->broadcastSignal<tick_attributes>(0, k, dataOf(k));
      stub->setStatus<level_status>(0, k, dataOf(k));
      if (r.chance(20)) stub->setStatus<other_status>(1, k, dataOf(k));
      if (r.chance(20)) stub->broadcastSignal<tock_attributes>(1, k, dataOf(k));
      mon::napUs((int)r.below(500));
    }
  });
  for (auto &t : ts) t.join();
  env.fence(proxy);
  std::vector<EchoReq<Ipc>> late;
  {
    std::lock_guard l(m);
    late.swap(held);
  }
  for (auto &q : late) q.respond<echo_request::output>(uint64_t{1}, kFinal, std::string("late"));
  late.clear();
  bool told = mon::eventually([&] { return lastTick == nTicks && lastLevel == nTicks; }, 20000);
  c.expect(told, "lost", "signals up to ", lastTick.load(), " and statuses up to ", lastLevel.load(), " of ", nTicks, " were told next to hostile messages");
  if (c.rng.chance(15)) {
    int busy = 0;
    for (int i = 0; i < 4; ++i) {
      auto t0 = sclk::now();
      double c0 = cpuSeconds();
      mon::napUs(60000);
      if ((cpuSeconds() - c0) / std::chrono::duration<double>(sclk::now() - t0).count() > 0.5) ++busy;
    }
    c.expect(busy < 4, "spin", "the service keeps spinning after hostile messages");
    c.observe("idle_cpu_checks");
  }
  // still serves newcomers
  auto again = env.proxy(maf::util::directExecutor());
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  auto lv = again->getStatus<level_status>(&st, ms{20000});
  c.expect(st == ActionCallStatus::Success && lv && lv->get_seq() == nTicks, "status_wrong", "the status after hostile messages: ", (int)st);
  proxy->unregister(r1);
  proxy->unregister(r2);
  proxy->unregister(r3);
  proxy->unregister(r4);
  proxy->unregister(r5);
  c.observe("hostile_to_server", toServer.load());
  c.observe("hostile_to_client", toClient.load());
  c.observe("hostile_requests", odd.load());
  c.observe("hostile_kept", kept.load());
  c.observe("odd_notifications", oddNotes.load());
  c.observe("good_requests", good.load());
  for (auto &s : sinks) c.observe("told_attackers", s->n.load());
  c.nontrivial();
  c.sign(odd * 1000003 + oddNotes * 31 + levels);
  stub->stopServing();
  stub->unregisterRequestHandler<echo_request>();
  stub->unregisterRequestHandler<ping_request>();
  env.settle(proxy);
  if (pool) pool->stop();
}
}  // namespace cs
