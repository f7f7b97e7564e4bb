// P03: message handlers
#include "proc_common.h"
using namespace hp;

namespace {
constexpr int kTypes = 4;
struct Probe { int x; };

// Reference model of handlers, checked against what really happened.
struct H {
  int type;
  MsgConnection con;
  bool conn = true;          // connected now
  bool limbo = false;        // whether it can come back before the emission in progress ends is unspecified
  bool dead = false;         // its type was disconnected as a whole: can not come back
  bool owner = true;         // a MsgConnection exists
  // about the emission in progress
  int calls = 0;
  bool atStart = false;
  bool touched = false;      // (re)connected during the emission
  bool limboBack = false;
};
struct Msg {
  int type;
  int v;
};
struct World {
  Ctx &c;
  ProcessorInstance p;
  std::vector<std::unique_ptr<H>> hs;
  std::vector<Msg> q;        // accepted messages in order
  size_t processed = 0;
  bool emitting = false;
  int curType = -1, curVal = -1;
  int depthOps = 0;
  World(Ctx &c) : c(c), p(Processor::create()) {}

  int connectedOf(int t) {
    int n = 0;
    for (auto &h : hs) n += h->type == t && h->conn;
    return n;
  }
  template <int N>
  MsgConnection makeCon(H *h, bool empty) {
    if (empty) return p->connect<Typed<N>>(EmptyMsgProcessingCallback([this, h] { called(h, N, curVal, payload(curVal, N)); }));
    return p->connect<Typed<N>>(
        SpecificMsgProcessingCallback<Typed<N>>([this, h](const Typed<N> &m) { called(h, N, m.v, m.data); }));
  }
  void connectNew(int t) {
    hs.push_back(std::make_unique<H>());
    auto *h = hs.back().get();
    h->type = t;
    h->touched = emitting;
    bool e = c.rng.chance(30);
    switch (t) {
      case 0: h->con = makeCon<0>(h, e); break;
      case 1: h->con = makeCon<1>(h, e); break;
      case 2: h->con = makeCon<2>(h, e); break;
      default: h->con = makeCon<3>(h, e); break;
    }
    c.expect(h->con.connected(), "connected", "fresh connection is not connected");
    if (c.rng.chance(15)) { h->owner = false; h->con = MsgConnection{}; }  // nobody keeps the connection
    c.observe("connects");
  }
  void disc(H *h) {
    if (!h->owner) return;
    h->con.disconnect();
    c.expect(!h->con.connected(), "connected", "connection still connected after disconnect");
    h->conn = false;
    h->limboBack = false;
    c.observe("disconnects");
  }
  void reconn(H *h) {
    if (!h->owner) return;
    h->con.reconnect();
    if (h->limbo) { h->limboBack = true; h->touched = true; return; }
    if (!h->conn && !h->dead) { h->conn = true; h->touched = true; }
    c.expect(h->con.connected() == h->conn, "reconnect", "connected() ", h->con.connected(), " after reconnect, expected ", h->conn);
    c.observe("reconnects");
  }
  void discType(int t) {
    switch (t) {
      case 0: p->disconnect<Typed<0>>(); break;
      case 1: p->disconnect<Typed<1>>(); break;
      case 2: p->disconnect<Typed<2>>(); break;
      default: p->disconnect<Typed<3>>(); break;
    }
    for (auto &h : hs)
      if (h->type == t) {
        if (emitting && t == curType) h->limbo = true;
        h->dead = true;
        h->conn = false;
      }
    c.observe("type_disconnects");
  }
  bool isConn(int t) {
    switch (t) {
      case 0: return p->connected<Typed<0>>();
      case 1: return p->connected<Typed<1>>();
      case 2: return p->connected<Typed<2>>();
      default: return p->connected<Typed<3>>();
    }
  }
  template <int N>
  bool postN(int v) {
    if (c.rng.chance(30)) {
      // waitable outside of the processor's thread: this thread does not run it now
      return p->post(makeMessage<Typed<N>>(v, payload(v, N)));
    }
    return p->post<Typed<N>>(v, payload(v, N));
  }
  int val = 0;
  void post(int t) {
    int v = val++;
    bool ok = t == 0 ? postN<0>(v) : t == 1 ? postN<1>(v) : t == 2 ? postN<2>(v) : postN<3>(v);
    c.expect(ok == (connectedOf(t) > 0), "post-result", "post returned ", ok, " with ", connectedOf(t), " connected handlers");
    if (ok) q.push_back({t, v});
    c.observe("posts");
  }
  void op() {
    int k = (int)c.rng.below(20);
    if (hs.empty() || k < 3) connectNew((int)c.rng.below(kTypes));
    else if (k < 7) disc(pick());
    else if (k < 11) reconn(pick());
    else if (k < 12) { if (c.rng.chance(50)) discType((int)c.rng.below(kTypes)); }
    else if (k < 14) {  // move the connection around
      auto *h = pick();
      MsgConnection tmp(std::move(h->con));
      c.expect(!h->con.connected(), "moved", "moved-from connection is connected");
      h->con = std::move(tmp);
      c.expect(!h->owner || h->limboBack || h->con.connected() == h->conn, "moved", "moved connection lost its state");
    } else if (k < 15) {  // dropping the connection object keeps a connected handler
      auto *h = pick();
      h->con = MsgConnection{};
      h->owner = false;
    } else post((int)c.rng.below(kTypes));
  }
  H *pick() { return hs[c.rng.below(hs.size())].get(); }

  void called(H *h, int type, int v, const std::string &data) {
    c.expect(emitting, "ran-outside", "handler called outside of processing");
    c.expect(type == h->type && type == curType, "wrong-type", "handler of type ", h->type, " got ", type, " during ", curType);
    c.expect(v == curVal && data == payload(curVal, type), "payload", "wrong message: ", v, " expected ", curVal);
    c.expect(h->conn || h->limboBack, "disconnected-called", "a disconnected handler was called");
    h->calls++;
    c.log(1, type, v, h->calls);
    int n = c.rng.chance(40) ? c.rng.range(1, 3) : 0;
    for (int i = 0; i < n; ++i) op();
  }
  void runOne() {
    if (processed >= q.size()) return;
    auto m = q[processed++];
    emitting = true;
    curType = m.type;
    curVal = m.v;
    for (auto &h : hs) {
      h->calls = 0;
      h->atStart = h->conn && h->type == m.type;
      h->touched = false;
      h->limbo = h->limboBack = false;
    }
    bool r = p->runOnceFor(us{0});
    emitting = false;
    for (auto &h : hs) h->limbo = h->limboBack = false;
    c.expect(r, "not-processed", "an accepted message was not pending");
    for (auto &h : hs) {
      if (h->type != m.type) { c.expect(h->calls == 0, "wrong-type", "x"); continue; }
      c.expect(h->calls <= 1 || h->touched, "twice", "handler called ", h->calls, " times for one message");
      if (h->atStart && h->conn && !h->touched)
        c.expect(h->calls == 1, "missed", "connected handler called ", h->calls, " times");
      if (!h->atStart && !h->touched) c.expect(h->calls == 0, "disconnected-called", "x");
    }
    c.observe("emissions");
  }
};
}  // namespace

SCENARIO(handlers_model) {
  World w(c);
  const int steps = c.rng.range(20, c.thorough ? 300 : 120);
  for (int i = 0; i < 3; ++i) w.connectNew((int)c.rng.below(kTypes));
  for (int i = 0; i < steps; ++i) {
    if (c.rng.chance(45)) w.runOne();
    else w.op();
    for (int t = 0; t < kTypes; ++t)
      c.expect(w.isConn(t) == (w.connectedOf(t) > 0), "type-connected", "connected<type>() is ", w.isConn(t), " with ",
               w.connectedOf(t), " connected handlers");
    for (auto &h : w.hs)
      if (h->owner) c.expect(h->con.connected() == h->conn, "connected", "connection reports ", h->con.connected());
    if (c.failed()) return;
  }
  for (int i = 0; i < 200 && w.processed < w.q.size(); ++i) w.runOne();
  c.nontrivial();
  c.sign();
  c.note("handlers=" + std::to_string(w.hs.size()) + " messages=" + std::to_string(w.q.size()));
  // connections outlive the processor
  std::vector<MsgConnection> left;
  for (auto &h : w.hs) left.push_back(std::move(h->con));
  w.p.reset();
  for (auto &l : left) {
    c.expect(!l.connected(), "outlive", "connected after the processor is gone");
    l.disconnect();
    l.reconnect();
    c.expect(!l.connected(), "outlive", "x");
  }
}

// Threads (dis)connect their handlers while others post.
SCENARIO(handlers_mt) {
  AsyncProcessor ap(Processor::create());
  auto p = ap.instance();
  ap.launch();
  const int nPost = c.rng.range(1, 3), nConn = c.rng.range(1, 3), rounds = c.thorough ? 40 : 15;
  std::atomic<bool> stop{false};
  std::atomic<int> always{0}, posted{0};
  std::atomic<int> lastBy[8];
  for (auto &l : lastBy) l = -1;
  auto keep = p->connect<Item>([&](const Item &i) {
    c.expect(i.ok(), "payload", "payload");
    c.expect(i.seq == lastBy[i.sender].load(std::memory_order_relaxed) + 1, "fifo", "lost or reordered message");
    lastBy[i.sender].store(i.seq, std::memory_order_relaxed);
    always++;
  });
  std::vector<std::thread> ts, cs;
  for (int s = 0; s < nPost; ++s)
    ts.emplace_back([&, s, r = c.rng.fork()]() mutable {
      int q = 0;
      while (!stop) {
        c.expect(p->post<Item>(item(s, q++)), "refused", "message refused although a handler is connected");
        posted++;
        if (r.chance(20)) mon::jitter(r);
        if (q % 64 == 0) p->waitableExecute([] {}).wait();
      }
    });
  for (int k = 0; k < nConn; ++k)
    cs.emplace_back([&, k, r = c.rng.fork()]() mutable {
      for (int i = 0; i < rounds; ++i) {
        struct St { std::atomic<bool> off{false}; std::atomic<int> calls{0}, probe{0}; };
        auto st = std::make_shared<St>();
        auto con = p->connect<Item>([&c, st](const Item &m) {
          c.expect(m.ok(), "payload", "payload");
          c.expect(!st->off.load(), "called-after-disconnect", "handler called after its disconnect returned");
          st->calls++;
        });
        for (int j = r.range(0, 3); j >= 0; --j) {
          // my own probe message while connected: must be seen exactly once
          auto con2 = p->connect<Probe>([st, me = k * 1000 + i](const Probe &m) { if (m.x == me) st->probe++; });
          int before = st->probe;
          auto s = p->waitablePost<Probe>(k * 1000 + i);
          c.expect(s.valid(), "refused", "probe refused");
          if (s.valid()) s.wait();
          c.expect(st->probe == before + 1, "probe", "handler called ", st->probe - before, " times for one message");
          con2.disconnect();
          mon::jitter(r);
          st->off = false;
          con.disconnect();
          st->off = true;
          c.expect(!con.connected(), "connected", "x");
          mon::jitter(r);
          st->off = false;
          con.reconnect();
          c.expect(con.connected(), "reconnect", "reconnect failed");
        }
        con.disconnect();
        st->off = true;
        c.observe("mt_handlers");
      }
    });
  for (auto &t : cs) t.join();
  stop = true;
  for (auto &t : ts) t.join();
  p->waitableExecute([] {}).wait();
  c.expect(always == posted, "lost", "posted ", posted.load(), " handled ", always.load());
  c.observe("mt_messages", posted);
  c.sign((uint64_t)posted * 31 + nPost);
  c.nontrivial();
}

// messages whose handlers are gone when they are processed; handlers that stop the processor
SCENARIO(handlers_edge) {
  auto p = Processor::create();
  int a = 0, b = 0;
  auto c1 = p->connect<Probe>([&](const Probe &) { a++; });
  auto c2 = p->connect<Probe>([&](const Probe &) { b++; });
  int n = c.rng.range(1, 6);
  for (int i = 0; i < n; ++i) c.expect(p->post<Probe>(i), "refused", "x");
  int cut = c.rng.range(0, n);
  for (int i = 0; i < cut; ++i) p->runOnceFor(us{0});
  c1.disconnect();
  bool back = c.rng.chance(50);
  int cut2 = c.rng.range(cut, n);
  for (int i = cut; i < cut2; ++i) p->runOnceFor(us{0});
  if (back) c1.reconnect();
  p->runFor(us{0});
  c.expect(a == cut + (back ? n - cut2 : 0), "count", "a=", a);
  c.expect(b == n, "count", "b=", b, " of ", n);
  // MsgConnectionGroup-like container of connections
  std::vector<MsgConnection> v;
  int cnt = 0;
  for (int i = 0; i < 5; ++i) v.push_back(p->connect<Item>([&](const Item &) { cnt++; }));
  v.erase(v.begin() + c.rng.below(5));
  p->post<Item>(item(1, 1));
  p->runFor(us{0});
  c.expect(cnt == 5, "dropped", "dropping a connection object must not disconnect: ", cnt);
  for (auto &x : v) x.disconnect();
  cnt = 0;
  c.expect(p->post<Item>(item(1, 1)), "refused", "one handler is left");
  p->runFor(us{0});
  c.expect(cnt == 1, "count", "x");
  p->disconnect<Item>();
  c.expect(!p->post<Item>(item(1, 1)) && !p->connected<Item>(), "disconnect-type", "x");
  c.expect(!p->waitablePost<Item>(item(1, 1)).valid(), "refuse", "waitable post without handler accepted");
  bool more = p->connected<Probe>();
  c.expect(more, "other-type", "disconnecting one type affected another");
  c.observe("edge_cases");
  c.sign((uint64_t)n * 100 + cut * 10 + cut2 + back * 1000);
  c.nontrivial();
}

// Handlers that post and wait across processors while others post: nobody may block.
SCENARIO(handlers_cross) {
  const int n = c.rng.range(2, 4), nExt = c.rng.range(1, 3), msgs = c.rng.range(5, 25);
  struct X { int ttl; };
  struct Y { int ttl; };
  std::vector<ProcessorInstance> ps;
  std::vector<MsgConnection> cons;
  std::vector<std::unique_ptr<mon::Rng>> rs;
  std::atomic<int64_t> acc{0}, done{0};
  for (int i = 0; i < n; ++i) { ps.push_back(Processor::create()); rs.push_back(std::make_unique<mon::Rng>(c.rng.next())); }
  for (int i = 0; i < n; ++i) {
    auto *r = rs[i].get();
    auto body = [&, i, r](int ttl) {
      int k = r->range(0, 2);
      for (int j = 0; j < k && ttl > 0; ++j) {
        int to = (int)r->below(n);
        switch (r->below(5)) {
          case 0: acc++; c.expect(ps[to]->post<X>(ttl - 1), "refused", "X refused"); break;
          case 1: acc++; c.expect(ps[to]->post<Y>(ttl - 1), "refused", "Y refused"); break;
          case 2:
            if (to > i) {
              acc++;
              auto s = ps[to]->waitablePost<Y>(ttl - 1);
              c.expect(s.valid(), "refused", "Y refused");
              s.wait();
              break;
            }
            [[fallthrough]];
          case 3:
            if (to > i) { ps[to]->waitableExecute([&, r2 = r->fork(), i]() mutable { acc++; c.expect(ps[i]->template post<X>(0), "refused", "x"); }).wait(); break; }
            [[fallthrough]];
          default: {
            auto con = ps[i]->template connect<Y>([](const Y &) {});
            con.disconnect();
          }
        }
      }
      done++;
    };
    cons.push_back(ps[i]->connect<X>([body](const X &m) { body(m.ttl); }));
    cons.push_back(ps[i]->connect<Y>([body](const Y &m) { body(m.ttl); }));
  }
  std::vector<std::unique_ptr<AsyncProcessor>> aps;
  for (auto &p : ps) { aps.push_back(std::make_unique<AsyncProcessor>(p)); aps.back()->launch(); }
  std::vector<std::thread> ts;
  for (int e = 0; e < nExt; ++e)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      for (int q = 0; q < msgs; ++q) {
        acc++;
        int to = (int)r.below(n);
        c.expect(r.chance(50) ? ps[to]->post<X>(3) : ps[to]->post<Y>(3), "refused", "external post refused");
        if (r.chance(25)) {
          auto con = ps[to]->connect<X>([](const X &) {});
          if (r.chance(50)) mon::jitter(r);
          con.disconnect();
        }
        if (r.chance(10)) {
          struct Z {};
          auto con = ps[to]->connect<Z>([] {});
          ps[to]->post<Z>();
          ps[to]->disconnect<Z>();
        }
        if (r.chance(30)) mon::jitter(r);
      }
    });
  for (auto &t : ts) t.join();
  c.expect(mon::eventually([&] { return acc == done; }), "stuck", "accepted ", acc.load(), " handled ", done.load());
  if (c.failed()) mon::quit();
  c.observe("cross_messages", done);
  c.sign((uint64_t)done * 31 + n);
  c.nontrivial();
}
