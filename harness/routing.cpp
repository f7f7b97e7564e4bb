// P04: routing
#include "proc_common.h"
using namespace hp;
namespace rt = maf::messaging::routing;
using rt::ProcessorStatusUpdateMsg;

namespace {
struct Bc { int from; int seq; };
struct Other { int v; };
struct Live {
  std::unique_ptr<AsyncProcessor> ap;
  std::vector<MsgConnection> cons;
  ProcessorInstance p() const { return ap->instance(); }
};
}  // namespace

// Racing creations and stops of the same ids: at most one registered at a time.
SCENARIO(routing_unique) {
  const int nT = c.rng.range(2, 5), rounds = c.rng.range(3, 20), nIds = c.rng.range(1, 2);
  std::vector<std::string> ids;
  static const std::string tiny[] = {"[", "[anonymous]", "a", " ", "[anonymous", std::string(1, '\0'), "]", "[]", "."};
  for (int i = 0; i < nIds; ++i) ids.push_back(oddId(c, "ru", c.rng));
  if (c.rng.chance(30)) ids[0] = tiny[c.rng.below(std::size(tiny))];
  // ids which are alike are different
  if (nIds > 1 && c.rng.chance(30)) ids[1] = ids[0] + (c.rng.chance(50) ? "x" : std::string(1, '\0'));
  std::vector<std::atomic<int>> held(nIds);
  for (auto &h : held) h = 0;
  std::atomic<int> won{0}, lost{0};
  std::vector<std::thread> ts;
  mon::Gate gate;
  std::mutex keepMu;
  std::vector<ProcessorInstance> keep;
  for (int t = 0; t < nT; ++t)
    ts.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int i = 0; i < rounds; ++i) {
        int k = (int)r.below(nIds);
        auto p = Processor::create(ids[k]);
        if (!p) { lost++; c.expect(Processor::create("") != nullptr, "anonymous", "anonymous processor refused"); if (r.chance(30)) mon::jitter(r); continue; }
        won++;
        c.expect(held[k].fetch_add(1) == 0, "duplicate-id", "two processors registered under one id");
        c.expect(p->id() == ids[k], "id", "wrong id ", p->id());
        c.expect(Processor::findProcessor(ids[k]) == p, "find", "findProcessor does not find the registered processor");
        c.expect(rt::findProcessor(ids[k]) == p, "find", "routing::findProcessor does not find the registered processor");
        c.expect(Processor::create(ids[k]) == nullptr, "duplicate-id", "a taken id was handed out again");
        c.expect(Processor::findProcessor(ids[k]) == p, "find", "refused creation replaced the registered processor");
        int got = 0;
        auto con = p->connect<Other>([&](const Other &o) { got += o.v; });
        c.expect(rt::post<Other>(ids[k], 3), "post", "post by id refused");
        c.expect(!rt::post<Bc>(ids[k], t, i), "post", "post of an unhandled type accepted");
        c.expect(rt::post(ids[k], makeMessage<Other>(4)), "post", "post by id refused");
        p->runFor(us{0});
        c.expect(got == 7, "post", "posts by id reached another processor: ", got);
        if (r.chance(30)) mon::jitter(r);
        held[k].fetch_sub(1);
        p->stop();
        // a second stop of this one must not affect a successor
        if (r.chance(50)) { if (r.chance(50)) mon::jitter(r); p->stop(); }
        if (r.chance(30)) { std::lock_guard<std::mutex> l(keepMu); keep.push_back(p); }
      }
    });
  gate.release();
  for (auto &t : ts) t.join();
  for (auto &id : ids) {
    c.expect(Processor::findProcessor(id) == nullptr, "find-stopped", "a stopped processor is still found");
    c.expect(!rt::post<Other>(id, 1), "post-stopped", "post to a stopped id accepted");
    c.expect(!rt::send<Other>(id, 1).valid(), "send-stopped", "send to a stopped id accepted");
    auto p = Processor::create(id);
    c.expect(p != nullptr, "rejoin", "id of a stopped processor can not be taken again");
    if (!p) continue;
    for (auto &k : keep) k->stop();
    c.expect(Processor::findProcessor(id) == p, "rejoin", "stopping a former processor removed its successor");
    p->stop();
  }
  c.observe("ids_won", won);
  c.observe("ids_lost", lost);
  if (lost) c.nontrivial();
  c.sign((uint64_t)won * 1000 + lost);
}

// Broadcasts, sends and posts by id to stable processors while others join and leave.
SCENARIO(routing_bcast) {
  const int n = c.rng.range(1, 5), nT = c.rng.range(1, 3), msgs = c.rng.range(4, 25);
  struct Rec {
    std::atomic<int> inBc{0};
    std::map<int, std::map<int, int>> bc, direct;  // processor thread only
    bool handles = true;
  };
  std::vector<Live> ps(n);
  std::vector<std::unique_ptr<Rec>> recs;
  std::vector<std::string> ids;
  for (int i = 0; i < n; ++i) {
    ids.push_back(oddId(c, "rb", c.rng));
    ps[i].ap = std::make_unique<AsyncProcessor>(Processor::create(ids[i]));
    recs.push_back(std::make_unique<Rec>());
    auto *r = recs[i].get();
    r->handles = c.rng.chance(80);
    if (r->handles) {
      ps[i].cons.push_back(ps[i].p()->connect<Bc>([&c, r](const Bc &b) {
        r->inBc++;
        mon::napUs(b.seq % 5 * 20);
        r->bc[b.from][b.seq]++;
        c.log(1, b.from, b.seq);
      }));
    }
    ps[i].cons.push_back(ps[i].p()->connect<Item>([&c, r](const Item &m) {
      c.expect(m.ok(), "payload", "payload changed");
      auto &d = r->direct[m.sender];
      c.expect(d.empty() || d.rbegin()->first < m.seq, "order", "posts of one thread reordered");
      d[m.seq]++;
    }));
    if (c.rng.chance(80)) ps[i].ap->launch();
    else { ps[i].p()->executeAsync([] {}); ps[i].ap->launch(); }
  }
  int handlers = 0;
  for (auto &r : recs) handlers += r->handles;
  std::atomic<bool> stop{false};
  std::thread churn([&, r = c.rng.fork()]() mutable {
    while (!stop) {
      auto p = Processor::create(oddId(c, "churn", r));
      auto con = p->connect<Bc>([](const Bc &) {});
      AsyncProcessor ap(p);
      ap.launch();
      mon::jitter(r);
      if (r.chance(50)) ap.stopAndWait();
      else p->stop();
    }
  });
  std::vector<std::map<int, std::set<int>>> sentDirect(nT);  // [thread][proc] -> seqs
  std::vector<std::set<int>> sentBc(nT);
  std::vector<std::thread> ts;
  for (int t = 0; t < nT; ++t)
    ts.emplace_back([&, t, r = c.rng.fork()]() mutable {
      for (int q = 0; q < msgs; ++q) {
        switch (r.below(5)) {
          case 0: {
            bool ok = rt::postToAll<Bc>(t, q);
            c.expect(ok || !handlers, "bcast-result", "postToAll reported no receiver");
            sentBc[t].insert(q);
            break;
          }
          case 1: {
            std::vector<int> before;
            for (auto &x : recs) before.push_back(x->inBc.load());
            auto s = rt::sendToAll<Bc>(t, q);
            sentBc[t].insert(q);
            c.expect(s.valid() || !handlers, "send-result", "sendToAll reported no receiver");
            if (s.valid()) {
              s.wait();
              for (int i = 0; i < n; ++i)
                if (recs[i]->handles) c.expect(recs[i]->inBc.load() > before[i], "send-early", "sendToAll completed before a handler ran");
            }
            break;
          }
          case 2: {
            int to = (int)r.below(n);
            bool ok = rt::post<Item>(ids[to], item(t, q));
            c.expect(ok, "post", "post by id refused");
            if (ok) sentDirect[t][to].insert(q);
            break;
          }
          case 3: {
            int to = (int)r.below(n);
            auto s = rt::send<Item>(ids[to], item(t, q));
            c.expect(s.valid(), "send", "send by id refused");
            if (s.valid()) { s.wait(); sentDirect[t][to].insert(q); }
            break;
          }
          default:
            c.expect(!rt::post<Item>("nobody-" + ids[0], item(t, q)), "post-unknown", "post to an unknown id accepted");
            c.expect(!rt::postToAll<Other>(1), "bcast-unhandled", "broadcast nobody handles was accepted");
        }
      }
    });
  for (auto &t : ts) t.join();
  stop = true;
  churn.join();
  for (auto &p : ps) p.p()->waitableExecute([] {}).wait();
  for (auto &p : ps) p.ap->stopAndWait();
  for (int i = 0; i < n; ++i)
    for (int t = 0; t < nT; ++t) {
      auto &b = recs[i]->bc[t];
      size_t want = recs[i]->handles ? sentBc[t].size() : 0;
      bool once = true;
      for (auto &x : b) once &= x.second == 1;
      c.expect(b.size() == want && once, "bcast-once", "processor ", i, " got ", b.size(), " of ", want, " broadcasts", once ? "" : " (some twice)");
      auto &d = recs[i]->direct[t];
      once = true;
      for (auto &x : d) once &= x.second == 1 && sentDirect[t][i].count(x.first);
      c.expect(d.size() == sentDirect[t][i].size() && once, "direct-once", "processor ", i, " got ", d.size(), " of ",
               sentDirect[t][i].size(), " messages");
      c.observe("broadcasts", want);
      c.observe("directs", d.size());
    }
  c.nontrivial();
  c.sign();
}

// Watchers learn about every join and leave exactly once.
SCENARIO(routing_status) {
  const int nW = c.rng.range(1, 3), nT = c.rng.range(1, 3), rounds = c.rng.range(2, 10);
  struct W {
    std::map<Processor *, std::vector<bool>> seen;  // watcher thread only
  };
  std::vector<Live> ws(nW);
  std::vector<W> rec(nW);
  std::vector<std::string> wids;
  for (int i = 0; i < nW; ++i) {
    wids.push_back(uniqueId(c, "w"));
    ws[i].ap = std::make_unique<AsyncProcessor>(Processor::create(wids[i]));
    auto *r = &rec[i];
    ws[i].cons.push_back(ws[i].p()->connect<ProcessorStatusUpdateMsg>([r, &c](const ProcessorStatusUpdateMsg &m) {
      auto p = m.messageprocessor();
      c.expect(m.ready() == (m.status == ProcessorStatusUpdateMsg::Status::Reachable), "status", "x");
      if (p) r->seen[p.get()].push_back(m.ready());
    }));
    ws[i].ap->launch();
  }
  // watchers themselves joined one after another; forget that phase
  for (auto &w : ws) w.p()->waitableExecute([] {}).wait();
  std::vector<std::vector<ProcessorInstance>> made(nT);
  std::vector<std::vector<bool>> left(nT);
  std::vector<std::thread> ts;
  for (int t = 0; t < nT; ++t)
    ts.emplace_back([&, t, r = c.rng.fork()]() mutable {
      for (int i = 0; i < rounds; ++i) {
        auto p = Processor::create(uniqueId(c, "st"));
        c.expect(p != nullptr, "create", "x");
        made[t].push_back(p);
        if (r.chance(40)) mon::jitter(r);
        bool l = r.chance(70);
        if (l) {
          int how = r.range(0, 2);
          if (how == 0) p->stop();
          else if (how == 1) { std::thread a([&] { p->stop(); }), b([&] { p->stop(); }); a.join(); b.join(); }
          else { AsyncProcessor ap(p); ap.launch(); ap.stopAndWait(); }
        }
        left[t].push_back(l);
        if (r.chance(20)) { auto anon = Processor::create(); anon->stop(); made[t].push_back(anon); left[t].push_back(true); }
      }
    });
  for (auto &t : ts) t.join();
  for (auto &w : ws) w.p()->waitableExecute([] {}).wait();
  for (int i = 0; i < nW; ++i) ws[i].ap->stopAndWait();
  for (int i = 0; i < nW; ++i)
    for (int t = 0; t < nT; ++t)
      for (size_t k = 0; k < made[t].size(); ++k) {
        auto &s = rec[i].seen[made[t][k].get()];
        std::vector<bool> want;
        if (made[t][k]->id().find("st-") == 0) { want.push_back(true); if (left[t][k]) want.push_back(false); }
        c.expect(s == want, "join-leave", "watcher told ", s.size(), " times, expected ", want.size());
        c.observe("status_updates", s.size());
      }
  for (auto &m : made) for (auto &p : m) p->stop();
  c.nontrivial();
  c.sign();
  c.sign((uint64_t)nW * 100 + nT * 10 + rounds);
}

// Routing calls from inside handlers and while processors come and go.
SCENARIO(routing_nested) {
  const int n = c.rng.range(2, 4), rounds = c.rng.range(3, 12);
  std::vector<Live> ps(n);
  std::vector<std::string> ids;
  std::vector<std::unique_ptr<mon::Rng>> rs;
  std::atomic<int64_t> acc{0}, handled{0}, ops{0};
  struct Go { int ttl; };
  struct Ping { int v; };
  for (int i = 0; i < n; ++i) { ids.push_back(oddId(c, "rn", c.rng)); ps[i].ap = std::make_unique<AsyncProcessor>(Processor::create(ids[i])); rs.push_back(std::make_unique<mon::Rng>(c.rng.next())); }
  for (int i = 0; i < n; ++i) {
    auto *r = rs[i].get();
    ps[i].cons.push_back(ps[i].p()->connect<Ping>([&](const Ping &) { handled++; }));
    ps[i].cons.push_back(ps[i].p()->connect<ProcessorStatusUpdateMsg>([&](const ProcessorStatusUpdateMsg &m) {
      if (auto p = m.messageprocessor()) Processor::findProcessor(p->id());
      ops++;
    }));
    ps[i].cons.push_back(ps[i].p()->connect<Go>([&, i, r](const Go &g) {
      ops++;
      switch (r->below(7)) {
        case 0: { auto p = Processor::create(uniqueId(c, "nest")); p->stop(); break; }
        case 1: acc += n; c.expect(rt::postToAll<Ping>(1), "bcast", "x"); break;
        case 2: acc += n; rt::sendToAll<Ping>(1); break;
        case 3:
          if (i == 0) { acc += n; auto s = rt::sendToAll<Ping>(1); c.expect(s.valid(), "send", "x"); if (s.valid()) s.wait(); }
          break;
        case 4: c.expect(Processor::findProcessor(ids[r->below(n)]) != nullptr, "find", "x"); break;
        case 5: acc++; c.expect(rt::post<Ping>(ids[r->below(n)], 1), "post", "x"); break;
        default:
          if (g.ttl > 0) c.expect(rt::postToAll<Go>(g.ttl - 1), "bcast", "x");
      }
      handled++;
      acc++;
    }));
    ps[i].ap->launch();
  }
  std::vector<std::thread> ts;
  for (int t = 0; t < 2; ++t)
    ts.emplace_back([&, r = c.rng.fork()]() mutable {
      for (int k = 0; k < rounds; ++k) {
        rt::postToAll<Go>(1);
        auto p = Processor::create(oddId(c, "tmp", r));
        if (r.chance(50)) mon::jitter(r);
        p->stop();
      }
    });
  for (auto &t : ts) t.join();
  // drain
  c.expect(mon::eventually([&] {
    for (auto &p : ps) p.p()->waitableExecute([] {}).wait();
    for (auto &p : ps) if (p.p()->pendingCout()) return false;
    return acc == handled;
  }), "stuck", "accepted ", acc.load(), " handled ", handled.load());
  for (auto &p : ps) p.ap->stopAndWait();
  c.observe("nested_ops", ops);
  c.sign((uint64_t)ops);
  c.nontrivial();
}
