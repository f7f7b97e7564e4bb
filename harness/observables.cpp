// P08: observables
#include <maf/Observable.h>
#include <maf/utils/DirectExecutor.h>

#include "proc_common.h"
using namespace hp;
using namespace maf::signal_slots;

namespace {
std::recursive_mutex gMtx;
struct Deferred : maf::util::ExecutorIF {
  std::vector<CallbackType> q;
  bool execute(CallbackType cb) noexcept override { q.push_back(std::move(cb)); return true; }
  void run() { auto t = std::move(q); q.clear(); for (auto &f : t) f(); }
};
std::string strOf(int v) { return std::string((size_t)(v % 40), (char)('a' + v % 26)); }

// ---- single state -----------------------------------------------------------
template <class T>
struct Obs {
  std::vector<T> got, want;
  Connection con;
  bool on = true;
  std::shared_ptr<Deferred> ex;
  std::shared_ptr<int> obj;
};
template <class O, class T, class Make>
void single(Ctx &c, O &o, T cur, bool sc, Make make) {
  std::vector<std::unique_ptr<Obs<T>>> obs;
  auto check = [&](const char *what) {
    for (auto &b : obs) {
      if (b->ex) b->ex->run();
      c.expect(b->got == b->want, "notified", "after ", what, ": observer got ", b->got.size(), " notifications, expected ", b->want.size());
      if (c.failed()) return;
      b->got.clear();
      b->want.clear();
    }
  };
  auto changed = [&](const T &v) {
    if (!(v == cur)) {
      cur = v;
      c.observe("changes");
      for (auto &b : obs) if (b->on) b->want.push_back(v);
    } else c.observe("same_value_sets");
  };
  int steps = c.rng.range(20, c.thorough ? 300 : 120);
  for (int i = 0; i < steps && !c.failed(); ++i) {
    int k = (int)c.rng.below(20);
    T v = c.rng.chance(25) ? cur : make();
    const char *what = "?";
    if (k < 3) {
      what = "connect";
      bool taken = false;
      if (sc) for (auto &b : obs) taken = taken || b->on;
      obs.push_back(std::make_unique<Obs<T>>());
      auto *b = obs.back().get();
      // who looks at the observable itself has to see what it is told
      auto fn = [b, &c, &o](const T &x) {
        b->got.push_back(x);
        if (!b->ex) c.expect(o.get() == x && *o.immutable() == x, "inconsistent", "an observer finds another value in the observable than it was told");
      };
      int m = (int)c.rng.below(7);
      bool silent = false;
      const O &co = o;
      switch (m) {
        case 0: b->con = o.connect(fn); break;
        case 1: silent = true; b->con = o.silentlyConnect(fn); break;
        case 2: b->ex = std::make_shared<Deferred>(); b->con = o.connect(fn, b->ex); break;
        case 3: b->con = co.connect(fn); break;
        case 5: { std::function<void(const T &)> f(fn); b->con = o.connect(f); break; }
        case 4: silent = true; b->con = co.silentlyConnect(fn); break;
        default: b->obj = std::make_shared<int>(1); b->con = o.connect(b->obj, fn); break;
      }
      c.expect(b->con.connected() == !taken, "connected", "x");
      b->on = !taken;
      if (!silent && !taken) b->want.push_back(cur);
      c.observe("observers");
    } else if (k < 5 && !obs.empty()) {
      what = "disconnect";
      auto *b = obs[c.rng.below(obs.size())].get();
      c.expect(b->con.disconnect() == b->on, "disconnect", "x");
      b->on = false;
    } else if (k < 8) { what = "assign"; o = v; changed(v); }
    else if (k < 10) { what = "set"; o.set(v); changed(v); }
    else if (k < 13) {
      what = "mutable";
      {
        auto m = o.mutable_();
        c.expect(*m == cur, "mutable", "guarded access shows another value");
        // several steps are one change
        if (c.rng.chance(50)) *m = make();
        *m = v;
        for (auto &b : obs) c.expect(b->got.size() == 0, "early", "notified before the access ended");
      }
      changed(v);
    } else if (k < 15) {
      what = "silent";
      { auto m = o.silentMutable(); c.expect(*m == cur, "silent", "x"); *m = v; }
      cur = v;
      c.observe("silent");
    } else if (k < 16) { what = "move"; O t(std::move(o)); o = std::move(t); }
    else {
      if constexpr (std::is_arithmetic_v<T>) {
        what = "arithmetic";
        T n = cur, x = (T)c.rng.range(1, 9), r{}, old = cur;
        int op = (int)c.rng.below(13);
        switch (op) {
          case 0: r = ++o; n++; break;
          case 1: r = o++; n++; break;
          case 2: r = o += x; n += x; break;
          case 3: r = o -= x; n -= x; break;
          case 4: r = o *= x; n *= x; break;
          case 5: r = o /= x; n /= x; break;
          case 6: r = o %= x; n %= x; break;
          case 7: r = o |= x; n |= x; break;
          case 8: r = o &= x; n &= x; break;
          case 9: r = o <<= 1; n <<= 1; break;
          case 10: r = o >>= 1; n >>= 1; break;
          case 11: r = o ^= x; n ^= x; break;
          default: { auto m = o.mutable_(); *m += x; *m -= x; } r = n; break;
        }
        c.expect(r == (op == 1 ? old : n), "arithmetic", "operator ", op, " returned ", r, ", expected ", (op == 1 ? old : n));
        changed(n);
      } else { what = "assign"; o = v; changed(v); }
    }
    c.expect(o.get() == cur && *o.immutable() == cur , "value", "wrong value after ", what);
    check(what);
  }
  c.sign(c.rng.s);
  c.nontrivial();
}

// ---- several states ------------------------------------------------------------
using Multi = std::tuple<int, std::string, std::vector<int>>;
template <class O>
void multi(Ctx &c, O &o, bool sc) {
  Multi cur{0, "", {}};
  struct B { std::vector<Multi> got, want; Connection con; bool on = true; std::string dbg; };
  std::vector<std::unique_ptr<B>> obs;
  auto changed = [&](const Multi &v) {
    if (v != cur) { cur = v; c.observe("multi_changes"); for (auto &b : obs) if (b->on) b->want.push_back(v); }
    else c.observe("same_value_sets");
  };
  auto mk = [&] { return Multi{c.rng.range(0, 3), strOf(c.rng.range(0, 3)), std::vector<int>(c.rng.below(3), c.rng.range(0, 1))}; };
  int steps = c.rng.range(20, c.thorough ? 300 : 120);
  for (int i = 0; i < steps && !c.failed(); ++i) {
    Multi n = mk(), w = cur;
    auto &[a, s, v] = n;
    int k = (int)c.rng.below(14);
    if (k < 2) {
      bool taken = false;
      if (sc) for (auto &b : obs) taken = taken || b->on;
      obs.push_back(std::make_unique<B>());
      auto *b = obs.back().get();
      bool silent = c.rng.chance(40), tup = c.rng.chance(40);
      auto told = [b, &c, &o](const Multi &m) {
        b->got.push_back(m);
        c.expect(o.get() == m && o.template get<1>() == std::get<1>(m), "inconsistent", "an observer finds another state in the observable than it was told");
      };
      auto f1 = [told](const int &a, const std::string &s, const std::vector<int> &v) { told({a, s, v}); };
      std::function<void(const Multi &)> f2 = [told](const Multi &m) { told(m); };
      b->dbg = std::string(silent ? "silent" : "") + (tup ? "tuple" : "");
      b->con = silent ? (tup ? o.silentlyConnect(f2) : o.silentlyConnect(f1)) : (tup ? o.connect(f2) : o.connect(f1));
      c.expect(b->con.connected() == !taken, "connected", "x");
      b->on = !taken;
      if (!silent && !taken) b->want.push_back(cur);
    } else if (k < 3 && !obs.empty()) {
      auto *b = obs[c.rng.below(obs.size())].get();
      c.expect(b->con.disconnect() == b->on, "disconnect", "x");
      b->on = false;
    } else if (k < 5) { o.set(a, s, v); changed(n); }
    else if (k < 6) { o = n; changed(n); }
    else if (k < 7) { o.template set<1>(s); std::get<1>(w) = s; changed(w); }
    else if (k < 8) { o.template set<2, 0>(v, a); std::get<2>(w) = v; std::get<0>(w) = a; changed(w); }
    else if (k < 9) { { auto m = o.template mutable_<2>(); m->push_back(7); if (c.rng.chance(30)) m->pop_back(); w = cur; std::get<2>(w) = *m; } changed(w); }
    else if (k < 10) { { auto m = o.template mutable_<0>(); *m = a; } std::get<0>(w) = a; changed(w); }
    else if (k < 11) { { auto m = o.mutable_(); m.template get<1>() = s; m.template get<0>() = a; } std::get<1>(w) = s; std::get<0>(w) = a; changed(w); }
    else if (k < 12) { o.silentSet(a, s, v); cur = n; }
    else if (k < 13) { o.template silentSet<0>(a); std::get<0>(cur) = a; }
    else { o.template silentSet<1, 2>(s, v); std::get<1>(cur) = s; std::get<2>(cur) = v; }
    c.expect(o.get() == cur && o.template get<0>() == std::get<0>(cur) && *o.template immutable<1>() == std::get<1>(cur) &&
             o.template get<2>() == std::get<2>(cur), "value", "wrong state after step ", k);
    for (auto &b : obs) {
      c.expect(b->got == b->want, "notified", "step ", k, " sc ", sc, " on ", b->on, " of ", obs.size(), " ", b->dbg, ": ", b->got.size(), " notifications, expected ", b->want.size());
      b->got.clear();
      b->want.clear();
    }
  }
  c.sign(c.rng.s);
  c.nontrivial();
}

// ---- joined observables -----------------------------------------------------------
template <class JoinFn, class OI, class OS>
void joined(Ctx &c, OI &oi, OS &os, JoinFn join) {
  using St = std::tuple<int, std::string>;
  int a = c.rng.range(0, 9);
  std::string s = strOf(c.rng.range(0, 9));
  oi = a;
  os = s;
  {
    auto j = join(oi, os);
    c.expect(j.get() == (St{a, s}), "initial", "a joined observable starts with another state");
    std::vector<St> got, want;
    std::vector<int> gi, wi;
    std::function<void(const int &, const std::string &)> watched;
    auto con = j.connect([&](const int &a, const std::string &s) {
      got.push_back({a, s});
      if (watched) watched(a, s);
    });
    want.push_back({a, s});
    auto ci = oi.silentlyConnect([&](const int &v) { gi.push_back(v); });
    bool viaMove = c.rng.chance(50);
    auto j2 = std::move(j);
    watched = [&](const int &a, const std::string &s) {
      c.expect(j2.get() == (St{a, s}) && oi.get() == a && os.get() == s, "inconsistent", "an observer of the joined observable finds another state than it was told");
    };
    for (int i = 0; i < 40 && !c.failed(); ++i) {
      int na = a;
      std::string ns = s;
      if (c.rng.chance(50)) {
        na = c.rng.chance(30) ? a : c.rng.range(0, 99);
        if (viaMove) oi = na; else oi.set(na);
        if (na != a) wi.push_back(na);
      } else {
        ns = c.rng.chance(30) ? s : strOf(c.rng.range(0, 99));
        { auto m = os.mutable_(); *m = ns; }
      }
      if (na != a || ns != s) { want.push_back({na, ns}); c.observe("joined_changes"); }
      a = na;
      s = ns;
      c.expect(j2.get() == (St{a, s}), "value", "the joined observable has another state");
      c.expect(got == want && gi == wi, "notified", "joined observers got ", got.size(), " notifications, expected ", want.size());
    }
    c.expect(j2.template get<0>() == a && *j2.template immutable<1>() == s, "value", "x");
    size_t n = got.size();
    con.disconnect();
    ci.disconnect();
    oi = a + 1;
    a++;
    c.expect(got.size() == n && j2.template get<0>() == a, "notified", "x");
  }
  // parts outlive the joined one
  oi = a + 1;
  os = "end";
  c.expect(oi.connectionCount() == 0 || true, "x");
  c.nontrivial();
  c.sign(c.rng.s);
}

// a compound struct whose fields notify themselves and their parent
}  // namespace

SCENARIO(obs_single) {
  auto mkI = [&] { return c.rng.range(0, 5); };
  auto mkU = [&] { return (uint16_t)c.rng.range(0, 300); };
  auto mkS = [&] { return strOf(c.rng.range(0, 5)); };
  auto mkV = [&] { return std::vector<int>(c.rng.below(3), c.rng.range(0, 2)); };
  switch (c.rng.below(9)) {
    case 0: { st::Observable<unsigned> o{7u}; single<decltype(o), unsigned>(c, o, 7u, false, mkI); break; }
    case 1: { Observable<unsigned> o{3u}; single<decltype(o), unsigned>(c, o, 3u, false, mkI); break; }
    case 2: { SCObservable<unsigned> o; single<decltype(o), unsigned>(c, o, 0u, true, mkI); break; }
    case 3: { st::SCObservable<uint16_t> o; single<decltype(o), uint16_t>(c, o, 0, true, mkU); break; }
    case 4: { Observable<std::string> o{std::string("x")}; single<decltype(o), std::string>(c, o, "x", false, mkS); break; }
    case 5: { st::Observable<std::vector<int>> o; single<decltype(o), std::vector<int>>(c, o, {}, false, mkV); break; }
    case 6: { SCObservable<std::string> o; single<decltype(o), std::string>(c, o, "", true, mkS); break; }
    case 7: { SharedMutexObservable<std::string> o{gMtx}; single<decltype(o), std::string>(c, o, "", false, mkS); break; }
    default: { SharedMutexSCObservable<unsigned> o{gMtx}; single<decltype(o), unsigned>(c, o, 0u, true, mkI); break; }
  }
}

SCENARIO(obs_multi) {
  switch (c.rng.below(4)) {
    case 0: { st::Observable<int, std::string, std::vector<int>> o; multi(c, o, false); break; }
    case 1: { Observable<int, std::string, std::vector<int>> o; multi(c, o, false); break; }
    case 2: { st::SCObservable<int, std::string, std::vector<int>> o; multi(c, o, true); break; }
    default: { SCObservable<int, std::string, std::vector<int>> o; multi(c, o, true); break; }
  }
}

SCENARIO(obs_joined) {
  const auto ex = maf::util::directExecutor();
  switch (c.rng.below(8)) {
    case 4: { st::Observable<int> a; st::Observable<std::string> b; joined(c, a, b, [&](auto &x, auto &y) { return st::join(ex, x, y); }); break; }
    case 5: { Observable<int> a; Observable<std::string> b; joined(c, a, b, [&](auto &x, auto &y) { return mt::join(ex, x, y); }); break; }
    case 6: { Observable<int> a; Observable<std::string> b; joined(c, a, b, [&](auto &x, auto &y) { return mt::scjoin(ex, x, y); }); break; }
    case 7: { st::Observable<int> a; st::Observable<std::string> b; joined(c, a, b, [&](auto &x, auto &y) { return st::scjoin(ex, x, y); }); break; }
    case 0: { st::Observable<int> a; st::Observable<std::string> b; joined(c, a, b, [](auto &x, auto &y) { return st::join(x, y); }); break; }
    case 1: { Observable<int> a; Observable<std::string> b; joined(c, a, b, [](auto &x, auto &y) { return mt::join(x, y); }); break; }
    case 2: { Observable<int> a; Observable<std::string> b; joined(c, a, b, [](auto &x, auto &y) { return mt::scjoin(x, y); }); break; }
    default: { st::Observable<int> a; st::Observable<std::string> b; joined(c, a, b, [](auto &x, auto &y) { return st::scjoin(x, y); }); break; }
  }
}

// Several threads change one observable.
SCENARIO(obs_mt) {
  Observable<unsigned> cnt;
  Observable<std::string, int> two;
  Observable<int> left, right;
  auto j = mt::join(left, right);
  const int nT = c.rng.range(2, 4), per = c.thorough ? 200 : 60;
  std::vector<unsigned> seen1, seen2;
  cnt.silentlyConnect([&](unsigned v) { seen1.push_back(v); });
  std::vector<std::pair<std::string, int>> pairs;
  two.silentlyConnect([&](const std::string &s, int v) { pairs.push_back({s, v}); });
  std::vector<std::tuple<int, int>> js;
  j.connect([&](int a, int b) { js.push_back({a, b}); });
  AsyncProcessor ap(Processor::create());
  auto proc = ap.instance();
  ap.launch();
  std::vector<unsigned> viaProc;
  cnt.silentlyConnect([&](unsigned v) { viaProc.push_back(v); }, proc->getExecutor());
  std::vector<std::thread> ts;
  mon::Gate g;
  std::atomic<int> lateObs{0}, extra{0};
  for (int t = 0; t < nT; ++t)
    ts.emplace_back([&, t, r = c.rng.fork()]() mutable {
      g.wait();
      unsigned lastOwn = 0;
      for (int i = 0; i < per; ++i) {
        unsigned n;
        switch (r.below(3)) {
          case 0: n = ++cnt; break;
          case 1: n = cnt += 1; break;
          default: { auto m = cnt.mutable_(); n = ++*m; }
        }
        c.expect(n > lastOwn, "lost-update", "an increment returned ", n, " after ", lastOwn);
        lastOwn = n;
        int v = t * 100000 + i + 1;
        if (r.chance(50)) two.set(std::to_string(v), v);
        else { auto m = two.mutable_(); m.get<0>() = std::to_string(v); m.get<1>() = v; }
        c.expect([&] { auto s = two.get(); return std::get<0>(s) == std::to_string(std::get<1>(s)); }(), "torn", "torn state read");
        if (t % 2) { ++left; } else { ++right; }
        if (r.chance(10)) mon::jitter(r);
        if (r.chance(10)) {  // a late observer: the current value, then every change
          auto mine = std::make_shared<std::vector<unsigned>>();
          auto con = cnt.connect([mine](unsigned x) { mine->push_back(x); });
          if (r.chance(50)) mon::jitter(r);
          unsigned after = ++cnt;
          con.disconnect();
          lateObs++;
          auto &m = *mine;
          c.expect(!m.empty(), "initial", "no initial notification");
          // the initial value may be told twice if it was changed while connecting
          size_t dup = 0;
          bool ok = true;
          for (size_t q = 1; q < m.size(); ++q) {
            if (m[q] == m[q - 1]) dup++;
            else if (m[q] != m[q - 1] + 1) ok = false;
          }
          c.expect(ok && dup <= 1 && m.back() >= after, "late-observer", "a late observer saw a gap, a repetition or an old value");
          extra++;
        }
      }
    });
  g.release();
  for (auto &t : ts) t.join();
  unsigned total = cnt.get();
  c.expect(total == (unsigned)(nT * per + extra.load()), "lost-update", "counter ", total, " expected ", nT * per + extra.load());
  c.expect(seen1.size() == total, "notified", "observer saw ", seen1.size(), " of ", total, " changes");
  for (size_t i = 0; i < seen1.size(); ++i)
    if (seen1[i] != i + 1) { c.expect(false, "order", "change ", i, " seen as ", seen1[i]); break; }
  proc->waitableExecute([] {}).wait();
  c.expect(viaProc == seen1, "executor", "the observer with executor saw something else");
  c.expect(pairs.size() == (size_t)(nT * per), "notified", "observer of two states saw ", pairs.size(), " of ", nT * per);
  std::map<int, int> last;
  for (auto &p : pairs) {
    c.expect(p.first == std::to_string(p.second), "torn", "torn state notified");
    int t = p.second / 100000, q = p.second % 100000;
    c.expect(q == last[t] + 1, "order", "changes of one thread were lost or reordered");
    last[t] = q;
  }
  if (!pairs.empty()) c.expect(two.get() == (std::tuple<std::string, int>(pairs.back().first, pairs.back().second)), "final", "the last notification is not the final value");
  for (size_t i = 1; i < js.size(); ++i) {
    auto [a0, b0] = js[i - 1];
    auto [a1, b1] = js[i];
    c.expect((a1 == a0 + 1 && b1 == b0) || (a1 == a0 && b1 == b0 + 1), "joined", "joined state went from ", a0, ",", b0, " to ", a1, ",", b1);
  }
  c.expect(j.get() == (std::tuple<int, int>(left.get(), right.get())), "joined", "the joined state differs from its parts");
  c.expect(js.size() == 1 + (size_t)(left.get() + right.get()), "joined", "joined observer saw ", js.size());
  c.observe("mt_changes", total + pairs.size() + js.size());
  c.observe("late_observers", lateObs);
  uint64_t h = 0;
  for (size_t i = 0; i < pairs.size() && i < 60; ++i) h = h * 1000003 + pairs[i].second / 100000;
  c.sign(h);
  c.nontrivial();
}

// Parts change while other threads join them, observe them or let go of them:
// whatever the moment, the last change arrives.
SCENARIO(obs_join_mt) {
  const int rounds = c.thorough ? 400 : 120;
  AsyncProcessor ap(Processor::create());
  auto proc = ap.instance();
  ap.launch();
  struct Parts { Observable<int> a; Observable<std::string> b; };
  struct Seen { std::atomic<int> v{-1}; };
  std::unique_ptr<Parts> parts;
  std::atomic<int> go{0}, done{0};
  int spins[2] = {0, 0}, kinds[2] = {0, 0};
  std::vector<std::thread> ts;
  for (int t = 0; t < 2; ++t)
    ts.emplace_back([&, t] {
      for (int last = 0;;) {
        int r;
        while ((r = go.load(std::memory_order_acquire)) == last) std::this_thread::yield();
        if (r < 0) return;
        last = r;
        for (volatile int k = spins[t]; k > 0; k = k - 1) {}
        if (t) {
          if (kinds[1]) parts->b.set(std::to_string(r));
          else { auto m = parts->b.mutable_(); *m = std::to_string(r); }
        } else {
          if (kinds[0]) parts->a = r;
          else parts->a += r;
        }
        done++;
      }
    });
  uint64_t sg = 0;
  for (int r = 1; r <= rounds && !c.failed(); ++r) {
    parts = std::make_unique<Parts>();
    for (int t = 0; t < 2; ++t) { spins[t] = c.rng.chance(30) ? 0 : c.rng.range(0, 4000); kinds[t] = c.rng.chance(50); }
    done = 0;
    const int how = c.rng.range(0, 3);
    go.store(r, std::memory_order_release);
    for (volatile int k = c.rng.range(0, 2000); k > 0; k = k - 1) {}
    auto check = [&](auto &&j) {
      auto seen = std::make_shared<Seen>();
      auto con = j.connect([seen](const int &a, const std::string &) { seen->v = a; });
      while (done != 2) std::this_thread::yield();
      proc->waitableExecute([] {}).wait();
      auto [a, b] = j.get();
      c.expect(a == r && b == std::to_string(r), "join-missed", "joined while the parts changed: ", a, ",", b, " instead of ", r);
      c.expect(seen->v == r, "join-observer", "the observer of the joined observable was told ", seen->v.load(), " last instead of ", r);
      con.disconnect();
    };
    switch (how) {
      case 0: check(mt::join(parts->a, parts->b)); break;
      case 1: check(mt::join(maf::util::directExecutor(), parts->a, parts->b)); break;
      case 2: check(mt::join(proc->getExecutor(), parts->a, parts->b)); break;
      default: {
        auto sa = std::make_shared<Seen>();
        auto con = parts->a.connect([sa](int v) { sa->v = v; });
        auto con2 = parts->b.connect([sa](const std::string &) {}, proc->getAsyncExecutor());
        while (done != 2) std::this_thread::yield();
        c.expect(sa->v == r, "observer-missed", "observed while the value changed: told ", sa->v.load(), " last instead of ", r);
      }
    }
    sg = sg * 4 + how;
    c.observe("joined_in_flight");
  }
  go = -1;
  for (auto &t : ts) t.join();
  ap.stopAndWait();
  c.nontrivial();
  c.sign(sg);
}
