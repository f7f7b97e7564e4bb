// P20: addresses, registration ids and generated ids as keys; P21: the logger
#include <maf/logging/Logger.h>
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/utils/IDManager.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/Serializer.h>

#include <map>
#include <set>

#include "mon.h"

using mon::Ctx;
using mon::Rng;
using maf::messaging::Address;
using maf::messaging::RegID;
namespace mlog = maf::logging;

namespace {
std::string nameOf(Rng &r) {
  static const char *pool[] = {"", "a", "b", "ab", "ba", "aa", "a.b", "A", "z", "\x7f", "\xff", "a\xff", "com.opswat", "com.opswat.client", "/tmp/x"};
  if (r.chance(85)) return pool[r.below(sizeof(pool) / sizeof(*pool))];
  std::string s;
  for (auto n = r.below(40); n > 0; --n) s.push_back((char)r.range(1, 255));
  return s;
}

Address randomAddress(Rng &r) {
  static const Address::Port ports[] = {0, 1, 2, 80, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff};
  if (r.chance(5)) return Address{};
  if (r.chance(10)) return Address{nameOf(r)};
  return Address{nameOf(r), ports[r.below(10)]};
}

RegID randomRegID(Rng &r) {
  static const uint64_t ids[] = {0, 1, 2, 3, 255, 256, 1ULL << 31, 1ULL << 32, ~0ULL - 1, ~0ULL};
  RegID i;
  i.requestID = ids[r.below(10)];
  i.opID = nameOf(r);
  return i;
}

bool partsEqual(const Address &a, const Address &b) { return a.get_name() == b.get_name() && a.get_port() == b.get_port(); }
bool partsEqual(const RegID &a, const RegID &b) { return a.requestID == b.requestID && a.opID == b.opID; }
std::string text(const Address &a) { return "(" + a.get_name() + ":" + std::to_string(a.get_port()) + ")"; }
std::string text(const RegID &a) { return "(" + a.opID + ":" + std::to_string(a.requestID) + ")"; }

// The laws of a strict total order which agrees with equality, on a set of
// values, and of the containers which rely on them.
template <class K>
void laws(Ctx &c, const std::vector<K> &v) {
  size_t n = v.size();
  auto lt = [&](size_t i, size_t j) { return v[i] < v[j]; };
  for (size_t i = 0; i < n && !c.failed(); ++i)
    for (size_t j = 0; j < n; ++j) {
      bool eq = partsEqual(v[i], v[j]);
      c.expect((v[i] == v[j]) == eq, "equality", text(v[i]), " == ", text(v[j]), " is wrong");
      c.expect((v[i] != v[j]) == !eq, "inequality", text(v[i]), " != ", text(v[j]), " is wrong");
      c.expect(!(eq && lt(i, j)), "irreflexive", text(v[i]), " < ", text(v[j]), " though they are equal");
      c.expect(!(lt(i, j) && lt(j, i)), "asymmetric", text(v[i]), " and ", text(v[j]), " are less than each other");
      c.expect(eq || lt(i, j) || lt(j, i), "total", text(v[i]), " and ", text(v[j]), " differ but none is less");
      if (eq) c.observe("equal_pairs");
      else c.observe("distinct_pairs");
    }
  for (size_t i = 0; i < n && !c.failed(); ++i)
    for (size_t j = 0; j < n; ++j)
      if (lt(i, j))
        for (size_t k = 0; k < n; ++k)
          if (lt(j, k)) c.expect(lt(i, k), "transitive", text(v[i]), " < ", text(v[j]), " < ", text(v[k]), " but not the first < the last");
  c.observe("triples", n * n * n);
}

template <class K>
void containers(Ctx &c, const std::vector<K> &v) {
  std::vector<std::pair<K, int>> model;
  std::map<K, int> m;
  std::set<K> s;
  auto inModel = [&](const K &k) { return std::find_if(model.begin(), model.end(), [&](auto &p) { return partsEqual(p.first, k); }); };
  int ops = c.thorough ? 600 : 200;
  for (int i = 0; i < ops && !c.failed(); ++i) {
    const K &k = v[c.rng.below(v.size())];
    auto it = inModel(k);
    bool has = it != model.end();
    switch (c.rng.below(4)) {
      case 0:
        c.expect(m.emplace(k, i).second == !has, "map_insert", text(k), has ? " was duplicated" : " was taken for another");
        c.expect(s.insert(k).second == !has, "set_insert", text(k), has ? " was duplicated" : " was taken for another");
        if (!has) model.emplace_back(k, i);
        break;
      case 1:
        c.expect(m.erase(k) == (has ? 1u : 0u), "map_erase", "erasing ", text(k));
        c.expect(s.erase(k) == (has ? 1u : 0u), "set_erase", "erasing ", text(k));
        if (has) model.erase(it);
        break;
      case 2: {
        auto f = m.find(k);
        c.expect((f != m.end()) == has, "map_find", text(k), has ? " was lost" : " was found though it isn't there");
        if (has && f != m.end()) c.expect(f->second == it->second && partsEqual(f->first, k), "map_find", text(k), " found another");
        break;
      }
      default:
        m[k] = i;
        s.insert(k);
        if (has) it->second = i;
        else model.emplace_back(k, i);
    }
    c.expect(m.size() == model.size() && s.size() == model.size(), "container_size", "containers have ", m.size(), " and ", s.size(), " of ", model.size(), " entries");
    c.log(1, (int64_t)i, (int64_t)m.size());
  }
  for (auto &[k, x] : model) {
    auto f = m.find(k);
    c.expect(f != m.end() && f->second == x, "map_lost", text(k), " was lost");
  }
  c.observe("container_ops", (uint64_t)ops);
}
}  // namespace

SCENARIO(keys) {
  std::vector<Address> as;
  std::vector<RegID> rs;
  for (int i = c.rng.range(6, 24); i > 0; --i) {
    as.push_back(c.rng.chance(25) && !as.empty() ? as[c.rng.below(as.size())] : randomAddress(c.rng));
    rs.push_back(c.rng.chance(25) && !rs.empty() ? rs[c.rng.below(rs.size())] : randomRegID(c.rng));
    if (c.rng.chance(30)) {  // differs in one part only
      auto a = as.back();
      if (c.rng.chance(50)) a.get_name() = nameOf(c.rng);
      else a.get_port() = (Address::Port)c.rng.below(65536);
      as.push_back(a);
      auto r = rs.back();
      if (c.rng.chance(50)) r.opID = nameOf(c.rng);
      else r.requestID = c.rng.next();
      rs.push_back(r);
    }
  }
  laws(c, as);
  laws(c, rs);
  containers(c, as);
  containers(c, rs);
  for (auto &a : as) {
    if (c.failed()) break;
    Address copy = a, moved;
    auto tmp = a;
    moved = std::move(tmp);
    Address assigned{"other", 7};
    assigned = a;
    c.expect(copy == a && moved == a && assigned == a, "copy", "a copy of ", text(a), " differs");
    bool dflt = a.get_name().empty() && a.get_port() == Address::INVALID_PORT;
    c.expect((a == Address{}) == dflt, "default", text(a), " compared to the default address");
    c.expect(a.valid() == !dflt, "valid", text(a), " is ", a.valid() ? "valid" : "invalid");
    c.expect(&std::get<0>(a.cas_tuple()) == &a.get_name() && &std::get<1>(a.cas_tuple()) == &a.get_port(), "tuple", "the tuple of an address has other parts");
    maf::srz::OByteStream os;
    maf::srz::serialize(os, a);
    maf::srz::IByteStream is(std::move(os.bytes()));
    Address back{"x", 1};
    bool ok = maf::srz::deserialize(is, back);
    c.expect(ok && back == a, "roundtrip", text(a), " came back as ", text(back));
  }
  for (auto &r : rs) {
    if (c.failed()) break;
    bool valid = r.requestID != ~0ULL && !r.opID.empty();
    c.expect(r.valid() == valid, "valid", text(r), " is ", r.valid() ? "valid" : "invalid");
    RegID copy = r, src = r;
    RegID moved = std::move(src);
    c.expect(copy == r && moved == r, "copy", "a copy of ", text(r), " differs");
    c.expect(!src.valid(), "moved", "a moved id stays valid");
    RegID src2 = r, assigned = rs[0];
    assigned = std::move(src2);
    c.expect(assigned == r && !src2.valid(), "moved", "moving ", text(r), " by assignment");
    auto &self = assigned;
    assigned = std::move(self);
    c.expect(assigned == r, "moved", "moving ", text(r), " to itself");
    copy.clear();
    c.expect(!copy.valid() && copy == RegID{}, "clear", "a cleared id is still valid");
  }
  c.nontrivial();
  c.sign(c.events().size() * 1000003 + as.size() * 1009 + rs.size());
}

// ids from one manager, by many threads
namespace {
template <class T>
void ids(Ctx &c, bool lap) {
  using Mgr = maf::util::IDManagerT<T>;
  Mgr mgr;
  auto ths = c.rng.range(2, 6);
  // types of few values are only unique within one lap
  uint64_t budget = lap ? (uint64_t)std::numeric_limits<T>::max() / (uint64_t)ths : (c.thorough ? 20000 : 4000);
  std::vector<std::vector<T>> got((size_t)ths);
  std::vector<std::thread> v;
  mon::Gate gate;
  for (int t = 0; t < ths; ++t)
    v.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      std::vector<T> live;
      auto &mine = got[(size_t)t];
      for (uint64_t n = 0; n < budget; ++n) {
        T id;
        if constexpr (std::is_same_v<T, maf::messaging::RequestID>) {
          RegID reg;
          RegID::allocateUniqueID(reg, mgr);
          id = reg.requestID;
        } else
          id = mgr.allocateNewID();
        mine.push_back(id);
        live.push_back(id);
        while (!live.empty() && r.chance(45)) {
          auto k = r.below(live.size());
          mgr.reclaimUsedID(live[k]);
          live[k] = live.back();
          live.pop_back();
        }
      }
    });
  gate.release();
  for (auto &t : v) t.join();
  std::set<T> all;
  uint64_t total = 0;
  for (auto &g : got)
    for (auto id : g) {
      c.expect(Mgr::isValidID(id) && id != Mgr::INVALID_ID, "invalid_id", "an invalid id was given");
      all.insert(id);
      ++total;
    }
  c.observe("ids", total);
  // fewer than a lap were given
  c.expect(all.size() == total, "id_twice", total - all.size(), " of ", total, " ids were given twice");
  c.log(2, (int64_t)total, (int64_t)all.size());
}

// exact: who owns which id, checked at every allocation
template <class T>
void owned(Ctx &c, uint64_t limit) {
  using Mgr = maf::util::IDManagerT<T>;
  Mgr mgr;
  std::mutex m;
  std::set<T> inUse;
  std::atomic<uint64_t> given{0};
  std::vector<std::thread> v;
  mon::Gate gate;
  int ths = c.rng.range(1, 5);
  for (int t = 0; t < ths; ++t)
    v.emplace_back([&, r = c.rng.fork()]() mutable {
      gate.wait();
      std::vector<T> live;
      int rounds = c.thorough ? 4000 : 800;
      for (int n = 0; n < rounds && !c.failed(); ++n) {
        if (live.empty() || r.chance(55)) {
          if (given++ >= limit) break;
          auto id = mgr.allocateNewID();
          c.expect(Mgr::isValidID(id), "invalid_id", "an invalid id was given");
          std::lock_guard l(m);
          c.expect(inUse.insert(id).second, "id_twice", "id ", +id, " was given though it is in use");
          live.push_back(id);
        } else {
          auto k = r.below(live.size());
          auto id = live[k];
          live[k] = live.back();
          live.pop_back();
          {
            std::lock_guard l(m);
            inUse.erase(id);
          }
          mgr.reclaimUsedID(id);
        }
        if (r.chance(1)) mon::jitter(r);
      }
    });
  gate.release();
  for (auto &t : v) t.join();
  c.observe("ids_in_use", inUse.size());
  c.log(3, (int64_t)given, (int64_t)inUse.size());
}
}  // namespace

SCENARIO(ids) {
  ids<uint64_t>(c, false);
  ids<uint32_t>(c, false);
  ids<uint16_t>(c, true);
  owned<uint64_t>(c, ~0ULL);
  owned<uint32_t>(c, ~0ULL);
  owned<int>(c, ~0ULL);
  owned<uint16_t>(c, 65000);
  owned<uint8_t>(c, 250);
  // never the invalid one, also when the counter wraps
  maf::util::IDManagerT<uint8_t> tiny;
  for (int i = 0; i < 1000; ++i) c.expect(tiny.isValidID(tiny.allocateNewID()), "invalid_id", "an invalid id was given after ", i);
  maf::util::IDManagerT<uint16_t> small;
  for (int i = 0; i < 70000; ++i) c.checked(), i > 65000 ? c.expect(small.isValidID(small.allocateNewID()), "invalid_id", "an invalid id was given after ", i) : (void)small.allocateNewID();
  c.nontrivial();
  c.sign();
}

// ---------------------------------------------------------------- P21
namespace {
struct Level {
  mlog::LogLevel bit;
  const char *name;
  bool toErr;
};
const Level levels[] = {
    {mlog::LOG_LEVEL_INFO, "INFO", false},   {mlog::LOG_LEVEL_WARN, "WARN", true},   {mlog::LOG_LEVEL_ERROR, "ERROR", true},
    {mlog::LOG_LEVEL_FATAL, "FATAL", true},  {mlog::LOG_LEVEL_DEBUG, "DEBUG", false}, {mlog::LOG_LEVEL_VERBOSE, "VERBOSE", false},
};
struct Line {
  int sink;
  std::string text;
};
struct Sinks {
  std::mutex m;
  std::vector<Line> lines;
  void add(int sink, const std::string &t) {
    std::lock_guard l(m);
    lines.push_back({sink, t});
  }
  std::vector<Line> take() {
    std::lock_guard l(m);
    return std::move(lines);
  }
};
// counts how often it was formatted
struct Costly {
  std::atomic<int> *n;
  std::string text;
};
std::ostream &operator<<(std::ostream &os, const Costly &x) {
  ++*x.n;
  return os << x.text;
}

template <class... A>
void logAs(int lv, bool macro, A &&...a) {
  if (macro) switch (lv) {
      case 0: MAF_LOGGER_INFO(a...); return;
      case 1: MAF_LOGGER_WARN(a...); return;
      case 2: MAF_LOGGER_ERROR(a...); return;
      case 3: MAF_LOGGER_FATAL(a...); return;
      case 4: MAF_LOGGER_DEBUG(a...); return;
      default: MAF_LOGGER_VERBOSE(a...); return;
    }
  switch (lv) {
    case 0: mlog::info(a...); return;
    case 1: mlog::warn(a...); return;
    case 2: mlog::error(a...); return;
    case 3: mlog::fatal(a...); return;
    case 4: mlog::debug(a...); return;
    default: mlog::verbose(a...); return;
  }
}
bool allowedBy(int lv) {
  switch (lv) {
    case 0: return mlog::infoAllowed();
    case 1: return mlog::warnAllowed();
    case 2: return mlog::errorAllowed();
    case 3: return mlog::fatalAllowed();
    case 4: return mlog::debugAllowed();
    default: return mlog::verboseAllowed();
  }
}
std::string someText(Rng &r) {
  std::string s;
  auto n = r.chance(5) ? r.below(100000) : r.below(200);
  for (uint64_t i = 0; i < n; ++i) s.push_back((char)r.range(r.chance(90) ? 32 : 0, r.chance(90) ? 126 : 255));
  return s;
}
// one line tells its level and the whole text
void expectLine(Ctx &c, const Line &l, int lv, const std::string &body, int sink) {
  c.expect(l.text.find(body) != std::string::npos, "text", "a message of ", body.size(), " characters came incomplete: ", l.text.substr(0, 200));
  auto head = l.text.substr(0, l.text.find(body));
  for (int i = 0; i < 6; ++i) c.expect((head.find(levels[i].name) != std::string::npos) == (i == lv), "level", "a message of level ", levels[lv].name, " came as ", head);
  if (sink >= 0) c.expect(l.sink == sink, "sink", "a message of level ", levels[lv].name, " came to sink ", l.sink);
}
}  // namespace

SCENARIO(logger) {
  auto sinks = std::make_shared<Sinks>();
  int out = 0, err = 0;  // current sinks
  int next = 1;
  unsigned mask = 0;
  auto sink = [&](int id) { return [sinks, id](const std::string &t) { sinks->add(id, t); }; };
  auto init = [&](unsigned lv, bool o, bool e) {
    int io = next++, ie = next++;
    mlog::init((mlog::LogLevels)lv, o ? mlog::LoggingFunctionType(sink(io)) : mlog::LoggingFunctionType{}, e ? mlog::LoggingFunctionType(sink(ie)) : mlog::LoggingFunctionType{});
    if (o) out = io;
    err = e ? ie : out;  // without its own sink errors go to the other one
    mask = lv;
  };
  init((unsigned)c.rng.below(64), true, c.rng.chance(50));
  int ops = c.thorough ? 1500 : 400;
  for (int i = 0; i < ops && !c.failed(); ++i) {
    auto k = c.rng.below(100);
    // a set of levels, mostly one
    unsigned lv = c.rng.chance(70) ? 1u << c.rng.below(6) : (unsigned)c.rng.below(64);
    if (k < 12) mlog::enable((mlog::LogLevel)lv), mask |= lv;
    else if (k < 24) mlog::disable((mlog::LogLevel)lv), mask &= ~lv;
    else if (k < 28) mlog::changeLogLevels((mlog::LogLevels)lv), mask = lv;
    else if (k < 30) mlog::stopLogging(), mask = 0;
    else if (k < 33) init((unsigned)c.rng.below(64), c.rng.chance(70), c.rng.chance(60));
    for (int j = 0; j < 6; ++j)
      c.expect(mlog::allowed(levels[j].bit) == !!(mask & levels[j].bit) && allowedBy(j) == !!(mask & levels[j].bit), "allowed", "after ", i, " steps level ", levels[j].name, " is ",
               mlog::allowed(levels[j].bit) ? "enabled" : "disabled", " but the enabled ones are ", mask);
    if (k >= 33 || c.rng.chance(30)) {
      int j = (int)c.rng.below(6);
      bool on = mask & levels[j].bit;
      std::atomic<int> formatted{0};
      Costly x{&formatted, "{" + std::to_string(i) + ":" + someText(c.rng)};
      int num = (int)c.rng.next();
      bool macro = c.rng.chance(50);
      std::ostringstream body;
      switch (c.rng.below(4)) {
        case 0:
          logAs(j, macro, x, num, "|", -1.5, 'c');
          body << x.text << num << "|" << -1.5 << 'c';
          break;
        case 1:
          logAs(j, macro, "<", x);
          body << "<" << x.text;
          break;
        case 2:
          logAs(j, macro, x);
          body << x.text;
          break;
        default:
          macro = false;
          mlog::log(levels[j].bit, levels[j].name, x, num);
          body << x.text << num;
      }
      auto got = sinks->take();
      if (on) {
        c.expect(got.size() == 1, "delivery", "an enabled message of level ", levels[j].name, " came ", got.size(), " times");
        if (got.size() == 1) {
          expectLine(c, got[0], j, body.str(), levels[j].toErr ? err : out);
          c.expect(formatted == 1, "formatted", "a message was formatted ", formatted.load(), " times");
        }
        c.observe("passed");
      } else {
        c.expect(got.empty(), "delivery", "a disabled message of level ", levels[j].name, " came");
        c.expect(formatted == 0, "formatted", "a disabled message was formatted");
        c.observe("filtered");
      }
      c.log(4, j, on);
    }
  }
  mlog::stopLogging();
  mlog::init(0, [](const std::string &) {}, [](const std::string &) {});
  c.nontrivial();
  c.sign();
}

SCENARIO(logger_threads) {
  auto sinks = std::make_shared<Sinks>();
  bool two = c.rng.chance(50);
  // one level is always enabled, one never, the others are changed by a thread each
  int order[6] = {0, 1, 2, 3, 4, 5};
  for (int i = 5; i > 0; --i) std::swap(order[i], order[c.rng.below((uint64_t)i + 1)]);
  int on = order[0], off = order[1];
  auto setUp = [&] {
    mlog::init(levels[on].bit, [sinks](const std::string &t) { sinks->add(0, t); }, two ? mlog::LoggingFunctionType([sinks](const std::string &t) { sinks->add(1, t); }) : mlog::LoggingFunctionType{});
  };
  setUp();
  int ths = c.rng.range(2, 4), per = c.thorough ? 1500 : 400;
  std::vector<std::thread> v;
  mon::Gate gate;
  std::atomic<int> running{ths};
  std::vector<std::vector<std::pair<int, std::string>>> sent((size_t)ths);
  for (int t = 0; t < ths; ++t)
    v.emplace_back([&, t, r = c.rng.fork()]() mutable {
      gate.wait();
      for (int n = 0; n < per; ++n) {
        int lv = r.chance(40) ? on : r.chance(20) ? off : (int)r.below(6);
        std::string body = "{" + std::to_string(t) + "." + std::to_string(n) + ":" + std::string(r.below(60), (char)('a' + t)) + "}";
        logAs(lv, r.chance(50), body);
        sent[(size_t)t].emplace_back(lv, body);
      }
      running--;
    });
  for (int k = 2; k < 6; ++k)
    v.emplace_back([&, lv = order[k], r = c.rng.fork()]() mutable {
      gate.wait();
      bool cur = false;
      while (running > 0 && !c.failed()) {
        if (r.chance(50)) mlog::enable(levels[lv].bit), cur = true;
        else mlog::disable(levels[lv].bit), cur = false;
        c.expect(mlog::allowed(levels[lv].bit) == cur, "change_lost", "level ", levels[lv].name, " is not as set");
        c.expect(mlog::allowed(levels[on].bit), "change_lost", "a level which nobody changes got disabled");
        c.expect(!mlog::allowed(levels[off].bit), "change_lost", "a level which nobody changes got enabled");
        c.observe("level_changes");
        if (r.chance(20)) mon::jitter(r);
      }
    });
  gate.release();
  for (auto &t : v) t.join();
  std::map<std::string, std::pair<int, int>> want;  // body -> level, count
  for (auto &s : sent)
    for (auto &[lv, body] : s) want[body] = {lv, 0};
  auto lines = sinks->take();
  for (auto &l : lines) {
    if (c.failed()) break;
    auto a = l.text.find('{'), b = l.text.find('}');
    auto it = a == std::string::npos || b == std::string::npos ? want.end() : want.find(l.text.substr(a, b - a + 1));
    c.expect(it != want.end(), "torn", "a message came which nobody wrote: ", l.text.substr(0, 200));
    if (it == want.end()) break;
    it->second.second++;
    expectLine(c, l, it->second.first, it->first, two && levels[it->second.first].toErr ? 1 : 0);
    c.log(5, it->second.first);
  }
  for (auto &[body, p] : want) {
    if (c.failed()) break;
    auto [lv, n] = p;
    if (lv == on) c.expect(n == 1, "lost", "a message of an enabled level came ", n, " times: ", body), c.observe("must_pass");
    else if (lv == off) c.expect(n == 0, "leaked", "a message of a disabled level came: ", body), c.observe("must_filter");
    else c.expect(n <= 1, "duplicated", "a message came ", n, " times: ", body), c.observe(n ? "may_passed" : "may_filtered");
  }
  mlog::stopLogging();
  c.nontrivial();
  c.sign();
}
