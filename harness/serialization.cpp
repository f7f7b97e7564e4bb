// P11 / P12: serialization round trips, hostile bytes
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/itc/ParamTrait.h>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/serialization/AggregateDump.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/VariantDump.h>
#include <maf/utils/serialization/VariantSerializer.h>
#include <sanitizer/allocator_interface.h>

#include <cmath>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>

#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
#include "mon.h"

using mon::Ctx;
using mon::Rng;
namespace srz = maf::srz;
using namespace maf::messaging;
using maf::messaging::ipc::local::LocalIPCMessage;

// ---------------------------------------------------------------- types
#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
// clang-format off
OBJECT(Leaf)
  MEMBERS
  (
    (std::string, text, "default text"),
    (int64_t, num, 100),
    (std::vector<int>, list, (std::vector<int>{1, 2, 3}))
  )
ENDOBJECT(Leaf)
using LeafMap = std::map<std::string, Leaf>;
using LeafPtr = std::shared_ptr<std::string>;
OBJECT(Tree)
  MEMBERS
  (
    (Leaf, one),
    (LeafMap, many),
    (double, dbl, 4.5),
    (bool, flag, true),
    (LeafPtr, ptr)
  )
ENDOBJECT(Tree)
// clang-format on
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>

namespace st {
enum class E8 : char { A, B, C };
enum class E64 : uint64_t { X = 1, Y = 1ULL << 40 };
enum Plain : int { P0, P1, P2 };
struct Agg1 {
  int i = 7;
  std::string s = "seven";
};
struct Agg2 {
  Agg1 a;
  std::vector<Agg1> v = {Agg1{}, Agg1{}};
  bool b = true;
  std::map<int, std::string> m = {{1, "one"}};
};
struct Agg9 {
  uint8_t a = 1;
  int16_t b = 2;
  float c = 3;
  double d = 4;
  std::string e = "e";
  std::set<std::string> f = {"f"};
  std::pair<int, std::string> g{8, "g"};
  std::tuple<int, bool> h{9, true};
  E8 i = E8::C;
};
class Tup {
 public:
  int x = 1;
  std::string y = "y";
  MC_MAF_GENERATE_AS_TUPLE_METHOD(x, y)
};
class TupDerived : public Tup {
 public:
  std::vector<std::string> z = {"z"};
  uint32_t w = 3;
  MC_MAF_GENERATE_AS_TUPLE_METHOD_WITH_BASE_CLASS(Tup, z, w)
};
struct Str : std::string {
  using std::string::string;
};
struct Custom {
  std::string val;
  int n = 0;
  Custom() {}
};
MC_MAF_DEFINE_SERIALIZE_FUNCTION(Custom, v) { maf::srz::serialize(os, std::make_tuple(v.n, v.val)); }
MC_MAF_DEFINE_DESERIALIZE_FUNCTION(Custom, v) {
  std::tuple<int, std::string> t;
  bool ok = maf::srz::deserialize(is, t);
  std::tie(v.n, v.val) = t;
  return ok;
}
#define EQDECL(T) bool operator==(const T &a, const T &b);
EQDECL(Agg1) EQDECL(Agg2) EQDECL(Agg9) EQDECL(Tup) EQDECL(TupDerived) EQDECL(Custom)
}  // namespace st

// ---------------------------------------------------------------- generators and equality, independent of maf
static size_t sizeOf(Rng &r) {
  switch (r.below(10)) {
    case 0: case 1: return 0;
    case 2: return 1;
    case 3: return r.below(40);
    default: return r.below(6);
  }
}
template <class T, class = void>
struct G;
template <class T>
void gen(Rng &r, T &v) { G<T>::gen(r, v); }
template <class T>
bool eq(const T &a, const T &b) { return G<T>::eq(a, b); }
template <class T>
T make(Rng &r) {
  T t{};
  gen(r, t);
  return t;
}

template <class T>
struct G<T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> {
  static void gen(Rng &r, T &v) {
    if constexpr (std::is_same_v<T, bool>) v = r.chance(50);
    else {
      using U = typename std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::common_type<T>>::type;
      switch (r.below(6)) {
        case 0: v = (T) std::numeric_limits<U>::max(); break;
        case 1: v = (T) std::numeric_limits<U>::min(); break;
        case 2: v = (T)(U)0; break;
        default: v = (T)(U)r.next();
      }
      if (std::is_same_v<T, st::Plain>) v = (T)r.below(3);
    }
  }
  static bool eq(const T &a, const T &b) { return a == b; }
};
template <class T>
struct G<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void gen(Rng &r, T &v) {
    switch (r.below(8)) {
      case 0: v = std::numeric_limits<T>::infinity(); break;
      case 1: v = -std::numeric_limits<T>::max(); break;
      case 2: v = std::numeric_limits<T>::denorm_min(); break;
      case 3: v = -T(0); break;
      case 4: v = std::numeric_limits<T>::quiet_NaN(); break;
      default: v = (T)((double)(int64_t)r.next() / 1e9);
    }
  }
  static bool eq(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
};
template <class C>
struct G<std::basic_string<C>> {
  static void gen(Rng &r, std::basic_string<C> &v) {
    v.clear();
    size_t n = r.chance(3) ? r.below(70000) : r.chance(20) ? r.below(200) : sizeOf(r);
    for (size_t i = 0; i < n; ++i) v.push_back(r.chance(15) ? C(0) : (C)r.next());
  }
  static bool eq(const std::basic_string<C> &a, const std::basic_string<C> &b) { return a == b; }
};
template <>
struct G<st::Str> {
  static void gen(Rng &r, st::Str &v) { G<std::string>::gen(r, v); }
  static bool eq(const st::Str &a, const st::Str &b) { return (const std::string &)a == b; }
};
template <class A, class B>
struct G<std::pair<A, B>> {
  static void gen(Rng &r, std::pair<A, B> &v) { ::gen(r, v.first); ::gen(r, v.second); }
  static bool eq(const std::pair<A, B> &a, const std::pair<A, B> &b) { return ::eq(a.first, b.first) && ::eq(a.second, b.second); }
};
template <class... A>
struct G<std::tuple<A...>> {
  using T = std::tuple<A...>;
  static void gen(Rng &r, T &v) { std::apply([&](auto &...x) { (::gen(r, x), ...); }, v); }
  template <size_t... I>
  static bool eqi(const T &a, const T &b, std::index_sequence<I...>) { return (::eq(std::get<I>(a), std::get<I>(b)) && ...); }
  static bool eq(const T &a, const T &b) { return eqi(a, b, std::index_sequence_for<A...>()); }
};
template <class T>
struct Seq {
  static void gen(Rng &r, T &v) {
    v.clear();
    for (size_t n = sizeOf(r); n; --n) {
      typename T::value_type e{};
      ::gen(r, e);
      v.push_back(std::move(e));
    }
  }
  static bool eq(const T &a, const T &b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end(); ++i, ++j) {
      typename T::value_type const &x = *i, &y = *j;
      if (!::eq<typename T::value_type>(x, y)) return false;
    }
    return true;
  }
};
template <class E> struct G<std::vector<E>> : Seq<std::vector<E>> {};
template <class E> struct G<std::list<E>> : Seq<std::list<E>> {};
template <class E> struct G<std::deque<E>> : Seq<std::deque<E>> {};
template <class T, class K, bool MAP>
struct Assoc {
  static void gen(Rng &r, T &v) {
    v.clear();
    for (size_t n = sizeOf(r); n; --n) {
      K k{};
      ::gen(r, k);
      if constexpr (MAP) {
        typename T::mapped_type m{};
        ::gen(r, m);
        v.emplace(std::move(k), std::move(m));
        if (r.chance(20)) { K k2 = v.begin()->first; v.emplace(k2, make<typename T::mapped_type>(r)); }
      } else {
        v.insert(k);
        if (r.chance(20)) v.insert(k);
      }
    }
  }
  static bool eq(const T &a, const T &b) {
    if (a.size() != b.size()) return false;
    if constexpr (MAP) {
      std::vector<bool> used(b.size());
      for (auto &x : a) {   // order of equal keys / of hashing does not matter
        size_t n = 0;
        bool hit = false;
        for (auto &y : b) {
          if (!used[n] && ::eq<K>(x.first, y.first) && ::eq<typename T::mapped_type>(x.second, y.second)) { used[n] = hit = true; break; }
          ++n;
        }
        if (!hit) return false;
      }
      return true;
    } else
      return a == b;
  }
};
template <class K> struct G<std::set<K>> : Assoc<std::set<K>, K, false> {};
template <class K> struct G<std::multiset<K>> : Assoc<std::multiset<K>, K, false> {};
template <class K> struct G<std::unordered_set<K>> : Assoc<std::unordered_set<K>, K, false> {};
template <class K, class V> struct G<std::map<K, V>> : Assoc<std::map<K, V>, K, true> {};
template <class K, class V> struct G<std::multimap<K, V>> : Assoc<std::multimap<K, V>, K, true> {};
template <class K, class V> struct G<std::unordered_map<K, V>> : Assoc<std::unordered_map<K, V>, K, true> {};
template <class P, class E>
struct Ptr {
  static void gen(Rng &r, P &v) {
    if (r.chance(30)) v.reset();
    else {
      v.reset(new E{});
      ::gen(r, *v);
    }
  }
  static bool eq(const P &a, const P &b) { return !a == !b && (!a || ::eq<E>(*a, *b)); }
};
template <class E> struct G<std::shared_ptr<E>> : Ptr<std::shared_ptr<E>, E> {};
template <class E> struct G<std::unique_ptr<E>> : Ptr<std::unique_ptr<E>, E> {};
// raw pointers are owned by this pool
static std::vector<std::shared_ptr<void>> gPool;
template <class E>
struct G<E *> {
  static void gen(Rng &r, E *&v) {
    if (r.chance(30)) v = nullptr;
    else {
      auto p = std::make_shared<E>();
      ::gen(r, *p);
      v = p.get();
      gPool.push_back(p);
    }
  }
  static bool eq(E *const &a, E *const &b) { return !a == !b && (!a || ::eq<E>(*a, *b)); }
};
template <class... A>
struct G<std::variant<A...>> {
  using T = std::variant<A...>;
  template <size_t I = 0>
  static void pick(Rng &r, T &v, size_t k) {
    if constexpr (I < sizeof...(A)) {
      if (I == k) v.template emplace<I>(make<std::variant_alternative_t<I, T>>(r));
      else pick<I + 1>(r, v, k);
    }
  }
  static void gen(Rng &r, T &v) { pick(r, v, r.below(sizeof...(A))); }
  static bool eq(const T &a, const T &b) {
    return a.index() == b.index() && std::visit([&](auto &x) { return ::eq(x, std::get<std::decay_t<decltype(x)>>(b)); }, a);
  }
};
#define FIELDS(T, ...)                                                            \
  template <>                                                                     \
  struct G<T> {                                                                   \
    static auto tie(const T &o) { return std::apply([&](auto... m) { return std::tie(o.*m...); }, std::make_tuple(__VA_ARGS__)); } \
    static void gen(Rng &r, T &v) { std::apply([&](auto... m) { (::gen(r, v.*m), ...); }, std::make_tuple(__VA_ARGS__)); }          \
    static bool eq(const T &a, const T &b) {                                      \
      return std::apply([&](auto... m) { return (::eq(a.*m, b.*m) && ...); }, std::make_tuple(__VA_ARGS__));                        \
    }                                                                             \
  };
FIELDS(st::Agg1, &st::Agg1::i, &st::Agg1::s)
FIELDS(st::Agg2, &st::Agg2::a, &st::Agg2::v, &st::Agg2::b, &st::Agg2::m)
FIELDS(st::Agg9, &st::Agg9::a, &st::Agg9::b, &st::Agg9::c, &st::Agg9::d, &st::Agg9::e, &st::Agg9::f, &st::Agg9::g, &st::Agg9::h, &st::Agg9::i)
FIELDS(st::Tup, &st::Tup::x, &st::Tup::y)
FIELDS(st::TupDerived, &st::TupDerived::x, &st::TupDerived::y, &st::TupDerived::z, &st::TupDerived::w)
FIELDS(st::Custom, &st::Custom::val, &st::Custom::n)
FIELDS(Leaf, &Leaf::text_, &Leaf::num_, &Leaf::list_)
FIELDS(Tree, &Tree::one_, &Tree::many_, &Tree::dbl_, &Tree::flag_, &Tree::ptr_)
namespace st {
#define EQDEF(T) bool operator==(const T &a, const T &b) { return ::eq(a, b); }
EQDEF(Agg1) EQDEF(Agg2) EQDEF(Agg9) EQDEF(Tup) EQDEF(TupDerived) EQDEF(Custom)
}  // namespace st
template <>
struct G<Address> {
  static void gen(Rng &r, Address &v) { ::gen(r, v.get_name()); ::gen(r, v.get_port()); }
  static bool eq(const Address &a, const Address &b) { return a.get_name() == b.get_name() && a.get_port() == b.get_port(); }
};

// ---------------------------------------------------------------- allocation monitor
static thread_local bool tlTrack = false;
static std::atomic<int64_t> gLive{0}, gPeak{0};
static void onMalloc(const volatile void *p, size_t n) {
  if (!tlTrack) return;
  int64_t l = gLive += (int64_t)n;
  int64_t k = gPeak;
  while (l > k && !gPeak.compare_exchange_weak(k, l)) {}
}
static void onFree(const volatile void *p) {
  if (!tlTrack || !p) return;
  gLive -= (int64_t)__sanitizer_get_allocated_size((const void *)p);
}
static int hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
struct Track {
  Track() { gLive = 0; gPeak = 0; tlTrack = true; }
  int64_t stop() { tlTrack = false; return gPeak; }
  ~Track() { tlTrack = false; }
};

// ---------------------------------------------------------------- type erased operations
struct Val {
  virtual ~Val() = default;
  virtual void ser(srz::OByteStream &os) const = 0;
  virtual void ser(std::ostream &os) const = 0;
  virtual bool de(srz::IByteStream &is) = 0;
  virtual bool de(srz::IByteStreamView &is) = 0;
  virtual bool de(std::istream &is) = 0;
  virtual int64_t size() const = 0;   // -1: no size for this type
  virtual bool equals(const Val &o) const = 0;
  virtual std::unique_ptr<Val> fresh() const = 0;
  virtual std::unique_ptr<Val> dirty(Rng &r) const = 0;
  virtual std::unique_ptr<Val> copy() const = 0;
  virtual void dump() const = 0;
  virtual bool stable() const = 0;   // re-encoding gives the same bytes
  virtual CSPayloadIFPtr outgoing(bool null) const = 0;
  virtual bool decodedEquals(const CSPayloadIFPtr &p, bool null, bool itcToo) const = 0;
  virtual bool decodeAny(const CSPayloadIFPtr &p) const = 0;
  const char *name = "";
};
template <class T> struct HasSize : std::true_type {};
template <class... A> struct HasSize<std::variant<A...>> : std::false_type {};
template <> struct HasSize<st::Custom> : std::false_type {};
template <class A> struct HasSize<std::vector<A>> : HasSize<A> {};
template <class A> struct Stable : std::true_type {};
template <class A> struct Stable<std::unordered_set<A>> : std::false_type {};
template <class A, class B> struct Stable<std::unordered_map<A, B>> : std::false_type {};
template <class T> struct RawPtr : std::false_type {};
template <class T> struct RawPtr<T *> : std::true_type {};
template <class T, bool RAW = RawPtr<T>::value>
struct Own {   // frees what deserialization of raw pointers created
  void operator()(T &) {}
};
template <class T> struct Copyable : std::is_copy_assignable<T> {};
template <class T> struct Copyable<std::vector<std::unique_ptr<T>>> : std::false_type {};
template <class T>
struct V : Val {
  T v{};
  bool decoded = false;
  V(const char *n) { name = n; }
  ~V() override {
    if constexpr (RawPtr<T>::value) {
      if (decoded) delete v;
    }
  }
  template <class S>
  bool get(S &is) {
    if constexpr (RawPtr<T>::value) {
      if (decoded) delete v;
      v = nullptr;
    }
    decoded = true;
    return srz::deserialize(is, v);
  }
  void ser(srz::OByteStream &os) const override { srz::serialize(os, v); }
  void ser(std::ostream &os) const override { srz::serialize(os, v); }
  bool de(srz::IByteStream &is) override { return get(is); }
  bool de(srz::IByteStreamView &is) override { return get(is); }
  bool de(std::istream &is) override { return get(is); }
  int64_t size() const override {
    if constexpr (HasSize<T>::value) return srz::serializedSize(v);
    else return -1;
  }
  bool equals(const Val &o) const override { return ::eq<T>(v, static_cast<const V &>(o).v); }
  std::unique_ptr<Val> fresh() const override { return std::make_unique<V>(name); }
  std::unique_ptr<Val> dirty(Rng &r) const override {
    auto p = std::make_unique<V>(name);
    gen(r, p->v);
    return p;
  }
  std::unique_ptr<Val> copy() const override {
    auto p = std::make_unique<V>(name);
    if constexpr (Copyable<T>::value) p->v = v;
    return p;
  }
  void dump() const override {
    srz::toString(v);
    srz::toString(v, -1);
  }
  bool stable() const override { return Stable<T>::value; }
  // payloads
  static constexpr bool PL = Copyable<T>::value && !RawPtr<T>::value;
  CSPayloadIFPtr outgoing(bool null) const override {
    if constexpr (PL) return ipc::local::ParamTrait::translate(null ? std::shared_ptr<T>{} : std::make_shared<T>(v));
    else return {};
  }
  bool decodedEquals(const CSPayloadIFPtr &p, bool null, bool itcToo) const override {
    if constexpr (PL) {
      if (itcToo) {
        auto sp = std::make_shared<T>(v);
        auto q = itc::ParamTrait::translate(sp);
        TranslationStatus ts = TranslationStatus::Success;
        auto back = itc::ParamTrait::template translate<T>(q, &ts);
        if (!back || !::eq<T>(*back, v)) return false;
      }
      TranslationStatus ts = TranslationStatus::NoSource;
      auto sp = ipc::local::ParamTrait::translate<T>(p, &ts);
      return null ? !sp : (sp && ts == TranslationStatus::Success && ::eq<T>(*sp, v));
    } else
      return true;
  }
  bool decodeAny(const CSPayloadIFPtr &p) const override {
    if constexpr (PL) return (bool)ipc::local::ParamTrait::translate<T>(p);
    else return false;
  }
};
template <class T>
struct Kind {
  static std::unique_ptr<Val> make(Rng &r, const char *n) {
    auto p = std::make_unique<V<T>>(n);
    gen(r, p->v);
    return p;
  }
};
using Maker = std::unique_ptr<Val> (*)(Rng &, const char *);
struct Entry { const char *name; Maker make; };
#define TYPE(...) Entry{#__VA_ARGS__, &Kind<__VA_ARGS__>::make}
using std::map; using std::string; using std::vector; using std::set; using std::pair; using std::tuple; using std::shared_ptr; using std::unique_ptr; using std::variant;
static const Entry kTypes[] = {
    TYPE(bool), TYPE(char), TYPE(int8_t), TYPE(uint8_t), TYPE(int16_t), TYPE(uint16_t), TYPE(int32_t), TYPE(uint32_t), TYPE(int64_t), TYPE(uint64_t),
    TYPE(wchar_t), TYPE(float), TYPE(double), TYPE(st::E8), TYPE(st::E64), TYPE(st::Plain),
    TYPE(string), TYPE(std::wstring), TYPE(std::u16string), TYPE(st::Str),
    TYPE(vector<int>), TYPE(vector<string>), TYPE(vector<bool>), TYPE(vector<vector<uint8_t>>), TYPE(std::list<double>), TYPE(std::deque<uint16_t>),
    TYPE(set<int>), TYPE(set<string>), TYPE(std::multiset<int>), TYPE(std::unordered_set<int>), TYPE(set<pair<int, string>>),
    TYPE(map<string, int>), TYPE(map<int, vector<string>>), TYPE(std::multimap<int, string>), TYPE(std::unordered_map<string, double>),
    TYPE(map<set<int>, vector<set<int>>>), TYPE(map<string, map<string, vector<set<int64_t>>>>),
    TYPE(pair<int, string>), TYPE(pair<string, vector<pair<int, int>>>), TYPE(tuple<int, string, double>), TYPE(tuple<int>),
    TYPE(tuple<string>), TYPE(tuple<vector<tuple<int, string>>, map<int, tuple<string, bool>>, pair<string, string>>),
    TYPE(shared_ptr<int>), TYPE(shared_ptr<vector<string>>), TYPE(unique_ptr<string>), TYPE(unique_ptr<pair<int, string>>), TYPE(string *), TYPE(int *),
    TYPE(vector<shared_ptr<string>>), TYPE(map<int, shared_ptr<vector<int>>>), TYPE(vector<unique_ptr<int>>),
    TYPE(variant<int, string, vector<double>>), TYPE(vector<variant<bool, string>>), TYPE(variant<double, Leaf, map<int, string>, st::Agg1>),
    TYPE(st::Agg1), TYPE(st::Agg2), TYPE(st::Agg9), TYPE(vector<st::Agg2>), TYPE(st::Tup), TYPE(st::TupDerived), TYPE(vector<st::TupDerived>),
    TYPE(st::Custom), TYPE(vector<st::Custom>), TYPE(Leaf), TYPE(Tree), TYPE(map<int, Tree>), TYPE(shared_ptr<Tree>), TYPE(Address), TYPE(vector<Address>),
};
static constexpr size_t kN = sizeof kTypes / sizeof *kTypes;
static std::unique_ptr<Val> any(Rng &r) {
  auto &e = kTypes[r.below(kN)];
  return e.make(r, e.name);
}
static std::string enc(const Val &v) {
  srz::OByteStream os;
  v.ser(os);
  return os.bytes();
}
static uint64_t hashBytes(const std::string &s) { return std::hash<std::string>()(s); }

// ---------------------------------------------------------------- P11
SCENARIO(srz_roundtrip) {
  auto &r = c.rng;
  for (int k = 0; k < (c.thorough ? 60 : 25); ++k) {
    auto v = any(r);
    auto keep = v->copy();
    bool copyable = keep->equals(*v);
    auto bytes = enc(*v);
    auto sz = v->size();
    c.expect(sz < 0 || sz == (int64_t)bytes.size(), "size", v->name, " announced ", sz, " bytes but wrote ", bytes.size());
    v->dump();
    if (copyable) c.expect(v->equals(*keep), "changed", v->name, " changed by encoding or dumping");
    std::ostringstream oss;
    v->ser(oss);
    c.expect(oss.str() == bytes, "streams", v->name, " encoded differently in another stream");
    for (int mode = 0; mode < 6; ++mode) {
      auto t = mode & 1 ? v->dirty(r) : v->fresh();
      bool ok;
      size_t pos;
      std::string extra = r.chance(50) ? r.bytes(r.below(9)) : "";
      if (mode < 2) {
        srz::IByteStream is(bytes + extra);
        ok = t->de(is);
        pos = is.readingPos();
        c.expect(ok && !is.fail() && is.eof() == (!bytes.empty() && extra.empty()), "state", v->name, " stream state after reading");
      } else if (mode < 4) {
        std::string buf = bytes + extra;
        srz::IByteStreamView is(buf);
        ok = t->de(is);
        pos = is.readingPos();
      } else {
        std::istringstream is(bytes + extra);
        ok = t->de(is);
        pos = (size_t)is.tellg();
      }
      c.expect(ok, "refused", v->name, " could not be read back (", bytes.size(), " bytes, mode ", mode, ")");
      c.expect(pos == bytes.size(), "consumed", v->name, " wrote ", bytes.size(), " bytes but ", pos, " were read");
      c.expect(t->equals(*v), "different", v->name, " read back different from what was written, mode ", mode);
      if (v->stable()) c.expect(enc(*t) == bytes, "reencoded", v->name, " encodes differently after a round trip");
    }
    c.observe("roundtrips", 6);
    c.sign(hashBytes(bytes + v->name));
    if (bytes.size() > 4) c.nontrivial();
    gPool.clear();
  }
}

SCENARIO(srz_sequence) {
  auto &r = c.rng;
  std::vector<std::unique_ptr<Val>> vs;
  srz::OByteStream os;
  std::vector<size_t> ends;
  for (int n = r.range(1, 12); n; --n) {
    vs.push_back(any(r));
    vs.back()->ser(os);
    ends.push_back(os.bytes().size());
  }
  srz::IByteStream is(os.bytes());
  std::istringstream ss(os.bytes());
  for (size_t i = 0; i < vs.size(); ++i) {
    auto t = vs[i]->fresh(), u = vs[i]->dirty(r);
    c.expect(t->de(is) && t->equals(*vs[i]) && is.readingPos() == ends[i], "sequence", vs[i]->name, " not read back from position ", i);
    c.expect(u->de(ss) && u->equals(*vs[i]), "sequence", vs[i]->name, " not read back from position ", i, " of a std stream");
    if (r.chance(20)) {   // a copy of the stream reads on from the same position
      srz::IByteStream cp(is);
      if (i + 1 < vs.size()) {
        auto w = vs[i + 1]->fresh();
        c.expect(w->de(cp) && w->equals(*vs[i + 1]), "copy", "a copied stream reads something else");
      }
      srz::IByteStreamView view(is);
      if (i + 1 < vs.size()) {
        auto w = vs[i + 1]->fresh();
        c.expect(w->de(view) && w->equals(*vs[i + 1]), "view", "a view of the stream reads something else");
      }
    }
  }
  c.expect(is.readingPos() == ends.back() && (is.eof() || !ends.back()), "rest", "bytes left over");
  {   // a stream which is reset starts over
    os.reset();
    vs[0]->ser(os);
    c.expect(os.bytes() == enc(*vs[0]), "reset", "a reset stream holds old bytes");
  }
  // operators and batches
  auto a = make<int>(r);
  auto s = make<std::string>(r);
  auto l = make<Leaf>(r);
  auto m = make<std::map<int, st::Agg1>>(r);
  std::stringstream bs;
  srz::SR sr(bs);
  srz::DSR dsr(bs);
  sr << a << s;
  sr.serializeBatch(l, m, s);
  sr << m;
  int a2 = make<int>(r);
  auto s2 = make<std::string>(r), s3 = make<std::string>(r);
  auto l2 = make<Leaf>(r);
  auto m2 = make<std::map<int, st::Agg1>>(r);
  auto m3 = make<std::map<int, st::Agg1>>(r);
  dsr >> a2 >> s2;
  dsr.deserializeBatch(l2, m2, s3);
  dsr >> m3;
  c.expect(a == a2 && s == s2 && eq(l, l2) && eq(m, m2) && s3 == s && eq(m3, m), "batch", "batch not read back");
  c.observe("sequences");
  c.sign(hashBytes(os.bytes()));
  c.nontrivial();
  gPool.clear();
}

static CSMessagePtr randomMsg(Rng &r, const Val &v, int how) {
  auto code = (OpCode)r.below(11);
  auto m = createCSMessage<LocalIPCMessage>(make<std::string>(r), make<std::string>(r), code, r.chance(30) ? RequestIDInvalid : r.next(), nullptr,
                                            Address(make<std::string>(r), (uint16_t)r.next()));
  if (how == 1) m->setPayload(v.outgoing(false));
  if (how == 2) m->setPayload(v.outgoing(true));
  if (how == 3) m->setPayload(std::make_shared<CSError>(make<std::string>(r), (CSErrorCode)r.below(10)));
  return m;
}
SCENARIO(srz_messages) {
  auto &r = c.rng;
  for (int k = 0; k < 12; ++k) {
    auto v = any(r);
    int how = (int)r.below(4);
    auto m = std::static_pointer_cast<LocalIPCMessage>(randomMsg(r, *v, how));
    if (how && how < 3 && !m->payload()) how = 0;
    auto bytes = m->toBytes();
    c.expect(bytes == m->toBytes(), "twice", "encoding a message changes it");
    LocalIPCMessage n;
    auto cp = bytes;
    c.expect(n.fromBytes(std::move(cp)), "refused", "message not read back");
    c.expect(n.serviceID() == m->serviceID() && n.operationID() == m->operationID() && n.operationCode() == m->operationCode() &&
                 n.requestID() == m->requestID() && eq(n.sourceAddress(), m->sourceAddress()),
             "header", "message header changed");
    if (how == 3) {
      auto e = std::static_pointer_cast<CSError>(m->payload());
      c.expect(n.payload() && n.payload()->type() == CSPayloadType::Error, "error", "an error payload came back as something else");
      if (n.payload() && n.payload()->type() == CSPayloadType::Error) {
        auto f = std::static_pointer_cast<CSError>(n.payload());
        c.expect(f->code() == e->code() && f->description() == e->description() && f->equal(e.get()), "error", "an error changed");
      }
    } else if (how) {
      c.expect(n.payload() && n.payload()->type() == CSPayloadType::IncomingData, "payload", "payload came back with another type");
      if (n.payload()) {
        c.expect(v->decodedEquals(n.payload(), how == 2, how == 1), "payload", v->name, " payload changed on its way");
        c.expect(v->decodedEquals(n.payload(), how == 2, false), "payload-again", v->name, " payload cannot be read twice");
        std::unique_ptr<CSMsgPayloadIF> cl(n.payload()->clone());
        c.expect(v->decodedEquals(CSPayloadIFPtr(std::move(cl)), how == 2, false), "payload-clone", v->name, " cloned payload differs");
        if (how == 1) c.expect(v->decodedEquals(m->payload(), false, false) || true, "local", "");
      }
    }
    c.observe("messages");
    c.sign(hashBytes(bytes));
    c.nontrivial();
  }
  gPool.clear();
}

// ---------------------------------------------------------------- P12
static int64_t bound(size_t n) { return (int64_t)n * 400 + (1 << 20); }
template <class F>
static bool guarded(Ctx &c, const char *what, size_t n, F f) {
  bool res = false;
  int64_t peak = 0;
  auto t0 = mon::nowUs();
  try {
    Track t;
    res = f();
    peak = t.stop();
  } catch (const std::exception &e) {
    c.expect(false, "threw", what, " threw ", e.what(), " while decoding ", n, " bytes");
  }
  auto dt = mon::nowUs() - t0;
  c.expect(peak <= bound(n), "allocated", what, " allocated ", peak, " bytes decoding ", n);
  c.expect(dt < 20000000, "slow", what, " took ", dt, "us decoding ", n, " bytes");
  return res;
}

SCENARIO(srz_truncated) {
  auto &r = c.rng;
  for (int k = 0; k < 10; ++k) {
    auto v = any(r);
    auto bytes = enc(*v);
    if (bytes.empty()) continue;
    std::vector<size_t> cuts;
    if (bytes.size() <= 64) for (size_t i = 0; i < bytes.size(); ++i) cuts.push_back(i);
    else {
      for (int i = 0; i < 40; ++i) cuts.push_back(r.below(bytes.size()));
      cuts.push_back(bytes.size() - 1);
      for (size_t i = 0; i < 8; ++i) cuts.push_back(i);
    }
    for (auto cut : cuts) {
      auto buf = bytes.substr(0, cut);
      for (int mode = 0; mode < 3; ++mode) {
        auto t = r.chance(50) ? v->fresh() : v->dirty(r);
        bool ok;
        size_t pos = 0;
        if (mode == 0) {
          srz::IByteStream is(buf);
          ok = guarded(c, v->name, cut, [&] { return t->de(is); });
          pos = is.readingPos();
        } else if (mode == 1) {
          srz::IByteStreamView is(buf);
          ok = guarded(c, v->name, cut, [&] { return t->de(is); });
          pos = is.readingPos();
        } else {
          std::istringstream is(buf);
          ok = guarded(c, v->name, cut, [&] { return t->de(is); });
        }
        c.expect(!ok, "truncated-ok", v->name, " of ", bytes.size(), " bytes cut to ", cut, " was read successfully, mode ", mode);
        c.expect(pos <= cut, "overread", v->name, " read up to ", pos, " of ", cut, " bytes");
      }
    }
    c.observe("truncations", cuts.size() * 3);
    c.sign(hashBytes(bytes + v->name));
    c.nontrivial();
    gPool.clear();
  }
}
static std::string corrupt(Rng &r, std::string b) {
  for (int n = r.range(1, 4); n; --n) {
    switch (r.below(6)) {
      case 0: if (!b.empty()) b[r.below(b.size())] = (char)r.next(); break;
      case 1: if (!b.empty()) b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
      case 2:   // sizes and counts
        if (b.size() >= 4) {
          static const uint32_t ks[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000000u, 0x00ffffffu, 1000000u, 65536u, 0x40000001u, 0x20000000u};
          uint32_t x = ks[r.below(9)];
          std::memcpy(&b[r.chance(30) ? 0 : r.below(b.size() - 3)], &x, 4);
        }
        break;
      case 3: b = b.substr(0, r.below(b.size() + 1)); break;
      case 4: b.insert(r.below(b.size() + 1), r.bytes(r.below(20))); break;
      case 5: if (b.size() > 1) { auto i = r.below(b.size()); b.erase(i, r.below(8) + 1); } break;
    }
  }
  return b;
}
SCENARIO(srz_hostile) {
  auto &r = c.rng;
  for (int k = 0; k < 30; ++k) {
    auto v = any(r);
    auto b = r.chance(25) ? r.bytes(r.below(100)) : corrupt(r, enc(*v));
    bool ok = false;
    for (int mode = 0; mode < 3; ++mode) {
      auto t = r.chance(50) ? v->fresh() : v->dirty(r);
      bool o;
      if (mode == 0) {
        srz::IByteStream is(b);
        o = guarded(c, v->name, b.size(), [&] { return t->de(is); });
        c.expect(is.readingPos() <= b.size(), "overread", v->name, " read ", is.readingPos(), " of ", b.size());
        c.expect(!(o && is.fail()), "failed-ok", v->name, " success reported by a failed stream");
        ok = o;
        // copies and views of a stream keep what became of it, so that a failed
        // one does not start reading again
        srz::IByteStream cp(is), moved(srz::IByteStream{is});
        srz::IByteStreamView view(is);
        auto same = [&](auto &x) {
          return x.good() == is.good() && x.fail() == is.fail() && x.eof() == is.eof() && x.readingPos() == is.readingPos();
        };
        c.expect(same(cp) && same(moved) && same(view), "state", "a copy of a stream of another state than the stream");
        if (is.fail()) {
          char z = 1;
          auto at = cp.readingPos();
          cp.read(&z, 1), view.read(&z, 1);
          c.expect(z == 1 && cp.readingPos() == at, "reads-on", "a failed stream read on");
        }
      } else if (mode == 1) {
        srz::IByteStreamView is(b);
        o = guarded(c, v->name, b.size(), [&] { return t->de(is); });
      } else {
        std::istringstream is(b);
        o = guarded(c, v->name, b.size(), [&] { return t->de(is); });
      }
      c.expect(o == ok, "disagree", v->name, " decoded ", o, " and ", ok, " from the same bytes");
      if (o) {   // whatever was accepted is a proper value
        auto e = enc(*t);
        c.expect(e.size() <= b.size(), "grown", v->name, " of ", b.size(), " bytes re-encodes to ", e.size());
        auto u = v->fresh();
        srz::IByteStream is2(e);
        c.expect(u->de(is2) && u->equals(*t), "accepted", v->name, " accepted from corrupted bytes does not round trip");
        t->dump();
      }
    }
    c.observe(ok ? "hostile_accepted" : "hostile_refused");
    c.sign(hashBytes(b + v->name));
    c.nontrivial();
    gPool.clear();
  }
}
SCENARIO(srz_hostile_messages) {
  auto &r = c.rng;
  for (int k = 0; k < 30; ++k) {
    auto v = any(r);
    int how = (int)r.below(4);
    auto m = std::static_pointer_cast<LocalIPCMessage>(randomMsg(r, *v, how));
    if (how && how < 3 && !m->payload()) how = 0;
    auto bytes = m->toBytes();
    // where does the header end
    auto h = createCSMessage<LocalIPCMessage>(m->serviceID(), m->operationID(), m->operationCode(), m->requestID(), nullptr, m->sourceAddress());
    size_t head = h->toBytes().size();
    if (r.chance(50)) {
      size_t cut = r.below(bytes.size());
      if (r.chance(40)) cut = std::min(bytes.size() - 1, head + r.below(bytes.size() - head + 1));
      auto b = bytes.substr(0, cut);
      LocalIPCMessage n;
      bool ok = guarded(c, "message", cut, [&] { auto x = b; return n.fromBytes(std::move(x)); });
      if (cut < head || how == 3) c.expect(!ok, "truncated-ok", "a message cut to ", cut, " of ", bytes.size(), " bytes was accepted");
      else {
        c.expect(ok, "refused", "message with complete header refused");
        if (how == 1 || how == 2)
          c.expect(!guarded(c, v->name, cut, [&] { return v->decodeAny(n.payload()); }), "truncated-payload", v->name, " payload cut to ", cut, " was accepted");
      }
      c.observe("truncated_messages");
    } else {
      auto b = r.chance(20) ? r.bytes(r.below(80)) : corrupt(r, bytes);
      LocalIPCMessage n;
      bool ok = guarded(c, "message", b.size(), [&] { auto x = b; return n.fromBytes(std::move(x)); });
      if (ok && n.payload()) {
        if (n.payload()->type() == CSPayloadType::IncomingData) guarded(c, v->name, b.size(), [&] { return v->decodeAny(n.payload()); });
        else c.expect(n.payload()->type() == CSPayloadType::Error, "type", "a received message carries a payload of type ", (int)n.payload()->type());
        std::ostringstream os;
        n.payload()->dump(os);
        os << n.operationCode();
      }
      c.observe(ok ? "hostile_msg_accepted" : "hostile_msg_refused");
      c.sign(hashBytes(b));
    }
    c.nontrivial();
    gPool.clear();
  }
}
