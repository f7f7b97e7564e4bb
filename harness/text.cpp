// P25: declared objects (construction, access, copies) and the text form of values
#define MAF_USING_JSON11
#include <json11.hpp>
#include <maf/utils/serialization/3rdparty/Json11Trait.h>
#include <maf/utils/serialization/AggregateDump.h>
#include <maf/utils/serialization/VariantDump.h>

#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <variant>

#include "mon.h"
using mon::Ctx;
using mon::Rng;

namespace text {
enum class Small : uint8_t { a, b, c };
enum Plain { p0, p1 = 70000, p2 = 0x7fffffff };
struct Point {
  int x{};
  std::string name{};
};
struct Shape {
  Point from{}, to{};
  std::vector<Point> points{};
  double width{};
};
struct Custom {
  int v{};
};
MC_MAF_DEFINE_DUMP_FUNCTION(Custom, c) { maf::srz::dump(os, c.v * 2, indentLevel); }
struct Forward {  // cannot be default constructed
  explicit Forward(int v) : v(v) {}
  int v;
};
MC_MAF_DEFINE_DUMP_FUNCTION(Forward, f) { maf::srz::dump(os, f.v, indentLevel); }
struct Node {
  int v{};
  std::shared_ptr<Node> next{};
};
using Strings = std::vector<std::string>;
using Table = std::map<std::string, std::vector<int>>;
}  // namespace text

#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
// clang-format off
namespace text {
OBJECT(Inner)
  MEMBERS
  (
    (int, id, 7),
    (std::string, label, "none")
  )
ENDOBJECT(Inner)
using Inners = std::map<std::string, Inner>;
OBJECT(Single)
  MEMBERS
  (
    (std::string, only)
  )
ENDOBJECT(Single)
OBJECT(Outer)
  MEMBERS
  (
    (bool, flag, true),
    (Inner, inner),
    (Strings, list),
    (Inners, table),
    (double, ratio, 2.5),
    (Small, small, Small::b),
    (std::shared_ptr<Inner>, maybe),
    (int64_t, big, -5000000000ll)
  )
ENDOBJECT(Outer)
using Ints = std::vector<int>;
using Inner2s = std::vector<Inner>;
OBJECT(Loaded)
  MEMBERS
  (
    (bool, flag, true),
    (int, number, 3),
    (int64_t, big),
    (double, ratio),
    (std::string, label, "start"),
    (Inner, inner),
    (Ints, ints),
    (Inner2s, inners),
    (Inners, table),
    (uint16_t, port)
  )
ENDOBJECT(Loaded)
OBJECT(Chain)
  MEMBERS
  (
    (int, v),
    (std::shared_ptr<Chain>, next)
  )
ENDOBJECT(Chain)
}
// clang-format on
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>

namespace text {
// ------------------------------------------------------------ values
void gen(Rng &r, bool &v) { v = r.chance(50); }
template <class T>
std::enable_if_t<std::is_integral_v<T>> gen(Rng &r, T &v) {
  switch (r.below(5)) {
    case 0: v = std::numeric_limits<T>::max(); break;
    case 1: v = std::numeric_limits<T>::min(); break;
    case 2: v = (T)r.next(); break;
    default: v = (T)r.below(300);
  }
}
void gen(Rng &r, double &v) {
  static const double ds[] = {0, 1.5, -2.25, 1e300, -1e-300, 123456789, 0.1};
  v = ds[r.below(7)];
}
void gen(Rng &r, float &v) { v = (float)r.below(1000) / 8; }
void gen(Rng &r, std::string &v) {
  static const char *ss[] = {"", "a", "with, comma", "two\nlines", "  ", "{}[]:", "long enough not to be stored within the string object itself"};
  v = ss[r.below(7)];
  if (r.chance(20)) v += "," + std::to_string(r.below(100));
  if (r.chance(10)) v.push_back('\0'), v += "after";
}
void gen(Rng &r, Small &v) { v = (Small)r.below(3); }
void gen(Rng &r, Plain &v) { v = r.chance(30) ? p2 : r.chance(50) ? p1 : p0; }
void gen(Rng &r, Point &v) { gen(r, v.x), gen(r, v.name); }
void gen(Rng &r, Custom &v) { v.v = (int)r.below(1000); }
void gen(Rng &r, Inner &v) { gen(r, v.id_), gen(r, v.label_); }
void gen(Rng &r, Single &v) { gen(r, v.only_); }
template <class T> void gen(Rng &r, std::vector<T> &v);
template <class T> void gen(Rng &r, std::list<T> &v);
template <class T> void gen(Rng &r, std::set<T> &v);
template <class K, class T> void gen(Rng &r, std::map<K, T> &v);
template <class K, class T> void gen(Rng &r, std::unordered_map<K, T> &v);
template <class A, class B> void gen(Rng &r, std::pair<A, B> &v);
template <class... A> void gen(Rng &r, std::tuple<A...> &v);
template <class... A> void gen(Rng &r, std::variant<A...> &v);
template <class T> void gen(Rng &r, std::shared_ptr<T> &v);
template <class T> void gen(Rng &r, std::unique_ptr<T> &v);
void gen(Rng &r, Shape &v) { gen(r, v.from), gen(r, v.to), gen(r, v.points), gen(r, v.width); }
void gen(Rng &r, Outer &v) {
  gen(r, v.flag_), gen(r, v.inner_), gen(r, v.list_), gen(r, v.table_), gen(r, v.ratio_), gen(r, v.small_), gen(r, v.maybe_), gen(r, v.big_);
}
template <class T> void gen(Rng &r, std::vector<T> &v) { v.resize(r.below(4)); for (auto &x : v) gen(r, x); }
template <class T> void gen(Rng &r, std::list<T> &v) { v.resize(r.below(4)); for (auto &x : v) gen(r, x); }
template <class T> void gen(Rng &r, std::set<T> &v) { for (auto n = r.below(4); n; --n) { T x{}; gen(r, x); v.insert(x); } }
template <class K, class T> void gen(Rng &r, std::map<K, T> &v) { for (auto n = r.below(4); n; --n) { K k{}; gen(r, k); gen(r, v[k]); } }
template <class K, class T> void gen(Rng &r, std::unordered_map<K, T> &v) { for (auto n = r.below(4); n; --n) { K k{}; gen(r, k); gen(r, v[k]); } }
template <class A, class B> void gen(Rng &r, std::pair<A, B> &v) { gen(r, v.first), gen(r, v.second); }
template <class... A> void gen(Rng &r, std::tuple<A...> &v) { std::apply([&](auto &...x) { (gen(r, x), ...); }, v); }
template <class... A> void gen(Rng &r, std::variant<A...> &v) {
  auto k = r.below(sizeof...(A));
  size_t i = 0;
  ((i++ == k ? (void)[&] { A x{}; gen(r, x); v.template emplace<A>(std::move(x)); }() : (void)0), ...);
}
template <class T> void gen(Rng &r, std::shared_ptr<T> &v) { v = std::make_shared<T>(), gen(r, *v); }
template <class T> void gen(Rng &r, std::unique_ptr<T> &v) { v = std::make_unique<T>(), gen(r, *v); }

// ------------------------------------------------------------ their text, written down independently
std::string in(int level, bool newline) { return level < 0 ? "" : (newline ? "\n" : "") + std::string((size_t)level * 2, ' '); }
int deeper(int level) { return level < 0 ? level : level + 1; }
const char *colon(int level) { return level < 0 ? ":" : ": "; }

std::string ref(bool v, int) { return v ? "true" : "false"; }
template <class T>
std::enable_if_t<std::is_arithmetic_v<T>, std::string> ref(T v, int) {
  std::ostringstream os;
  os << v;
  return os.str();
}
std::string ref(const std::string &v, int) { return v; }
std::string ref(Small v, int) { return std::to_string((unsigned)v); }
std::string ref(Plain v, int) { return std::to_string((unsigned)v); }
std::string ref(const Custom &v, int) { return std::to_string(v.v * 2); }
std::string ref(const Point &v, int l);
std::string ref(const Shape &v, int l);
std::string ref(const Inner &v, int l);
std::string ref(const Single &v, int l);
std::string ref(const Outer &v, int l);
template <class T> std::string ref(const std::vector<T> &v, int l);
template <class T> std::string ref(const std::list<T> &v, int l);
template <class T> std::string ref(const std::set<T> &v, int l);
template <class K, class T> std::string ref(const std::map<K, T> &v, int l);
template <class K, class T> std::string ref(const std::unordered_map<K, T> &v, int l);
template <class A, class B> std::string ref(const std::pair<A, B> &v, int l);
template <class... A> std::string ref(const std::tuple<A...> &v, int l);
template <class... A> std::string ref(const std::variant<A...> &v, int l);
template <class T> std::string ref(const std::shared_ptr<T> &v, int l);
template <class T> std::string ref(const std::unique_ptr<T> &v, int l);

std::string box(const char *open, const std::vector<std::string> &items, const char *close, int l) {
  std::string s = open;
  for (size_t i = 0; i < items.size(); ++i) s += (i ? "," : "") + in(deeper(l), true) + items[i];
  return s + in(l, true) + close;
}
template <class C>
std::string seq(const char *open, const C &v, const char *close, int l) {
  std::vector<std::string> items;
  for (auto &x : v) items.push_back(ref(x, deeper(l)));
  return box(open, items, close, l);
}
template <class T> std::string ref(const std::vector<T> &v, int l) { return seq("[", v, "]", l); }
template <class T> std::string ref(const std::list<T> &v, int l) { return seq("[", v, "]", l); }
template <class T> std::string ref(const std::set<T> &v, int l) { return seq("[", v, "]", l); }
template <class K, class T> std::string ref(const std::map<K, T> &v, int l) { return seq("{", v, "}", l); }
template <class K, class T> std::string ref(const std::unordered_map<K, T> &v, int l) { return seq("{", v, "}", l); }
template <class A, class B> std::string ref(const std::pair<A, B> &v, int l) { return ref(v.first, l) + colon(l) + ref(v.second, l); }
template <class... A> std::string ref(const std::tuple<A...> &v, int l) {
  std::vector<std::string> items;
  std::apply([&](auto &...x) { (items.push_back(ref(x, deeper(l))), ...); }, v);
  return box("[", items, "]", l);
}
template <class... A> std::string ref(const std::variant<A...> &v, int l) { return std::visit([&](auto &x) { return ref(x, l); }, v); }
template <class T> std::string ref(const std::shared_ptr<T> &v, int l) { return ref(*v, l); }
template <class T> std::string ref(const std::unique_ptr<T> &v, int l) { return ref(*v, l); }
std::string ref(const Point &v, int l) { return box("[", {ref(v.x, deeper(l)), ref(v.name, deeper(l))}, "]", l); }
std::string ref(const Shape &v, int l) {
  int d = deeper(l);
  return box("[", {ref(v.from, d), ref(v.to, d), ref(v.points, d), ref(v.width, d)}, "]", l);
}
// members under their names
struct Named {
  int level;
  std::vector<std::pair<std::string, std::string>> members;
  template <class T>
  Named &add(const char *name, const T &v) {
    members.emplace_back(name, ref(v, deeper(level)));
    return *this;
  }
  std::string text() {
    std::string s = in(level, false) + "{";
    for (size_t i = 0; i < members.size(); ++i)
      s += in(deeper(level), true) + members[i].first + colon(level) + members[i].second + (i + 1 < members.size() ? "," : " ");
    return s + in(level, true) + "}";
  }
};
std::string ref(const Inner &v, int l) { return Named{l}.add("id", v.id_).add("label", v.label_).text(); }
std::string ref(const Single &v, int l) { return Named{l}.add("only", v.only_).text(); }
std::string ref(const Outer &v, int l) {
  return Named{l}.add("flag", v.flag_).add("inner", v.inner_).add("list", v.list_).add("table", v.table_).add("ratio", v.ratio_).add("small", v.small_)
      .add("maybe", v.maybe_).add("big", v.big_).text();
}
std::string shown(const std::string &s) {
  std::string t;
  for (char ch : s) t += ch == '\n' ? "\\n" : ch == '\0' ? "\\0" : std::string(1, ch);
  return t.substr(0, 300);
}

template <class T>
void one(Ctx &c, const char *what) {
  T v{};
  gen(c.rng, v);
  for (int level : {-1, 0, (int)c.rng.below(6)}) {
    auto before = ref(v, level);
    auto got = maf::srz::toString(v, level);
    c.expect(got == before, "text", what, " at indent ", level, " is written as `", shown(got), "` instead of `", shown(before), "`");
    c.expect(ref(v, level) == before, "text_changed", what, " changed while it was written");
    c.expect(maf::srz::toString(v, level) == got, "text_again", what, " is written differently the second time");
    c.observe("texts");
  }
  std::ostringstream os;
  auto ds = maf::srz::dumpstream(os, -1);
  ds << v << maf::srz::indent(1) << v << maf::srz::nodump(12);
  c.expect(os.str() == ref(v, -1) + ref(v, 1) + "12", "stream", what, " written to a stream is `", shown(os.str()), "`");
  if (c.failed()) mon::quit();
}
#define ONE(...) one<__VA_ARGS__>(c, #__VA_ARGS__)
}  // namespace text

SCENARIO(text_values) {
  using namespace text;
  for (int i = 0; i < 10 && !c.failed(); ++i) {
    ONE(bool), ONE(int), ONE(uint64_t), ONE(int64_t), ONE(short), ONE(char), ONE(uint8_t), ONE(double), ONE(float), ONE(std::string);
    ONE(Small), ONE(Plain), ONE(Custom), ONE(Point), ONE(Shape), ONE(Inner), ONE(Single), ONE(Outer);
    ONE(std::vector<int>), ONE(std::list<std::string>), ONE(std::set<int>), ONE(std::vector<Strings>), ONE(Table), ONE(std::unordered_map<int, Inner>);
    ONE(std::pair<int, std::string>), ONE(std::tuple<int>), ONE(std::tuple<int, std::string, Point, Outer>), ONE(std::vector<std::pair<Inner, Small>>);
    ONE(std::variant<int, std::string>), ONE(std::vector<std::variant<bool, Point, Outer>>), ONE(std::map<int, std::variant<Strings, double>>);
    ONE(std::shared_ptr<int>), ONE(std::unique_ptr<std::string>), ONE(std::shared_ptr<std::vector<Inner>>), ONE(std::vector<std::shared_ptr<Outer>>);
    ONE(std::map<std::string, std::map<int, std::vector<Shape>>>), ONE(std::tuple<Table, std::vector<std::tuple<int, Single>>>);
    ONE(std::vector<Custom>), ONE(std::set<Inner>), ONE(std::map<Inner, Outer>);
  }
  // texts
  std::string s;
  gen(c.rng, s);
  std::string_view sv = s;
  c.expect(maf::srz::toString(sv) == s, "view", "a view of text is written as `", maf::srz::toString(sv), "`");
  auto cut = s.substr(0, s.find('\0'));
  const char *cs = cut.c_str();
  char *ms = cut.data();
  c.expect(maf::srz::toString(cs) == cut && maf::srz::toString(ms) == cut, "c_text", "a C text is written as `", maf::srz::toString(cs), "`");
  c.nontrivial();
  c.sign(c.rng.next());
}

// constructors, setters and copies
SCENARIO(text_objects) {
  using namespace text;
  auto &r = c.rng;
  for (int n = 0; n < 20 && !c.failed(); ++n) {
    Outer d;
    c.expect(d.get_flag() && d.get_inner() == Inner{} && d.get_list().empty() && d.get_table().empty() && d.get_ratio() == 2.5 && d.get_small() == Small::b &&
                 !d.get_maybe() && d.get_big() == -5000000000ll,
             "defaults", "a default constructed object is ", d.dump());
    c.expect(Inner{}.get_id() == 7 && Inner{}.get_label() == "none", "defaults", "a default constructed object is ", Inner{}.dump());
    Outer w;
    gen(r, w);
    // only the first few members given, the others have their defaults
    Outer a(w.flag_, w.inner_, w.list_);
    c.expect(a.get_flag() == w.flag_ && a.get_inner() == w.inner_ && a.get_list() == w.list_ && a.get_table() == d.get_table() && a.get_ratio() == d.get_ratio() &&
                 a.get_small() == d.get_small() && a.get_maybe() == d.get_maybe() && a.get_big() == d.get_big(),
             "constructed", "constructed from its first 3 members: ", a.dump());
    Outer b(w.flag_, w.inner_, w.list_, w.table_, w.ratio_, w.small_, w.maybe_, w.big_);
    c.expect(b == w && !(b != w) && !(b < w), "constructed", "constructed from all members: ", b.dump());
    // one by one
    Outer e;
    Outer want;
    for (int k = 0; k < 20; ++k) {
      Outer x;
      gen(r, x);
      bool moved = r.chance(50);
      Outer y = x;
#define SET(m)                                                                                           \
  (want.m##_ = x.m##_, moved ? e.set_##m(std::move(y.m##_)) : r.chance(50) ? e.set_##m(x.m##_) : (void)(e.get_##m() = x.m##_))
      switch (r.below(8)) {
        case 0: SET(flag); break;
        case 1: SET(inner); break;
        case 2: SET(list); break;
        case 3: SET(table); break;
        case 4: SET(ratio); break;
        case 5: SET(small); break;
        case 6: SET(maybe); break;
        case 7: SET(big); break;
      }
      c.expect(e.flag_ == want.flag_ && e.inner_ == want.inner_ && e.list_ == want.list_ && e.table_ == want.table_ && e.ratio_ == want.ratio_ &&
                   e.small_ == want.small_ && e.maybe_ == want.maybe_ && e.big_ == want.big_,
               "setter", "setting one member changed another one: ", e.dump(), " instead of ", want.dump());
      const Outer &ce = e;
      c.expect(&ce.get_list() == &ce.list_ && &e.get_table() == &e.table_, "getter", "a getter gives another member");
      c.observe("setters");
    }
    e.set_all(w.flag_, w.inner_, w.list_, w.table_, w.ratio_, w.small_, w.maybe_, w.big_);
    c.expect(e == w, "set_all", "after set_all: ", e.dump(), " instead of ", w.dump());
    // those left out get their defaults
    e.set_all(w.flag_, w.inner_);
    want = Outer(w.flag_, w.inner_);
    c.expect(e == want, "set_all", "after set_all of two members: ", e.dump(), " instead of ", want.dump());
    Outer copy = w, moved = std::move(b);
    c.expect(copy == w && moved == w, "copied", "a copy is ", copy.dump(), ", moved ", moved.dump());
    auto before = ref(w, -1);
    copy.set_flag(!copy.get_flag());
    copy.get_list().push_back("more");
    copy.get_inner().set_id(copy.get_inner().get_id() / 2 + 1);
    copy.get_table()["more"].set_label("x");
    c.expect(ref(w, -1) == before, "copied", "changing a copy changed the original");
    copy = w;
    c.expect(copy == w, "assigned", "assigned: ", copy.dump());
    c.expect(w.as_tuple() == w.cas_tuple() && std::get<2>(w.cas_tuple()) == w.list_, "as_tuple", "the tuple of an object has other members");
    c.observe("objects");
    Single s1("x"), s2;
    c.expect(s1.get_only() == "x" && s2.get_only().empty(), "constructed", "an object of one member");
  }
  c.nontrivial();
  c.sign(r.next());
}

// pointers to nothing
SCENARIO(text_nulls) {
  using namespace text;
  auto &r = c.rng;
  auto level = (int)r.below(4) - 1;
  auto finite = [&](const std::string &s, const char *what) {
    c.expect(!s.empty() && s.size() < 100000, "null_text", what, " which is null is written as `", shown(s), "`");
    c.observe("nulls");
  };
  finite(maf::srz::toString(std::shared_ptr<int>{}, level), "a pointer");
  finite(maf::srz::toString(std::unique_ptr<Shape>{}, level), "a pointer");
  finite(maf::srz::toString((int *)nullptr, level), "a pointer");
  finite(maf::srz::toString((const Inner *)nullptr, level), "a pointer");
  finite(maf::srz::toString((const char *)nullptr, level) + ".", "a text");
  finite(maf::srz::toString(std::vector<std::shared_ptr<Outer>>(3), level), "a pointer in a list");
  finite(maf::srz::toString(Outer{}, level), "a pointer in an object");
  finite(Outer{}.dump(level), "a pointer in an object");
  // of types which refer to themselves
  Node n{1, r.chance(50) ? std::make_shared<Node>(Node{2, {}}) : nullptr};
  finite(maf::srz::toString(n, level), "the end of a list");
  Chain ch(1, r.chance(50) ? std::make_shared<Chain>(2) : nullptr);
  finite(ch.dump(level), "the end of a list of objects");
  c.nontrivial();
  c.sign(r.next());
}

// objects read from documents
namespace text {
using json11::Json;
void gen(Rng &r, Loaded &v) {
  gen(r, v.flag_), gen(r, v.number_), gen(r, v.ratio_), gen(r, v.label_), gen(r, v.inner_), gen(r, v.ints_), gen(r, v.inners_), gen(r, v.table_), gen(r, v.port_);
  v.big_ = (int64_t)(r.next() >> 12);
}
Json js(bool v) { return v; }
Json js(int v) { return v; }
Json js(int64_t v) { return (double)v; }
Json js(uint16_t v) { return (int)v; }
Json js(double v) { return v; }
Json js(const std::string &v) { return v; }
Json js(const Inner &v) { return Json::object{{"id", v.id_}, {"label", v.label_}}; }
template <class T> Json js(const std::vector<T> &v) {
  Json::array a;
  for (auto &x : v) a.push_back(js(x));
  return a;
}
Json js(const Inners &v) {
  Json::object o;
  for (auto &[k, x] : v) o[k] = js(x);
  return o;
}
}  // namespace text

SCENARIO(text_json) {
  using namespace text;
  auto &r = c.rng;
  for (int n = 0; n < 20 && !c.failed(); ++n) {
    Loaded was, in;
    gen(r, was), gen(r, in);
    Loaded want = was, got = was;
    Json::object o;
    int all = r.chance(30) ? 100 : (int)r.below(100);
    auto member = [&](const char *name, auto &w, const auto &v, Json wrong) {
      if (r.chance(all)) w = v, o[name] = js(v);
      else if (r.chance(30)) o[name] = wrong;
    };
    member("flag", want.flag_, in.flag_, "true");
    member("number", want.number_, in.number_, "12");
    member("big", want.big_, in.big_, true);
    member("ratio", want.ratio_, in.ratio_, Json::array{});
    member("label", want.label_, in.label_, 12);
    member("inner", want.inner_, in.inner_, "inner");
    member("ints", want.ints_, in.ints_, Json::object{});
    member("inners", want.inners_, in.inners_, 1.5);
    member("table", want.table_, in.table_, Json::array{});
    member("port", want.port_, in.port_, Json{});
    o["something else"] = "ignored";
    o["Flag"] = false;
    Json j = o;
    got.load_from_json(j);
    c.expect(got == want, "json", "read from a document: ", got.dump(), " instead of ", want.dump());
    got = was;
    got.load_from_json_str<Json>(j.dump());
    c.expect(got == want, "json", "read from the text of a document: ", got.dump(), " instead of ", want.dump());
    // parts of nested ones: the others have their defaults
    Json part = Json::object{{"inner", Json::object{{"label", "other"}}}};
    got.load_from_json(part);
    c.expect(got.get_inner() == Inner(7, "other"), "json_part", "an object read from a part of it is ", got.dump());
    c.expect(maf::srz::toString(j, 3) == j.dump(), "json_text", "a document is not written as its own text");
    c.observe("documents");
  }
  c.nontrivial();
  c.sign(r.next());
}
