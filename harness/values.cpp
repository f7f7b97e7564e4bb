// P23: structural comparison, difference and views of aggregates and tuples
#include <maf/utils/ProcessorChain.h>
#include <maf/utils/StringifyableEnum.h>
#include <maf/utils/containers/Map.h>
#include <maf/utils/containers/Map2D.h>
#include <functional>
#include <map>
#include <sstream>
#include <utility>

#include "values.inc.h"

namespace vals {
void part0(Ctx &);
void part1(Ctx &);
void part2(Ctx &);
void part3(Ctx &);
void part4(Ctx &);
void part5(Ctx &);
void part6(Ctx &);
void part7(Ctx &);
void everywhere(Ctx &c) { part0(c); part1(c); part2(c); part3(c); part4(c); part5(c); part6(c); part7(c); }

// plain tuples
template <class... A>
void tuples(Ctx &c) {
  using T = std::tuple<A...>;
  auto &r = c.rng;
  T a, b;
  Fields fa, fb;
  std::apply([&](auto &...x) { (fa.push_back(field(x)), ...); }, a);
  std::apply([&](auto &...x) { (fb.push_back(field(x)), ...); }, b);
  for (auto &f : fa) f.gen(r, const_cast<void *>(f.addr));
  b = a;
  for (size_t k = r.below(fa.size() + 1); k; --k) {
    auto i = r.below(fa.size());
    fb[i].gen(r, const_cast<void *>(fb[i].addr));
  }
  diffs(c, a, b, fa, fb, judge(fa, fb));
  size_t i = 0;
  maf::nstl::tuple_for_each(a, [&](auto &x) { c.expect(i < fa.size() && (const void *)&x == fa[i].addr, "tuple_for_each", "element ", i), ++i; });
  c.expect(i == fa.size(), "tuple_for_each", "visited ", i, " of ", fa.size(), " elements");
  i = 0;
  const T &ca = a;
  maf::nstl::tuple_for_each(ca, [&](const auto &x) { c.expect(i < fa.size() && (const void *)&x == fa[i].addr, "tuple_for_each", "element ", i), ++i; });
}
}  // namespace vals

// ---------------------------------------------------------------- declared objects
#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
// clang-format off
namespace vals {
OBJECT(Obj3)
  MEMBERS
  (
    (int, a, 5),
    (std::string, b),
    (VI, c)
  )
ENDOBJECT(Obj3)
OBJECT(Obj12)
  MEMBERS
  (
    (int, a), (std::string, b), (double, c, 2.5), (bool, d), (VI, e), (uint8_t, f),
    (int64_t, g), (std::string, h), (int, i), (double, j), (VI, k), (bool, l, true)
  )
ENDOBJECT(Obj12)
}
// clang-format on
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>

namespace vals {
Fields fieldsOf(const Obj3 &o) { return {field(o.a_), field(o.b_), field(o.c_)}; }
Fields fieldsOf(const Obj12 &o) {
  return {field(o.a_), field(o.b_), field(o.c_), field(o.d_), field(o.e_), field(o.f_), field(o.g_), field(o.h_), field(o.i_), field(o.j_), field(o.k_), field(o.l_)};
}
template <class O>
void objects(Ctx &c) {
  auto &r = c.rng;
  O a, b;
  auto fa = fieldsOf(a), fb = fieldsOf(b);
  for (auto &f : fa) f.gen(r, const_cast<void *>(f.addr));
  b = a;
  for (size_t k = r.chance(30) ? 0 : r.below(3); k; --k) {
    auto i = r.below(fa.size());
    fb[i].gen(r, const_cast<void *>(fb[i].addr));
  }
  auto v = judge(fa, fb);
  const O &x = a, &y = b;
  c.expect((x == y) == v.eq, "object_equal", "two objects of ", fa.size(), " members are ", v.eq ? "equal but not ==" : "different but ==");
  c.expect((x != y) == !v.eq, "object_not_equal", "!= of two objects of ", fa.size());
  c.expect((x < y) == v.lt && (y < x) == v.gt, "object_less", "< of two objects of ", fa.size(), " members");
  sameFields<O>(c, fa, x.cas_tuple(), "cas_tuple");
  sameFields<O>(c, fa, a.as_tuple(), "as_tuple");
  auto ta = a.as_tuple(), tb = b.as_tuple();
  diffs(c, ta, tb, fa, fb, v);
  c.observe("objects");
}

// ---------------------------------------------------------------- enums, chains, maps
MC_MAF_STRINGIFYABLE_ENUM(One, char, only)
MC_MAF_STRINGIFYABLE_ENUM(Color, int, red, green, blue, black, white)
MC_MAF_STRINGIFYABLE_ENUM(Many, uint8_t, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29,
                          e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59)
template <class E>
std::string str(E e) {
  std::ostringstream os;
  os << e;
  return os.str();
}
}  // namespace vals

SCENARIO(values_view) {
  using namespace vals;
#define VIEW(n) view<S##n>(c);
  SOME_S(VIEW)
  if (c.rng.chance(20)) everywhere(c);
  c.nontrivial();
  c.sign();
}

SCENARIO(values_compare) {
  using namespace vals;
#define COMPARE(n) compare<S##n>(c);
  SOME_S(COMPARE)
  for (int i = 0; i < 10; ++i) compare<S2>(c), compare<S3>(c), compare<S7>(c);
  c.nontrivial();
  c.sign(std::exchange(history(), 0));
}

SCENARIO(values_tuples) {
  using namespace vals;
  for (int i = 0; i < 20 && !c.failed(); ++i) {
    tuples<int>(c);
    tuples<double, double>(c);
    tuples<int, std::string, bool>(c);
    tuples<VI, VI, Leaf, uint8_t>(c);
    tuples<int, int, int, int, int, int, int, int, int, int, int, int>(c);
    tuples<bool, std::string, int, double, VI, int64_t, Leaf, uint8_t, bool, std::string, int, double, VI, int64_t, Leaf, uint8_t, int, int, int, int, int, int, int, int, int, int, int, int,
           int, int, int, int, int, double, double>(c);
    objects<Obj3>(c);
    objects<Obj12>(c);
  }
  // enums by name
  c.expect(str(One::only) == "only", "enum", "a name is ", str(One::only));
  static const char *colors[] = {"red", "green", "blue", "black", "white"};
  for (int i = 0; i < 5; ++i) c.expect(str((Color)i) == colors[i], "enum", "name ", i, " is ", str((Color)i));
  for (int i = 0; i < 60; ++i) c.expect(str((Many)i) == "e" + std::to_string(i), "enum", "name ", i, " of 60 is ", str((Many)i));
  for (int i = 60; i < 256; ++i) c.expect(str((Many)i) == "_", "enum", "name of a number outside is ", str((Many)i));
  for (int i : {-1, 5, 6, 1000000, -2147483647 - 1, 2147483647}) c.expect(str((Color)i) == "_", "enum", "name of a number outside is ", str((Color)i));
  // chains apply their steps in order, once each
  for (int i = 0; i < 20; ++i) {
    std::string trace;
    int k = (int)c.rng.below(100), m = (int)c.rng.below(100);
    auto chain = maf::util::ProcessorChain<int>{}
                     .then([&](int x) { return trace += "a", x + k; })
                     .then([&](int x) { return trace += "b", std::to_string(x * m); })
                     .then([&](std::string s) { return trace += "c", s + "!"; });
    int in = (int)c.rng.below(1000);
    auto out = chain(in);
    c.expect(out == std::to_string((in + k) * m) + "!" && trace == "abc", "chain", "a chain of 3 gave ", out, " by ", trace);
    out = chain(in + 1);
    c.expect(out == std::to_string((in + 1 + k) * m) + "!" && trace == "abcabc", "chain", "a chain called again gave ", out, " by ", trace);
    // behind a step which returns nothing the next one gets nothing
    std::string got;
    auto quiet = maf::util::ProcessorChain<int>{}
                     .then([&](int x) { got += std::to_string(x) + "a"; })
                     .then([&] { got += "b"; })
                     .then([&] { return got += "c", (int)got.size(); })
                     .then([&](int n) { return n * 2; });
    auto size = quiet(in);
    c.expect(got == std::to_string(in) + "abc" && size == 2 * (int)got.size(), "chain", "a chain with steps without results gave ", size, " by ", got);
  }
  std::map<int, std::string> mp;
  maf::util::Map2D<int, std::string, double> m2;
  for (int i = 0; i < 60; ++i) {
    int k = (int)c.rng.below(12);
    auto k2 = std::to_string(c.rng.below(4));
    if (c.rng.chance(50)) mp[k] = std::to_string(i), m2[k][k2] = i + 1;
    else if (c.rng.chance(30)) mp.erase(k), m2[k].erase(k2);
    auto it = mp.find(k);
    c.expect(maf::util::get(mp, k) == (it == mp.end() ? "" : it->second), "map_get", "key ", k);
    double want = m2.count(k) && m2[k].count(k2) ? m2[k][k2] : 0;
    c.expect(maf::util::find(m2, k, k2) == want, "map2d_find", "keys ", k, " and ", k2);
  }
  c.nontrivial();
  c.sign(std::exchange(history(), 0));
}
