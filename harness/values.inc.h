// P23: what the harness knows about aggregates and their fields, independent of maf
#pragma once
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/cppextension/TupleDiff.h>
#include <maf/utils/cppextension/TupleManip.h>

#include <cmath>
#include <cstring>

#include "mon.h"

using mon::Ctx;
using mon::Rng;

namespace vals {
using VI = std::vector<int>;
struct Leaf {
  int a{};
  std::string b{};
};
MC_MAF_MAKE_COMPARABLE(Leaf)

// A field as the harness knows it: where it is and how its type compares
struct Field {
  const void *addr;
  const std::type_info *type;
  int (*cmp)(const void *, const void *);  // -1, 0, 1; 2: neither less nor equal
  void (*gen)(Rng &, void *);
  bool (*same)(const void *, const void *);  // the same value, NaN included
};
using Fields = std::vector<Field>;

template <class T>
int cmpT(const T &a, const T &b) { return a < b ? -1 : b < a ? 1 : a == b ? 0 : 2; }
inline int cmpT(const Leaf &a, const Leaf &b) {
  if (int r = cmpT(a.a, b.a)) return r;
  return cmpT(a.b, b.b);
}
template <class T>
bool sameT(const T &a, const T &b) { return a == b; }
inline bool sameT(const double &a, const double &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline bool sameT(const Leaf &a, const Leaf &b) { return a.a == b.a && a.b == b.b; }

template <class T>
std::enable_if_t<std::is_integral_v<T>> gen(Rng &r, T &v) {
  switch (r.below(5)) {
    case 0: v = std::numeric_limits<T>::max(); break;
    case 1: v = std::numeric_limits<T>::min(); break;
    default: v = (T)r.below(4);
  }
}
inline void gen(Rng &r, bool &v) { v = r.chance(50); }
inline void gen(Rng &r, double &v) {
  static const double ds[] = {0.0, -0.0, 1.5, -1.5, INFINITY, -INFINITY, NAN, 1e-310, 1.7976931348623157e308};
  v = ds[r.below(9)];
}
inline void gen(Rng &r, std::string &v) {
  static const char *ss[] = {"", "a", "b", "aa", "ab", "\xff", "a long text which does not fit into a small buffer"};
  v = ss[r.below(7)];
  if (r.chance(10)) v.push_back('\0');
}
inline void gen(Rng &r, VI &v) {
  v.clear();
  for (auto n = r.below(4); n; --n) v.push_back((int)r.below(3) - 1);
}
inline void gen(Rng &r, Leaf &v) { gen(r, v.a), gen(r, v.b); }

template <class T>
Field field(const T &f) {
  return {&f, &typeid(T), [](const void *a, const void *b) { return cmpT(*(const T *)a, *(const T *)b); }, [](Rng &r, void *a) { gen(r, *(T *)a); },
          [](const void *a, const void *b) { return sameT(*(const T *)a, *(const T *)b); }};
}
#define CMP(S) MC_MAF_MAKE_COMPARABLE(S)
#include "agg_gen.h"

// what the operators on the fields one by one say
struct Verdict {
  bool eq = true, lt = false, gt = false;
  std::vector<bool> differ;
};
// of all verdicts in a case
inline uint64_t &history() {
  static uint64_t h;
  return h;
}
inline Verdict judge(const Fields &a, const Fields &b) {
  Verdict v;
  bool decided = false;
  for (size_t i = 0; i < a.size(); ++i) {
    int r = a[i].cmp(a[i].addr, b[i].addr);
    v.differ.push_back(r != 0);
    if (r) v.eq = false;
    if (!decided && (r == 1 || r == -1)) {
      decided = true;
      (r < 0 ? v.lt : v.gt) = true;
    }
  }
  for (size_t i = 0; i < v.differ.size(); ++i) history() = history() * 1000003 + v.differ[i] + 2 * v.lt + 4 * v.gt + 1;
  return v;
}

template <class Tp, size_t... I>
std::vector<const void *> addresses(const Tp &t, std::index_sequence<I...>) { return {(const void *)&std::get<I>(t)...}; }
template <class Tp, size_t... I>
std::vector<const std::type_info *> types(const Tp &, std::index_sequence<I...>) { return {&typeid(std::tuple_element_t<I, Tp>)...}; }

struct Bits {
  template <class T>
  bool operator()(const T &a, const T &b) const { return !sameT(a, b); }
};

template <class S, class T>
void sameFields(Ctx &c, const Fields &want, const T &view, const char *what) {
  constexpr size_t n = std::tuple_size_v<T>;
  c.expect(n == want.size(), what, "a view of ", want.size(), " fields has ", n, " elements");
  auto as = addresses(view, std::make_index_sequence<n>());
  auto ts = types(view, std::make_index_sequence<n>());
  for (size_t i = 0; i < n && i < want.size(); ++i)
    c.expect(as[i] == want[i].addr && *ts[i] == *want[i].type, what, "element ", i, " of a view of ", n, " is not field ", i);
}

// where the elements of a view are
template <class S>
void places(Ctx &c) {
  S s{};
  const S &cs = s;
  auto fs = fieldsOf(s);
  sameFields<S>(c, fs, maf::nstl::tuple_view(s), "view");
  sameFields<S>(c, fs, maf::nstl::tuple_view(cs), "const_view");
  // flattened: the members of nested ones in their place
  Fields flat;
  for (auto &f : fs)
    if (*f.type == typeid(Leaf)) {
      auto l = (const Leaf *)f.addr;
      flat.push_back(field(l->a)), flat.push_back(field(l->b));
    } else
      flat.push_back(f);
  sameFields<S>(c, flat, maf::nstl::flaten(s), "flattened");
  c.observe("places");
}

template <class S>
void view(Ctx &c) {
  auto &r = c.rng;
  S s{};
  auto fs = fieldsOf(s);
  auto v = maf::nstl::tuple_view(s);
  sameFields<S>(c, fs, v, "view");
  const S &cs = s;
  auto cv = maf::nstl::tuple_view(cs);
  sameFields<S>(c, fs, cv, "const_view");
  // written through the view, seen in the fields; each visited once, in order
  std::vector<const void *> seen;
  maf::nstl::for_each_field(s, [&](auto &f) {
    seen.push_back(&f);
    gen(r, f);
  });
  c.expect(seen.size() == fs.size(), "for_each", "visited ", seen.size(), " of ", fs.size(), " fields");
  for (size_t i = 0; i < seen.size() && i < fs.size(); ++i) c.expect(seen[i] == fs[i].addr, "for_each", "field ", i, " of ", fs.size(), " wasn't visited in its turn");
  size_t i = 0;
  maf::nstl::for_each_field(cs, [&](const auto &f) { c.expect(i < fs.size() && (const void *)&f == fs[i].addr, "for_each", "constant field ", i), ++i; });
  S t{};
  maf::nstl::tuple_view(t) = v;
  auto ft = fieldsOf(t);
  for (size_t k = 0; k < fs.size(); ++k) c.expect(fs[k].same(fs[k].addr, ft[k].addr), "write", "field ", k, " of ", fs.size(), " was not written through a view");
  c.observe("views");
}

template <class T>
void diffs(Ctx &c, T &a, T &b, const Fields &fa, const Fields &fb, const Verdict &v) {
  auto d = maf::util::tuple_diff(a, b);
  c.expect(d.size() == v.differ.size(), "diff", "a difference of ", v.differ.size(), " fields has ", d.size(), " bits");
  for (size_t i = 0; i < v.differ.size() && i < d.size(); ++i)
    c.expect(d[i] == v.differ[i], "diff", "field ", i, " of ", d.size(), v.differ[i] ? " differs but isn't reported" : " is reported though it is equal");
  auto x = maf::util::tuple_diff<T, Bits>(a, b);
  for (size_t i = 0; i < v.differ.size() && i < x.size(); ++i)
    c.expect(x[i] == !fa[i].same(fa[i].addr, fb[i].addr), "custom_diff", "field ", i, " of ", d.size(), " compared by a given predicate");
  c.observe("diffs");
}

template <class S>
void compare(Ctx &c) {
  auto &r = c.rng;
  S a{}, b{};
  auto fa = fieldsOf(a), fb = fieldsOf(b);
  for (auto &f : fa) f.gen(r, const_cast<void *>(f.addr));
  b = a;
  // a few of them differ
  size_t k = fa.empty() ? 0 : r.chance(30) ? 0 : r.chance(60) ? 1 : r.below(fa.size()) + 1;
  for (; k; --k) {
    auto i = r.below(fa.size());
    fb[i].gen(r, const_cast<void *>(fb[i].addr));
  }
  auto v = judge(fa, fb);
  const S &x = a, &y = b;
  auto n = fa.size();
  c.expect((x == y) == v.eq, "equal", "two values of ", n, " fields are ", v.eq ? "equal but not ==" : "different but ==");
  c.expect((x != y) == !v.eq, "not_equal", "two values of ", n, " fields are ", v.eq ? "equal but !=" : "different but not !=");
  c.expect((x < y) == v.lt && (y > x) == v.lt, "less", "a value of ", n, " fields is ", v.lt ? "less but not <" : "not less but <");
  c.expect((x > y) == v.gt && (y < x) == v.gt, "greater", "a value of ", n, " fields is ", v.gt ? "greater but not >" : "not greater but >");
  c.expect((x <= y) == !v.gt && (y >= x) == !v.gt, "less_equal", "<= of values of ", n, " fields");
  c.expect((x >= y) == !v.lt && (y <= x) == !v.lt, "greater_equal", ">= of values of ", n, " fields");
  c.observe(v.eq ? "equal_pairs" : "different_pairs");
  c.log(1, (int64_t)n, v.eq * 4 + v.lt * 2 + v.gt);
  if constexpr (sizeof(S) < 3000) {
    auto va = maf::nstl::tuple_view(a), vb = maf::nstl::tuple_view(b);
    diffs(c, va, vb, fa, fb, v);
  }
}

}  // namespace vals
