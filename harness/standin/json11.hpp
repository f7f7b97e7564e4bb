// A stand-in for the json11 library, with what Json11Trait.h uses of it
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace json11 {
class Json {
 public:
  using array = std::vector<Json>;
  using object = std::map<std::string, Json>;
  Json() = default;
  Json(bool b) : kind('b'), b(b) {}
  Json(int n) : kind('n'), n(n) {}
  Json(double n) : kind('n'), n(n) {}
  Json(std::string s) : kind('s'), s(std::move(s)) {}
  Json(const char *s) : kind('s'), s(s) {}
  Json(array a) : kind('a'), a(std::make_shared<array>(std::move(a))) {}
  Json(object o) : kind('o'), o(std::make_shared<object>(std::move(o))) {}
  bool is_null() const { return kind == '0'; }
  bool is_bool() const { return kind == 'b'; }
  bool is_number() const { return kind == 'n'; }
  bool is_string() const { return kind == 's'; }
  bool is_array() const { return kind == 'a'; }
  bool is_object() const { return kind == 'o'; }
  bool bool_value() const { return b; }
  int int_value() const { return (int)n; }
  double number_value() const { return n; }
  const std::string &string_value() const { return s; }
  const array &array_items() const {
    static const array none;
    return a ? *a : none;
  }
  const object &object_items() const {
    static const object none;
    return o ? *o : none;
  }
  const Json &operator[](const std::string &k) const {
    static const Json none;
    auto &items = object_items();
    auto it = items.find(k);
    return it == items.end() ? none : it->second;
  }
  // not JSON, but a text form which can be read again: kind, then lengths and contents
  std::string dump() const {
    std::ostringstream os;
    os.precision(17);
    write(os);
    return os.str();
  }
  static Json parse(const std::string &t, std::string &err) {
    std::istringstream is(t);
    Json j;
    if (!j.read(is)) err = "bad", j = Json{};
    return j;
  }
  bool operator==(const Json &x) const { return dump() == x.dump(); }

 private:
  void write(std::ostream &os) const {
    os << kind;
    switch (kind) {
      case 'b': os << b; break;
      case 'n': os << n << ' '; break;
      case 's': os << s.size() << ' ' << s; break;
      case 'a':
        os << a->size() << ' ';
        for (auto &x : *a) x.write(os);
        break;
      case 'o':
        os << o->size() << ' ';
        for (auto &[k, x] : *o) os << k.size() << ' ' << k, x.write(os);
        break;
    }
  }
  static bool text(std::istream &is, std::string &s) {
    size_t n = 0;
    if (!(is >> n) || n > 1000000) return false;
    is.get();
    s.resize(n);
    is.read(s.data(), (std::streamsize)n);
    return (size_t)is.gcount() == n;
  }
  bool read(std::istream &is) {
    if (!is.get(kind)) return false;
    size_t n = 0;
    switch (kind) {
      case '0': return true;
      case 'b': b = is.get() == '1'; return !!is;
      case 'n': is >> this->n; is.get(); return !!is;
      case 's': return text(is, s);
      case 'a':
        a = std::make_shared<array>();
        if (!(is >> n) || n > 100000) return false;
        is.get();
        a->resize(n);
        for (auto &x : *a)
          if (!x.read(is)) return false;
        return true;
      case 'o':
        o = std::make_shared<object>();
        if (!(is >> n) || n > 100000) return false;
        is.get();
        for (std::string k; n; --n)
          if (!text(is, k) || !(*o)[k].read(is)) return false;
        return true;
    }
    return false;
  }
  char kind = '0';
  bool b = false;
  double n = 0;
  std::string s;
  std::shared_ptr<array> a;
  std::shared_ptr<object> o;
};
}  // namespace json11
