// The part of folly::dynamic the repository uses: a tagged value with arrays and string-keyed objects.
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
namespace folly {
struct dynamic {
  enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
  using Obj = std::map<std::string, dynamic>;
  using Arr = std::vector<dynamic>;
  struct ObjectMaker;
  Type t = NULLT; bool b = false; int64_t i = 0; double d = 0; std::string s; Arr a; Obj o;
  dynamic() {}
  dynamic(std::nullptr_t) {}
  dynamic(bool v) : t(BOOL), b(v) {}
  dynamic(int v) : t(INT64), i(v) {} dynamic(unsigned v) : t(INT64), i(v) {}
  dynamic(long v) : t(INT64), i(v) {} dynamic(unsigned long v) : t(INT64), i((int64_t)v) {}
  dynamic(long long v) : t(INT64), i(v) {} dynamic(unsigned long long v) : t(INT64), i((int64_t)v) {}
  dynamic(double v) : t(DOUBLE), d(v) {}
  dynamic(const char* v) : t(STRING), s(v) {} dynamic(std::string v) : t(STRING), s(std::move(v)) {}
  dynamic(const ObjectMaker& m);
  dynamic(ObjectMaker (*)());
  static ObjectMaker object(); template <class K, class V> static ObjectMaker object(K&& k, V&& v);
  template <class C> static dynamic array_range(C&& c) { dynamic r; r.t = ARRAY; for (auto&& x : c) r.a.push_back(dynamic((typename std::decay_t<C>::value_type)x)); return r; }
  bool isNumber() const { return t == INT64 || t == DOUBLE; }
  bool isInt() const { return t == INT64; } bool isString() const { return t == STRING; } bool isObject() const { return t == OBJECT; } bool isArray() const { return t == ARRAY; }
  void need(Type x) const { if (t != x) throw std::runtime_error("TypeError: unexpected dynamic type"); }
  int64_t getInt() const { need(INT64); return i; }
  int64_t asInt() const { switch (t) { case INT64: return i; case BOOL: return b; case DOUBLE: return (int64_t)d; case STRING: return std::stoll(s); default: throw std::runtime_error("TypeError"); } }
  bool asBool() const { return asInt() != 0; }
  double asDouble() const { return t == DOUBLE ? d : (double)asInt(); }
  const std::string& getString() const { need(STRING); return s; }
  std::string asString() const { switch (t) { case STRING: return s; case INT64: return std::to_string(i); case BOOL: return b ? "true" : "false"; default: throw std::runtime_error("TypeError"); } }
  template <class K, class V> void insert(K&& k, V&& v) { need(OBJECT); o.insert_or_assign(std::string(k), dynamic(std::forward<V>(v))); }
  size_t count(const std::string& k) const { need(OBJECT); return o.count(k); } size_t count(const char* k) const { return count(std::string(k)); }
  dynamic& operator[](const dynamic& k) { return (*this)[k.asString()]; } size_t count(const dynamic& k) const { return count(k.asString()); }
  dynamic& operator[](const char* k) { return (*this)[std::string(k)]; } const dynamic& operator[](const char* k) const { return at(std::string(k)); }
  dynamic& operator[](const std::string& k) { need(OBJECT); return o[k]; }
  const dynamic& operator[](const std::string& k) const { return at(k); }
  const dynamic& at(const std::string& k) const { need(OBJECT); auto it = o.find(k); if (it == o.end()) throw std::out_of_range("couldn't find key " + k + " in dynamic object"); return it->second; }
  dynamic& at(const std::string& k) { return const_cast<dynamic&>(((const dynamic*)this)->at(k)); }
  const dynamic& at(size_t k) const { need(ARRAY); return a.at(k); }
  const dynamic& operator[](size_t k) const { return at(k); } const dynamic& operator[](int k) const { return at((size_t)k); }
  void push_back(dynamic v) { need(ARRAY); a.push_back(std::move(v)); }
  dynamic& operator+=(const dynamic& r) { if (t == DOUBLE || r.t == DOUBLE) { d = asDouble() + r.asDouble(); t = DOUBLE; } else i += r.asInt(); return *this; }
  std::vector<std::pair<dynamic, dynamic>> items() const;
  Arr::const_iterator begin() const { need(ARRAY); return a.begin(); } Arr::const_iterator end() const { need(ARRAY); return a.end(); }
  size_t size() const { return t == ARRAY ? a.size() : t == OBJECT ? o.size() : s.size(); }
  bool operator==(const dynamic& r) const { if (isNumber() && r.isNumber()) return asDouble() == r.asDouble(); return t == r.t && b == r.b && s == r.s && a == r.a && o == r.o; }
  bool operator!=(const dynamic& r) const { return !(*this == r); }
};
struct dynamic::ObjectMaker {
  dynamic::Obj o;
  template <class K, class V> ObjectMaker& operator()(K&& k, V&& v) { o.insert_or_assign(std::string(k), dynamic(std::forward<V>(v))); return *this; }
};
inline std::vector<std::pair<dynamic, dynamic>> dynamic::items() const { need(OBJECT); std::vector<std::pair<dynamic, dynamic>> r; for (auto& x : o) r.emplace_back(dynamic(x.first), x.second); return r; }
inline dynamic::dynamic(const ObjectMaker& m) : t(OBJECT), o(m.o) {}
inline dynamic::dynamic(ObjectMaker (*)()) : t(OBJECT) {}
inline dynamic::ObjectMaker dynamic::object() { return {}; }
template <class K, class V> dynamic::ObjectMaker dynamic::object(K&& k, V&& v) { ObjectMaker m; m(std::forward<K>(k), std::forward<V>(v)); return m; }
}
