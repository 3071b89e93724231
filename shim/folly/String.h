#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "folly/Range.h"
namespace folly {
namespace shim {
template <class T> T conv(std::string_view s) { return T(s); }
}
// every occurrence of the delimiter ends a field; empty fields are kept (unless ignoreEmpty)
template <class D, class S, class V>
void split(const D& delim, const S& in, V& out, bool ignoreEmpty = false) {
  std::string d; if constexpr (std::is_same_v<D, char>) d = std::string(1, delim); else d = std::string(delim);
  std::string s(in);
  size_t p = 0;
  while (true) {
    size_t q = s.find(d, p);
    std::string t = s.substr(p, q == std::string::npos ? q : q - p);
    if (!(ignoreEmpty && t.empty())) out.insert(out.end(), typename V::value_type(t));
    if (q == std::string::npos) break;
    p = q + d.size();
  }
}
template <class D, class C> std::string join(const D& delim, const C& c) {
  std::ostringstream o; bool f = true;
  for (auto& x : c) { if (!f) o << delim; f = false; o << x; }
  return o.str();
}
inline std::string trimWhitespace(std::string_view s) {
  size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string_view::npos) return "";
  return std::string(s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1));
}
inline std::string errnoStr(int e) { return std::to_string(e); }
}
