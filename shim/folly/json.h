#pragma once
#include <cstring>
#include "folly/dynamic.h"
namespace folly {
namespace shim {
inline void quote(const std::string& s, std::string& out) { out += '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') { out += '\\'; out += c; } else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; } else out += c; } out += '"'; }
inline void dump(const dynamic& v, std::string& out) {
  switch (v.t) {
    case dynamic::NULLT: out += "null"; break; case dynamic::BOOL: out += v.b ? "true" : "false"; break;
    case dynamic::INT64: out += std::to_string(v.i); break; case dynamic::DOUBLE: out += std::to_string(v.d); break;
    case dynamic::STRING: quote(v.s, out); break;
    case dynamic::ARRAY: { out += '['; bool f = true; for (auto& x : v.a) { if (!f) out += ','; f = false; dump(x, out); } out += ']'; break; }
    case dynamic::OBJECT: { out += '{'; bool f = true; for (auto& x : v.o) { if (!f) out += ','; f = false; quote(x.first, out); out += ':'; dump(x.second, out); } out += '}'; break; }
  }
}
struct P {
  const std::string& s; size_t p = 0;
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  [[noreturn]] void bad() { throw std::runtime_error("json parse error"); }
  dynamic val() {
    ws(); if (p >= s.size()) bad();
    if (s[p] == '{') { p++; dynamic r = dynamic::object(); ws(); if (s.at(p) == '}') { p++; return r; }
      while (true) { ws(); dynamic k = val(); ws(); if (s.at(p++) != ':') bad(); r.insert(k.getString(), val()); ws(); char c = s.at(p++); if (c == '}') return r; if (c != ',') bad(); } }
    if (s[p] == '[') { p++; dynamic r; r.t = dynamic::ARRAY; ws(); if (s.at(p) == ']') { p++; return r; }
      while (true) { r.a.push_back(val()); ws(); char c = s.at(p++); if (c == ']') return r; if (c != ',') bad(); } }
    if (s[p] == '"') { std::string o; p++; while (s.at(p) != '"') { if (s[p] == '\\') { p++; char c = s.at(p++); if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'u') { o += (char)std::stoi(s.substr(p, 4), nullptr, 16); p += 4; } else o += c; } else o += s[p++]; } p++; return dynamic(o); }
    if (s.compare(p, 4, "true") == 0) { p += 4; return dynamic(true); } if (s.compare(p, 5, "false") == 0) { p += 5; return dynamic(false); } if (s.compare(p, 4, "null") == 0) { p += 4; return dynamic(); }
    size_t q = p; bool dbl = false; while (q < s.size() && (isdigit((unsigned char)s[q]) || strchr("+-.eE", s[q]))) { if (strchr(".eE", s[q])) dbl = true; q++; }
    if (q == p) bad(); std::string n = s.substr(p, q - p); p = q;
    if (dbl) return dynamic(std::stod(n)); return dynamic((long)std::stoll(n));
  }
};
}
inline std::string toJson(const dynamic& v) { std::string s; shim::dump(v, s); return s; }
inline std::string toPrettyJson(const dynamic& v) { return toJson(v); }
inline dynamic parseJson(const std::string& s) { shim::P p{s}; dynamic v = p.val(); p.ws(); if (p.p != s.size()) p.bad(); return v; }
}
