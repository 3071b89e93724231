// scheme:[//[user[:password]@]host[:port]][path][?query][#fragment], as folly::Uri parses it
#pragma once
#include <regex>
#include <stdexcept>
#include <string>
#include <string_view>
namespace folly {
class Uri {
 public:
  explicit Uri(std::string_view in) {
    static const std::regex re("([a-zA-Z][a-zA-Z0-9+.-]*):([^?#]*)(?:\\?([^#]*))?(?:#(.*))?");
    std::string s(in); std::smatch m;
    if (!std::regex_match(s, m, re)) throw std::invalid_argument("invalid URI " + s);
    scheme_ = m[1]; for (auto& c : scheme_) c = tolower(c);
    std::string ap = m[2];
    query_ = m[3]; fragment_ = m[4];
    static const std::regex dbl("//([^/]*)(/.*)?");
    if (!std::regex_match(ap, m, dbl)) { path_ = ap; return; }
    hasAuthority_ = true;
    std::string auth = m[1]; path_ = m[2];
    static const std::regex are("(?:([^@:]*)(?::([^@]*))?@)?(\\[[^\\]]*\\]|[^\\[:]*)(?::(\\d*))?");
    if (!std::regex_match(auth, m, are)) throw std::invalid_argument("invalid URI authority " + auth);
    username_ = m[1]; password_ = m[2]; host_ = m[3];
    if (m[4].length()) port_ = std::stoi(m[4]);
  }
  const std::string& scheme() const { return scheme_; }
  const std::string& username() const { return username_; }
  const std::string& password() const { return password_; }
  const std::string& host() const { return host_; }
  uint16_t port() const { return port_; }
  const std::string& path() const { return path_; }
  const std::string& query() const { return query_; }
  const std::string& fragment() const { return fragment_; }
 private:
  std::string scheme_, username_, password_, host_, path_, query_, fragment_; uint16_t port_ = 0; bool hasAuthority_ = false;
};
}
