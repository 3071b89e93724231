#pragma once
#include <string>
#include <string_view>
namespace folly {
class StringPiece : public std::string_view {
 public:
  using std::string_view::string_view;
  StringPiece() {}
  StringPiece(const std::string& s) : std::string_view(s) {}
  StringPiece(std::string_view s) : std::string_view(s) {}
  std::string str() const { return std::string(*this); }
  std::string toString() const { return str(); }
  bool startsWith(std::string_view p) const { return substr(0, p.size()) == p; }
};
}
