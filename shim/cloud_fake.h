// An object store with the semantics the cloud SDKs document, and a hook that decides which calls fail.
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace cloudfake {
struct Upload { std::string bucket, key, contentType; std::map<int, std::pair<std::string, std::string>> parts; };  // part -> (etag, data)
struct Store {
  std::map<std::string, std::string> objects;                // "bucket/key" -> content
  std::map<std::string, Upload> uploads;                      // live multipart uploads / resumable sessions
  int nextId = 1;
  // op -> should this call fail? answer 2: the request was carried out but the answer was lost
  std::function<int(const std::string& op)> fault;
  std::vector<std::string> log;
  int ask(const std::string& op) { log.push_back(op); return fault ? fault(op) : 0; }
};
inline Store*& store() { static Store* s = new Store; return s; }
inline void reset() { delete store(); store() = new Store; }
// "bytes=a-b" (closed) -> (ok, content)
inline std::optional<std::string> range(const std::string& all, const std::string& spec) {
  if (spec.empty()) return all;
  unsigned long long a, b;
  char tail;
  if (spec.find('+') != std::string::npos || spec.find(' ') != std::string::npos) return std::nullopt;
  if (sscanf(spec.c_str(), "bytes=%llu-%llu%c", &a, &b, &tail) != 2) {
    if (sscanf(spec.c_str(), "bytes=%llu-%c", &a, &tail) == 1 && spec.back() == '-') b = ~0ull; else return all;   // unparsable: ignored
  }
  if (b < a) return all;                                      // invalid range: the header is ignored
  if (a >= all.size()) return std::nullopt;                   // not satisfiable
  b = std::min<unsigned long long>(b, all.size() - 1);
  return all.substr(a, b - a + 1);
}
}  // namespace cloudfake
