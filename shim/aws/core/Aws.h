#pragma once
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace Aws {
using String = std::string;
template <class T> using Vector = std::vector<T>;
template <class K, class V> using Map = std::map<K, V>;
using StringStream = std::stringstream;
using IOStream = std::basic_iostream<char, std::char_traits<char>>;
using IStream = std::istream;
using OStream = std::ostream;
template <class T, class... A> std::shared_ptr<T> MakeShared(const char*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
struct SDKOptions {};
inline void InitAPI(const SDKOptions&) {}
inline void ShutdownAPI(const SDKOptions&) {}
namespace Http { enum class Scheme { HTTP, HTTPS }; }
namespace Client {
struct ClientConfiguration {
  String region = "us-east-1", proxyHost, proxySSLCertPath, proxyUserName, proxyPassword, endpointOverride, caPath, caFile;
  unsigned proxyPort = 0;
  Http::Scheme proxyScheme = Http::Scheme::HTTP, scheme = Http::Scheme::HTTPS;
  long connectTimeoutMs = 1000, requestTimeoutMs = 3000;
  bool verifySSL = true;
};
}
namespace Auth {
class AWSCredentials {
 public:
  AWSCredentials() = default;
  AWSCredentials(const String& a, const String& s, const String& t = "") : a_(a), s_(s), t_(t) {}
  const String& GetAWSAccessKeyId() const { return a_; }
  const String& GetAWSSecretKey() const { return s_; }
 private:
  String a_, s_, t_;
};
}
}
