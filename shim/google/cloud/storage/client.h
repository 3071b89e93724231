#pragma once
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include "cloud_fake.h"
namespace google::cloud {
enum class StatusCode { kOk, kUnknown, kUnavailable, kNotFound, kOutOfRange, kInvalidArgument };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  const std::string& message() const { return m_; }
 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.message(); }
template <class T> class StatusOr {
 public:
  StatusOr() : s_(StatusCode::kUnknown, "default") {}
  StatusOr(Status s) : s_(std::move(s)) {}
  StatusOr(T t) : t_(std::move(t)) {}
  bool ok() const { return s_.ok(); }
  explicit operator bool() const { return ok(); }
  const Status& status() const { return s_; }
  T& operator*() { return t_; }
  const T& operator*() const { return t_; }
  T* operator->() { return &t_; }
  const T* operator->() const { return &t_; }
  T& value() { return t_; }
 private:
  Status s_;
  T t_{};
};
namespace storage {
struct ObjectMetadata { std::uint64_t size_ = 0; std::string name_; std::uint64_t size() const { return size_; } const std::string& name() const { return name_; } };
struct ReadRange { long long begin = 0, end = -1; bool set = false; ReadRange() = default; ReadRange(long long a, long long b) : begin(a), end(b), set(true) {} };
struct ReadFromOffset { long long begin = 0; };
struct ReadLast { long long n = 0; };
struct ContentType { std::string v; ContentType() = default; explicit ContentType(std::string s) : v(std::move(s)) {} };
class ObjectReadStream : public std::istream {
 public:
  ObjectReadStream() : std::istream(nullptr), b_(std::make_unique<std::stringbuf>("")), st_(StatusCode::kUnknown, "default stream") { rdbuf(b_.get()); setstate(std::ios::badbit); }
  ObjectReadStream(std::string s, Status st) : std::istream(nullptr), b_(std::make_unique<std::stringbuf>(s)), st_(st) { rdbuf(b_.get()); if (!st.ok()) setstate(std::ios::badbit); }
  ObjectReadStream(ObjectReadStream&& o) : std::istream(nullptr), b_(std::move(o.b_)), st_(o.st_) { rdbuf(b_.get()); if (!st_.ok()) setstate(std::ios::badbit); }
  const Status& status() const { return st_; }
  bool IsOpen() const { return st_.ok(); }
  void Close() {}
 private:
  std::unique_ptr<std::stringbuf> b_;
  Status st_;
};
// a resumable upload: bytes reach the service as they are written; after an error nothing more is stored
class ObjectWriteStream : public std::ostream {
  struct Buf : std::streambuf {
    std::string session;
    Status st;
    bool closed = false;
    StatusOr<ObjectMetadata> meta{Status(StatusCode::kUnknown, "not closed")};
    std::streamsize xsputn(const char* p, std::streamsize n) override {
      auto& s = *cloudfake::store();
      if (!st.ok() || closed) return 0;
      int f = s.ask("Write");
      auto it = s.uploads.find(session);
      if (f == 1) { st = Status(StatusCode::kUnavailable, "write failed"); return 0; }
      if (it == s.uploads.end()) { st = Status(StatusCode::kNotFound, "no such session"); return 0; }
      it->second.parts[(int)it->second.parts.size()] = {"", std::string(p, n)};
      if (f) { st = Status(StatusCode::kUnavailable, "answer lost"); return 0; }
      return n;
    }
    int overflow(int c) override { char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : EOF; }
    void close() {
      if (closed) return;
      closed = true;
      auto& s = *cloudfake::store();
      if (!st.ok()) { meta = st; return; }
      int f = s.ask("Close");
      auto it = s.uploads.find(session);
      if (f == 1) { st = Status(StatusCode::kUnavailable, "close failed"); meta = st; return; }
      if (it == s.uploads.end()) { st = Status(StatusCode::kNotFound, "no such session"); meta = st; return; }
      std::string all;
      for (auto& p : it->second.parts) all += p.second.second;
      s.objects[it->second.bucket + "/" + it->second.key] = all;
      s.uploads.erase(it);
      if (f) { st = Status(StatusCode::kUnavailable, "answer lost"); meta = st; return; }
      meta = ObjectMetadata{all.size(), ""};
    }
    ~Buf() { if (!session.empty()) close(); }
  };
  std::unique_ptr<Buf> b_;
 public:
  ObjectWriteStream() : std::ostream(nullptr), b_(std::make_unique<Buf>()) { b_->st = Status(StatusCode::kUnknown, "default stream"); rdbuf(b_.get()); }
  ObjectWriteStream(std::string session, Status st) : std::ostream(nullptr), b_(std::make_unique<Buf>()) {
    b_->session = session; b_->st = st; rdbuf(b_.get()); if (!st.ok()) setstate(std::ios::badbit);
  }
  ObjectWriteStream(ObjectWriteStream&& o) : std::ostream(nullptr), b_(std::move(o.b_)) { rdbuf(b_.get()); setstate(o.rdstate()); }
  ObjectWriteStream& operator=(ObjectWriteStream&& o) { b_ = std::move(o.b_); rdbuf(b_.get()); clear(o.rdstate()); return *this; }
  const Status& last_status() const { return b_->st; }
  const std::string& resumable_session_id() const { return b_->session; }
  bool IsOpen() const { return b_ && !b_->closed; }
  void Close() { b_->close(); if (!b_->st.ok()) setstate(std::ios::badbit); }
  void Suspend() && { if (b_) b_->session.clear(); }
  StatusOr<ObjectMetadata>& metadata() & { return b_->meta; }
  StatusOr<ObjectMetadata>&& metadata() && { return std::move(b_->meta); }
};
class Client {
 public:
  Client() = default;
  virtual ~Client() = default;
  template <class... O> ObjectReadStream ReadObject(const std::string& b, const std::string& k, O... o) {
    auto& s = *cloudfake::store();
    if (s.ask("ReadObject")) return {"", Status(StatusCode::kUnavailable, "read failed")};
    auto it = s.objects.find(b + "/" + k);
    if (it == s.objects.end()) return {"", Status(StatusCode::kNotFound, "no such object")};
    std::string all = it->second;
    bool bad = false;
    (void)std::initializer_list<int>{(apply(all, bad, o), 0)...};
    if (bad) return {"", Status(StatusCode::kOutOfRange, "range not satisfiable")};
    return {all, Status()};
  }
  template <class... O> ObjectWriteStream WriteObject(const std::string& b, const std::string& k, O...) {
    auto& s = *cloudfake::store();
    if (s.ask("WriteObject")) return {"", Status(StatusCode::kUnavailable, "open failed")};
    std::string id = "session-" + std::to_string(s.nextId++);
    s.uploads[id] = {b, k, "", {}};
    return {id, Status()};
  }
  template <class... O> StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& b, const std::string& k, O...) {
    auto& s = *cloudfake::store();
    if (s.ask("GetObjectMetadata")) return Status(StatusCode::kUnavailable, "metadata failed");
    auto it = s.objects.find(b + "/" + k);
    if (it == s.objects.end()) return Status(StatusCode::kNotFound, "no such object");
    return ObjectMetadata{it->second.size(), k};
  }
  Status DeleteResumableUpload(const std::string& id) {
    auto& s = *cloudfake::store();
    if (s.ask("DeleteResumableUpload") == 1) return Status(StatusCode::kUnavailable, "delete failed");
    if (!s.uploads.erase(id)) return Status(StatusCode::kNotFound, "no such session");
    return Status();
  }
  template <class... O> StatusOr<ObjectMetadata> UploadFile(const std::string& f, const std::string& b, const std::string& k, O...) {
    auto& s = *cloudfake::store();
    int x = s.ask("UploadFile");
    std::ifstream is(f, std::ios::binary);
    if (x == 1 || !is) return Status(StatusCode::kUnavailable, "upload failed");
    std::stringstream ss;
    ss << is.rdbuf();
    s.objects[b + "/" + k] = ss.str();
    if (x) return Status(StatusCode::kUnavailable, "answer lost");
    return ObjectMetadata{ss.str().size(), k};
  }
 private:
  static void apply(std::string& all, bool& bad, const ReadRange& r) {
    if (!r.set) return;
    if (r.begin < 0 || r.end <= r.begin || r.begin >= (long long)all.size()) { bad = true; return; }
    all = all.substr(r.begin, r.end - r.begin);
  }
  static void apply(std::string& all, bool& bad, const ReadFromOffset& r) { if (r.begin > (long long)all.size()) bad = true; else all = all.substr(r.begin); }
};
}  // namespace storage
}  // namespace google::cloud
