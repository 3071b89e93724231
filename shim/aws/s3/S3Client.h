#pragma once
#include <aws/core/Aws.h>
#include "cloud_fake.h"
namespace Aws::S3 {
struct S3Error {
  String name, message;
  const String& GetMessage() const { return message; }
  const String& GetExceptionName() const { return name; }
  bool ShouldRetry() const { return false; }
};
inline std::ostream& operator<<(std::ostream& o, const S3Error& e) { return o << e.message; }
template <class R> class Outcome {
 public:
  Outcome() = default;
  Outcome(R&& r) : ok_(true), r_(std::move(r)) {}
  Outcome(const R& r) : ok_(true), r_(r) {}
  Outcome(const S3Error& e) : ok_(false), e_(e) {}
  virtual ~Outcome() = default;
  Outcome(const Outcome&) = default;
  Outcome(Outcome&&) = default;
  Outcome& operator=(const Outcome&) = default;
  Outcome& operator=(Outcome&&) = default;
  bool IsSuccess() const { return ok_; }
  const R& GetResult() const { return r_; }
  R& GetResult() { return r_; }
  R&& GetResultWithOwnership() { return std::move(r_); }
  const S3Error& GetError() const { return e_; }
 private:
  bool ok_ = false;
  R r_{};
  S3Error e_;
};
namespace Model {
#define FLD(T, N) private: T N##_{}; bool N##Set_ = false; public: const T& Get##N() const { return N##_; } void Set##N(const T& v) { N##_ = v; N##Set_ = true; } bool N##HasBeenSet() const { return N##Set_; }
#define WITH(C, T, N) C& With##N(const T& v) { Set##N(v); return *this; }
class CompletedPart { FLD(int, PartNumber) FLD(String, ETag) WITH(CompletedPart, int, PartNumber) WITH(CompletedPart, String, ETag) };
class CompletedMultipartUpload {
  FLD(Vector<CompletedPart>, Parts) WITH(CompletedMultipartUpload, Vector<CompletedPart>, Parts)
  CompletedMultipartUpload& AddParts(const CompletedPart& p) { Parts_.push_back(p); return *this; }
};
#define BK FLD(String, Bucket) FLD(String, Key)
class CreateMultipartUploadRequest { BK FLD(String, ContentType) };
class AbortMultipartUploadRequest { BK FLD(String, UploadId) };
class CompleteMultipartUploadRequest { BK FLD(String, UploadId) FLD(CompletedMultipartUpload, MultipartUpload) };
class GetObjectRequest { BK FLD(String, Range) };
class HeadObjectRequest { BK };
class PutObjectRequest { BK FLD(std::shared_ptr<IOStream>, Body) FLD(long long, ContentLength) FLD(String, ContentType) };
class UploadPartRequest { BK FLD(String, UploadId) FLD(int, PartNumber) FLD(long long, ContentLength) FLD(std::shared_ptr<IOStream>, Body) };
class CreateMultipartUploadResult { FLD(String, UploadId) };
class UploadPartResult { FLD(String, ETag) };
class CompleteMultipartUploadResult { FLD(String, ETag) };
class AbortMultipartUploadResult {};
class PutObjectResult {};
class HeadObjectResult { FLD(long long, ContentLength) };
class GetObjectResult {
  std::shared_ptr<StringStream> body_ = std::make_shared<StringStream>();
 public:
  FLD(long long, ContentLength)
  IOStream& GetBody() const { return *body_; }
  void ReplaceBody(const std::string& s) { body_ = std::make_shared<StringStream>(s); }
};
#undef FLD
#undef WITH
#undef BK
using CreateMultipartUploadOutcome = Outcome<CreateMultipartUploadResult>;
using UploadPartOutcome = Outcome<UploadPartResult>;
using CompleteMultipartUploadOutcome = Outcome<CompleteMultipartUploadResult>;
using AbortMultipartUploadOutcome = Outcome<AbortMultipartUploadResult>;
using PutObjectOutcome = Outcome<PutObjectResult>;
using HeadObjectOutcome = Outcome<HeadObjectResult>;
using GetObjectOutcome = Outcome<GetObjectResult>;
}  // namespace Model
inline S3Error err(const std::string& m) { return S3Error{"Fault", m}; }
inline std::string readAll(const std::shared_ptr<IOStream>& b) {
  if (!b || b->fail()) return "";                             // the SDK measures the body by seeking; a stream that cannot be read has length 0
  b->clear(); b->seekg(0);
  std::stringstream s;
  s << b->rdbuf();
  return s.str();
}
class S3Client {
 public:
  S3Client() = default;
  explicit S3Client(const Client::ClientConfiguration& c) : config(c) {}
  S3Client(const Auth::AWSCredentials& a, const Client::ClientConfiguration& c) : config(c), credentials(a) {}
  virtual ~S3Client() = default;
  Client::ClientConfiguration config;
  Auth::AWSCredentials credentials;
  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest& q) const {
    auto& s = *cloudfake::store();
    if (s.ask("GetObject")) return err("read failed");
    auto it = s.objects.find(q.GetBucket() + "/" + q.GetKey());
    if (it == s.objects.end()) return err("no such key");
    auto r = cloudfake::range(it->second, q.GetRange());
    if (!r) return err("invalid range");
    Model::GetObjectResult o;
    o.ReplaceBody(*r);
    o.SetContentLength(r->size());
    return o;
  }
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest& q) const {
    auto& s = *cloudfake::store();
    if (s.ask("HeadObject")) return err("head failed");
    auto it = s.objects.find(q.GetBucket() + "/" + q.GetKey());
    if (it == s.objects.end()) return err("no such key");
    Model::HeadObjectResult o;
    o.SetContentLength(it->second.size());
    return o;
  }
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest& q) const {
    auto& s = *cloudfake::store();
    int f = s.ask("PutObject");
    if (f != 1) s.objects[q.GetBucket() + "/" + q.GetKey()] = readAll(q.GetBody());
    if (f) return err("put failed");
    return Model::PutObjectResult{};
  }
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(const Model::CreateMultipartUploadRequest& q) const {
    auto& s = *cloudfake::store();
    if (s.ask("CreateMultipartUpload")) return err("create failed");
    std::string id = "upload-" + std::to_string(s.nextId++);
    s.uploads[id] = {q.GetBucket(), q.GetKey(), q.GetContentType(), {}};
    Model::CreateMultipartUploadResult r;
    r.SetUploadId(id);
    return r;
  }
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest& q) const {
    auto& s = *cloudfake::store();
    int f = s.ask("UploadPart");
    if (f == 1) return err("part failed");
    auto it = s.uploads.find(q.GetUploadId());
    if (it == s.uploads.end() || it->second.bucket != q.GetBucket() || it->second.key != q.GetKey()) return err("no such upload");
    if (q.GetPartNumber() < 1 || q.GetPartNumber() > 10000) return err("invalid part number");
    auto body = readAll(q.GetBody());
    if (q.ContentLengthHasBeenSet() && q.GetContentLength() != (long long)body.size()) return err("incomplete body");
    std::string tag = "etag-" + std::to_string(s.nextId++);
    it->second.parts[q.GetPartNumber()] = {tag, body};
    if (f) return err("answer lost");
    Model::UploadPartResult r;
    r.SetETag(tag);
    return r;
  }
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(const Model::CompleteMultipartUploadRequest& q) const {
    auto& s = *cloudfake::store();
    int f = s.ask("CompleteMultipartUpload");
    if (f == 1) return err("complete failed");
    auto it = s.uploads.find(q.GetUploadId());
    if (it == s.uploads.end() || it->second.bucket != q.GetBucket() || it->second.key != q.GetKey()) return err("no such upload");
    std::string all;
    int last = 0;
    auto parts = q.GetMultipartUpload().GetParts();
    if (parts.empty()) return err("malformed: no parts");
    for (auto& p : parts) {
      if (p.GetPartNumber() <= last) return err("invalid part order");
      last = p.GetPartNumber();
      auto j = it->second.parts.find(last);
      if (j == it->second.parts.end() || j->second.first != p.GetETag()) return err("invalid part");
      all += j->second.second;
    }
    s.objects[it->second.bucket + "/" + it->second.key] = all;
    s.uploads.erase(it);
    if (f) return err("answer lost");
    return Model::CompleteMultipartUploadResult{};
  }
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(const Model::AbortMultipartUploadRequest& q) const {
    auto& s = *cloudfake::store();
    if (s.ask("AbortMultipartUpload") == 1) return err("abort failed");
    auto it = s.uploads.find(q.GetUploadId());
    if (it == s.uploads.end()) return err("no such upload");
    s.uploads.erase(it);
    return Model::AbortMultipartUploadResult{};
  }
};
}  // namespace Aws::S3
