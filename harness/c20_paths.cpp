// C20: which backend, bucket, key, region and byte range an address means.
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include "cloud_fake.h"
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/io/cloud_util/CloudFileUtil.h"
#include "fbpcf/io/cloud_util/GCSFileReader.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/io/cloud_util/S3FileReader.h"
#include "mc/mc.h"
using namespace mc;
using namespace fbpcf;
using cloudio::CloudFileType;
using fbpcf::io::FileReader;
using fbpcf::io::IOUtils;
using fbpcf::io::FileIOWrappers;

static const std::vector<std::string> BUCKETS{"b", "bucket", "my-bucket", "my.bucket.x", "s3", "a.s3.b", "x.s3-y", "0-9", "storage"};
static const std::vector<std::string> REGIONS{"us-west-2", "eu-central-1", "r", "x-s3"};
static const std::vector<std::string> KEYS{"k", "key", "dir/key", "a/b/c.csv", "dir/", "s3.x.amazonaws.com/k", "storage.googleapis.com/k", "key with-dots.1_2", "a//b", "k%20x"};
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

struct Region : cloudio::S3ClientFactory {
  std::string last;
  int made = 0;
  std::shared_ptr<Aws::S3::S3Client> createS3Client(const aws::S3ClientOption& o) override {
    last = o.region.value_or("(none)");
    made++;
    return std::shared_ptr<Aws::S3::S3Client>(aws::createS3Client(o));
  }
};

static void s3Good() {
  int style = choose(3, "style");
  auto bucket = BUCKETS[choose((int)BUCKETS.size(), "bucket")], region = REGIONS[choose((int)REGIONS.size(), "region")], key = KEYS[choose((int)KEYS.size(), "key")];
  setenv("AWS_DEFAULT_REGION", style == 2 ? region.c_str() : "other-region", 1);
  auto url = style == 0 ? "https://" + bucket + ".s3." + region + ".amazonaws.com/" + key : style == 1 ? "https://" + bucket + ".s3-" + region + ".amazonaws.com/" + key : "s3://" + bucket + "/" + key;
  note(url);
  evals(4); step();
  aws::S3ObjectReference r;
  check(!throws([&] { r = aws::uriToObjectReference(url); }), "address accepted", [&] { return url; });
  check(r.bucket == bucket && r.key == key && r.region == region, "bucket, key and region", [&] { return url + " -> " + r.bucket + " | " + r.key + " | " + r.region; });
  check(cloudio::getCloudFileType(url) == CloudFileType::S3, "type of the address", [&] { return url; });
  check(cloudio::getCloudProviderString(url) == "AWS" && cloudio::getCloudStorageServiceString(url) == "S3", "names of the provider", [&] { return url; });
  check(IOUtils::isCloudFile(url), "recognised as a cloud file", [&] { return url; });
  check(IOUtils::getDefaultReaderChunkSizeForFile(url) == fbpcf::io::kCloudBufferedReaderChunkSize && IOUtils::getDefaultWriterChunkSizeForFile(url) == fbpcf::io::kCloudBufferedWriterChunkSize, "chunk sizes", [&] { return url; });
  if (style < 2) check(fbpcf::io::getFileType(url) == fbpcf::io::FileType::S3, "file type", [&] { return url; });
  // reading and writing through the whole stack touches that object and no other
  cloudfake::reset();
  auto& st = *cloudfake::store();
  st.objects[bucket + "/" + key] = "payload";
  std::vector<char> b(100);
  FileReader rd(url);
  size_t n = rd.read(b);
  check(std::string(b.begin(), b.begin() + n) == "payload", "object read", [&] { return url; });
  st.objects.clear();
  FileIOWrappers::writeFile(url, "fresh");
  check(st.objects.size() == 1 && st.objects.begin()->first == bucket + "/" + key && st.objects.begin()->second == "fresh", "object written", [&] { return url; });
  if (style < 2) {
    fbpcf::io::write(url, "again");
    check(st.objects.size() == 1 && st.objects.begin()->second == "again" && fbpcf::io::read(url) == "again", "object through the file manager", [&] { return url; });
  }
  state(hashStr(url));
}
static void gcsGood() {
  int style = choose(4, "style");
  auto bucket = BUCKETS[choose((int)BUCKETS.size(), "bucket")], key = KEYS[choose((int)KEYS.size(), "key")];
  auto url = style == 0 ? "https://storage.cloud.google.com/" + bucket + "/" + key : style == 1 ? "https://" + bucket + ".storage.googleapis.com/" + key : style == 2 ? "https://storage.googleapis.com/" + bucket + "/" + key : "gs://" + bucket + "/" + key;
  note(url);
  evals(4); step();
  gcp::GCSObjectReference r;
  check(!throws([&] { r = gcp::uriToObjectReference(url); }), "address accepted", [&] { return url; });
  check(r.bucket == bucket && r.key == key, "bucket and key", [&] { return url + " -> " + r.bucket + " | " + r.key; });
  check(cloudio::getCloudFileType(url) == CloudFileType::GCS, "type of the address", [&] { return url; });
  check(cloudio::getCloudProviderString(url) == "GCP" && cloudio::getCloudStorageServiceString(url) == "GCS", "names of the provider", [&] { return url; });
  check(IOUtils::isCloudFile(url), "recognised as a cloud file", [&] { return url; });
  cloudfake::reset();
  auto& st = *cloudfake::store();
  st.objects[bucket + "/" + key] = "payload";
  std::vector<char> b(100);
  FileReader rd(url);
  size_t n = rd.read(b);
  check(std::string(b.begin(), b.begin() + n) == "payload", "object read", [&] { return url; });
  st.objects.clear();
  FileIOWrappers::writeFile(url, "fresh");
  check(st.objects.size() == 1 && st.objects.begin()->first == bucket + "/" + key && st.objects.begin()->second == "fresh", "object written", [&] { return url; });
  GCSFileManager<google::cloud::storage::Client> m(std::make_shared<google::cloud::storage::Client>());
  m.write(url, "again");
  check(st.objects.size() == 1 && st.objects.begin()->second == "again" && m.read(url) == "again", "object through the file manager", [&] { return url; });
  state(hashStr(url));
}
// every way of spoiling one separator or part of a well-formed address
static void malformed() {
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  static const std::vector<std::vector<std::string>> forms{
    {"https://", "bucket", ".", "s3", ".", "us-west-2", ".", "amazonaws", ".", "com", "/", "key"},
    {"https://", "bucket", ".", "s3", "-", "us-west-2", ".", "amazonaws", ".", "com", "/", "key"},
    {"https://", "storage", ".", "cloud", ".", "google", ".", "com", "/", "bucket", "/", "key"},
    {"https://", "bucket", ".", "storage", ".", "googleapis", ".", "com", "/", "key"},
    {"https://", "storage", ".", "googleapis", ".", "com", "/", "bucket", "/", "key"},
    {"s3://", "bucket", "/", "key"},
    {"gs://", "bucket", "/", "key"}};
  int f = choose((int)forms.size(), "form");
  auto p = forms[f];
  int at = choose((int)p.size(), "part"), how = choose(6, "change");
  if (how == 0) p[at] = "";
  else if (how == 1) { assume(p[at] == "." || p[at] == "-"); p[at] = "x"; }
  else if (how == 2) { assume(p[at] == "." || p[at] == "-"); p[at] = "/"; }
  else if (how == 3) { assume(p[at] == "amazonaws" || p[at] == "com" || p[at] == "s3" || p[at] == "storage" || p[at] == "googleapis" || p[at] == "google" || p[at] == "cloud"); p[at] += "z"; }
  else if (how == 4) { assume(p[at] == "com"); p[at] = "com.evil.org"; }
  else { assume(p[at] == "key" || (p[at] == "bucket" && f >= 5)); p[at] = ""; if (p[at] == "key" && at > 0) p[at - 1] = ""; }
  std::string url;
  for (auto& x : p) url += x;
  note(url);
  // decide independently whether the result happens to be well formed
  auto lower = [](const std::string& s) { for (char c : s) if (!(islower((unsigned char)c) || isdigit((unsigned char)c) || c == '-' || c == '.')) return false; return !s.empty(); };
  auto region = [](const std::string& s) { for (char c : s) if (!(islower((unsigned char)c) || isdigit((unsigned char)c) || c == '-')) return false; return !s.empty(); };
  bool s3 = false, gcs = false;
  auto starts = [&](const std::string& s) { return url.compare(0, s.size(), s) == 0; };
  if (starts("s3://") || starts("gs://")) {
    auto rest = url.substr(5);
    auto sl = rest.find('/');
    bool ok = sl != std::string::npos && sl + 1 < rest.size();
    bool emptyBucket = sl == 0;
    if (emptyBucket) return;  // an address without a bucket is left to the service
    (starts("s3://") ? s3 : gcs) = ok;
  } else if (starts("https://")) {
    auto rest = url.substr(8);
    auto sl = rest.find('/');
    if (sl != std::string::npos && sl + 1 < rest.size()) {
      auto host = rest.substr(0, sl), path = rest.substr(sl + 1);
      auto ends = [&](const std::string& s) { return host.size() > s.size() && host.compare(host.size() - s.size(), s.size(), s) == 0; };
      if (ends(".amazonaws.com")) {
        auto h = host.substr(0, host.size() - 14);
        for (size_t i = 1; i + 3 < h.size(); i++)
          if (h.compare(i, 3, ".s3") == 0 && (h[i + 3] == '.' || h[i + 3] == '-') && lower(h.substr(0, i)) && region(h.substr(i + 4))) s3 = true;
      }
      bool pathStyle = host == "storage.cloud.google.com" || host == "storage.googleapis.com";
      auto ps = path.find('/');
      if (pathStyle) gcs = ps != std::string::npos && ps > 0 && ps + 1 < path.size();
      if (ends(".storage.googleapis.com")) gcs = lower(host.substr(0, host.size() - 23));
      if (pathStyle && ps == 0) return;  // empty bucket in a path
    }
  }
  evals(3); step();
  cloudfake::reset();
  auto& st = *cloudfake::store();
  st.objects["bucket/key"] = "secret";
  if (!s3 && (starts("https://") || starts("s3://"))) check(throws([&] { aws::uriToObjectReference(url); }), "malformed S3 address rejected", [&] { return url; });
  if (s3) check(!throws([&] { aws::uriToObjectReference(url); }), "well-formed S3 address accepted", [&] { return url; });
  if (!s3 && !gcs) {
    check(throws([&] { cloudio::getCloudFileReader(url)->getFileContentLength(url); }), "malformed address cannot be read", [&] { return url; });
    check(throws([&] { auto u = cloudio::getCloudFileUploader(url); std::vector<char> v{'x'}; if (u->upload(v) != 1 || u->complete() != 0) throw std::runtime_error("refused"); }), "malformed address cannot be written", [&] { return url; });
    check(st.objects.size() == 1 && st.objects["bucket/key"] == "secret", "objects untouched", [&] { return url; });
  } else {
    check(cloudio::getCloudFileType(url) == (s3 ? CloudFileType::S3 : CloudFileType::GCS), "type of the address", [&] { return url; });
  }
  state(hashStr(url));
}
static void localNames() {
  static const std::vector<std::string> names{"a", "/tmp/x", "./https://x", "http://bucket/key", "https:/x", "https", "x/https://y", " https://x", "file.csv", "s3:/b/k", "gs/b", "s3", "xs3://b/k", "ftp://h/k", "", "dir/s3://b"};
  auto n = names[choose((int)names.size(), "name")];
  note(n);
  evals(3); step();
  check(!IOUtils::isCloudFile(n), "local file name", [&] { return n; });
  check(cloudio::getCloudFileType(n) == CloudFileType::UNKNOWN, "type of a local name", [&] { return n; });
  check(fbpcf::io::getFileType(n) == fbpcf::io::FileType::Local, "file type", [&] { return n; });
  check(cloudio::getCloudProviderString(n).empty() && cloudio::getCloudStorageServiceString(n).empty(), "no provider", [&] { return n; });
  check(throws([&] { cloudio::getCloudFileReader(n); }) && throws([&] { cloudio::getCloudFileUploader(n); }), "no cloud access for a local name", [&] { return n; });
  check(IOUtils::getDefaultReaderChunkSizeForFile(n) == 4096 && IOUtils::getDefaultWriterChunkSizeForFile(n) == 4096, "chunk sizes", [&] { return n; });
  state(hashStr(n));
}
// all byte ranges on small objects, all readers
static void ranges() {
  static const std::vector<std::string> contents{"", "a", "ab", "abcde", std::string("a\0b\0\0c", 6), "l1\nl2\n"};
  auto s = contents[choose(6, "content")];
  int kind = choose(5, "reader");
  size_t start = choose(8, "start"), end = choose(9, "end");
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  cloudfake::reset();
  cloudfake::store()->objects["bkt/k"] = s;
  static const char* s3 = "https://bkt.s3.us-west-2.amazonaws.com/k";
  static const char* gcs = "https://bkt.storage.googleapis.com/k";
  std::string f = "c20-" + str(getpid()), got;
  { std::ofstream o(f, std::ios::binary); o << s; }
  bool err = throws([&] {
    switch (kind) {
      case 0: got = LocalFileManager().readBytes(f, start, end); break;
      case 1: got = S3FileManager(std::make_unique<Aws::S3::S3Client>()).readBytes(s3, start, end); break;
      case 2: got = GCSFileManager<google::cloud::storage::Client>(std::make_shared<google::cloud::storage::Client>()).readBytes(gcs, start, end); break;
      case 3: got = cloudio::S3FileReader(std::make_shared<Aws::S3::S3Client>()).readBytes(s3, start, end); break;
      case 4: got = cloudio::GCSFileReader(std::make_shared<google::cloud::storage::Client>()).readBytes(gcs, start, end); break;
    }
  });
  unlink(f.c_str());
  auto ctx = [&] { return "reader " + str(kind) + " length " + str(s.size()) + " range [" + str(start) + "," + str(end) + ") got " + (err ? "error" : vec(std::vector<char>(got.begin(), got.end()))); };
  note(ctx());
  evals(); step();
  if (start > end || (start > s.size() && start < end)) check(err, "impossible range is reported", ctx);
  else {
    bool empty = start == end || start >= s.size();
    if (!empty) check(!err, "valid range accepted", ctx);
    if (!err) check(got == s.substr(std::min(start, s.size()), end - start), "bytes of the range", ctx);
  }
  state(mix(hashStr(s), (kind * 8 + start) * 9 + end));
}
static void largeRange() {
  std::string s(9 * 1024 * 1024 + 5, 'q');
  for (size_t i = 0; i < s.size(); i += 251) s[i] = (char)i;
  static const size_t cut[] = {0, 1, 8191, 8192, 1 << 20, (size_t)9 * 1024 * 1024};
  size_t start = cut[choose(6, "start")], end = choose(2, "end") ? s.size() : start + 8193;
  std::string f = "c20-large-" + str(getpid());
  { std::ofstream o(f, std::ios::binary); o << s; }
  auto got = LocalFileManager().readBytes(f, start, end);
  unlink(f.c_str());
  evals(); step();
  check(got == s.substr(start, end - start), "bytes of a large range", [&] { return str(start) + ".." + str(end) + " got " + str(got.size()); });
  state(mix(start, end));
}
// explicit options win over the environment, which wins over the default
static void clientOptions() {
  bool opt[5], env[5];
  aws::S3ClientOption o;
  static const char* names[] = {"AWS_DEFAULT_REGION", "AWS_PROXY_HOST", "AWS_PROXY_PORT", "AWS_PROXY_SCHEME", "AWS_PROXY_CERT_PATH"};
  for (int i = 0; i < 5; i++) { opt[i] = choose(2, "option"); env[i] = choose(2, "environment"); if (!env[i]) unsetenv(names[i]); }
  int cred = choose(4, "credentials"), sch = choose(2, "scheme");
  if (env[0]) setenv(names[0], "envregion", 1);
  if (env[1]) setenv(names[1], "envhost", 1);
  if (env[2]) setenv(names[2], "1234", 1);
  if (env[3]) setenv(names[3], sch ? "HTTPS" : "HTTP", 1);
  if (env[4]) setenv(names[4], "envcert", 1);
  if (opt[0]) o.region = "optregion";
  if (opt[1]) o.proxyHost = "opthost";
  if (opt[2]) o.proxyPort = 99;
  if (opt[3]) o.proxyScheme = sch ? "HTTP" : "HTTPS";
  if (opt[4]) o.proxySSLCertPath = "optcert";
  if (cred & 1) o.accessKeyId = "id";
  if (cred & 2) o.secretKey = "secret";
  Aws::Client::ClientConfiguration def;
  auto c = aws::createS3Client(o);
  evals(6); step();
  auto pick = [&](int i, std::string a, std::string b, std::string d) { return opt[i] ? a : env[i] ? b : d; };
  check(c->config.region == pick(0, "optregion", "envregion", def.region), "region", [&] { return c->config.region; });
  check(c->config.proxyHost == pick(1, "opthost", "envhost", def.proxyHost), "proxy host");
  check(c->config.proxyPort == (opt[2] ? 99u : env[2] ? 1234u : def.proxyPort), "proxy port");
  auto H = Aws::Http::Scheme::HTTP, S = Aws::Http::Scheme::HTTPS;
  check(c->config.proxyScheme == (opt[3] ? (sch ? H : S) : env[3] ? (sch ? S : H) : def.proxyScheme), "proxy scheme");
  check(c->config.proxySSLCertPath == pick(4, "optcert", "envcert", def.proxySSLCertPath), "proxy certificate");
  check(c->credentials.GetAWSAccessKeyId() == (cred == 3 ? "id" : "") && c->credentials.GetAWSSecretKey() == (cred == 3 ? "secret" : ""), "credentials");
  uint64_t h = cred * 2 + sch;
  for (int i = 0; i < 5; i++) h = h * 4 + opt[i] * 2 + env[i];
  state(h);
}
// one client per region, created on first use with that region
static void clientCache() {
  static int gen = 0;
  gen++;
  static const char* rs[] = {"us-a", "us-b", "us-c"};
  auto f = std::make_shared<Region>();
  cloudio::S3Client::setS3ClientFactory(f);
  std::map<int, std::shared_ptr<cloudio::S3Client>> seen;
  for (int i = 0; i < 4; i++) {
    int r = choose(3, "region");
    int before = f->made;
    auto name = std::string(rs[r]) + "-" + str(gen);
    std::shared_ptr<cloudio::S3Client> c;
    if (i % 2) cloudio::getCloudFileReader("https://bkt.s3." + name + ".amazonaws.com/k");
    c = cloudio::S3Client::getInstance(aws::S3ClientOption{.region = name});
    evals(); step();
    if (seen.count(r)) check(c == seen[r] && f->made == before, "client reused");
    else check(f->made == before + 1 && f->last == name && c->getS3Client()->config.region == name, "client of the region", [&] { return f->last; });
    for (auto& kv : seen) if (kv.first != r) check(kv.second->getS3Client() != c->getS3Client(), "client of another region");
    seen[r] = c;
  }
  cloudio::S3Client::setS3ClientFactory(std::make_shared<cloudio::S3ClientFactory>());
  uint64_t h = seen.size();
  state(h);
}

int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C20", {
    {"S3 addresses", s3Good},
    {"GCS addresses", gcsGood},
    {"spoiled addresses", malformed},
    {"local names", localNames},
    {"byte ranges", ranges},
    {"large local ranges", largeRange},
    {"client options", clientOptions},
    {"clients per region", clientCache},
  });
}
