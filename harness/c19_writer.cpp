// C19: buffered writing, local files, multipart and resumable uploads, and whole-file helpers, with every storage call free to fail.
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include "cloud_fake.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileWriter.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileWriter.h"
#include "fbpcf/io/cloud_util/GCSFileUploader.h"
#include "fbpcf/io/cloud_util/S3FileUploader.h"
#include "mc/mc.h"
using namespace mc;
using namespace fbpcf::io;

static std::string data(size_t from, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)((from + i) * 7 + 'A' + ((from + i) % 5 == 3 ? 128 : 0)); return s; }
static std::vector<char> chars(const std::string& s) { return {s.begin(), s.end()}; }
static std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string file(const std::string& t) { return "c19-" + str(getpid()) + "-" + t; }

// destination whose calls may fail: 0 fine, 1 stores nothing and answers 0, 2 stores half and answers so, 3 throws
struct Dest : IWriterCloser {
  Dest(std::string* out, bool* failed, int* closes) : out_(out), failed_(failed), closes_(closes) { filepath_ = "dest"; }
  size_t write(std::vector<char>& b) override {
    int f = choose(4, "write fails", 1);
    if (f) *failed_ = true;
    if (f == 1) return 0;
    if (f == 2) { out_->append(b.begin(), b.begin() + b.size() / 2); return b.size() / 2; }
    if (f == 3) throw std::runtime_error("dest");
    out_->append(b.begin(), b.end());
    return b.size();
  }
  int close() override { (*closes_)++; return *closes_ > 1 ? 0 : -3; }
  std::string* out_;
  bool* failed_;
  int* closes_;
};
static void buffered(int depth) {
  static const int chunks[] = {1, 2, 3, 4};
  static const int sizes[] = {0, 1, 2, 3, 5, 9};
  int chunk = chunks[choose(4, "chunk")];
  std::string out, all, ctx = "chunk " + str(chunk);
  bool failed = false, thrown = false, closed = false;
  int closes = 0;
  {
    BufferedWriter w(std::make_unique<Dest>(&out, &failed, &closes), chunk);
    check(w.getFilePath() == "dest", "path");
    try {
      for (int i = 0; i < depth; i++) {
        int k = choose(8, "operation");
        evals(); step();
        if (k == 7) { w.flush(); ctx += " flush"; check(out == all, "flushed data", [&] { return ctx; }); continue; }
        auto d = data(all.size(), k == 6 ? 2 : sizes[k]);
        ctx += (k == 6 ? " string" : " write ") + str(d.size());
        all += d;
        if (k == 6) check(w.writeString(d) == d.size(), "bytes accepted");
        else { auto v = chars(d); check(w.write(v) == d.size() && v == chars(d), "bytes accepted"); }
      }
      if (choose(2, "close") == 0) { check(w.close() == -3, "result of closing the destination is passed on"); closed = true; check(out == all, "data after close", [&] { return ctx; }); }
      else w.flush();
    } catch (const std::exception&) { thrown = true; }
    note(ctx);
    check(thrown == failed, "a failed write is reported", [&] { return ctx + " thrown " + str(thrown) + " failed " + str(failed); });
  }
  check(closes >= 1, "destination closed");
  if (!failed) check(out == all, "data at the end", [&] { return ctx; });
  state(hashStr(ctx) + closed + failed * 2);
}

static void local() {
  static const int sizes[] = {0, 1, 3, 4095, 4096, 4097};
  int kind = choose(5, "writer"), where = choose(3, "where"), n = choose(4, "writes");
  std::string dir = file("dir");
  std::string f = where == 0 ? file("out") : where == 1 ? dir + "/out" : dir + "/a/b/out";
  if (choose(2, "exists already") && where == 0) { std::ofstream(f) << "previous content that is longer than the new one"; }
  std::string all, ctx = "writer " + str(kind) + " where " + str(where);
  std::vector<std::string> parts;
  for (int i = 0; i < n; i++) { auto d = data(all.size(), sizes[choose(6, "size")]); all += d; parts.push_back(d); ctx += " " + str(d.size()); }
  note(ctx);
  int rc = 0;
  if (kind == 0) { LocalFileWriter w(f); for (auto& p : parts) { auto v = chars(p); check(w.write(v) == p.size(), "bytes accepted"); } rc = w.close(); check(w.close() == 0, "second close"); }
  else if (kind == 1) { FileWriter w(f); for (auto& p : parts) { auto v = chars(p); check(w.write(v) == p.size(), "bytes accepted"); } rc = w.close(); }
  else if (kind == 2) { BufferedWriter w(std::make_unique<FileWriter>(f)); for (auto& p : parts) w.writeString(p); rc = w.close(); }
  else if (kind == 3) FileIOWrappers::writeFile(f, all);
  else { BufferedWriter w(std::make_unique<FileWriter>(f), 3); for (auto& p : parts) w.writeString(p); }  // closed by destruction
  check(rc == 0, "close");
  check(get(f) == all, "file content", [&] { return ctx; });
  unlink(f.c_str());
  std::filesystem::remove_all(std::filesystem::current_path() / dir);
  evals(); step();
  state(hashStr(ctx));
}
// a device that accepts no byte
static void fullDevice() {
  int kind = choose(6, "writer"), n = choose(3, "size");
  auto d = data(0, n == 0 ? 1 : n == 1 ? 5000 : 40000);
  bool reported = false;
  note("writer " + str(kind) + " size " + str(d.size()));
  auto src = file("src");
  { std::ofstream o(src, std::ios::binary); o << d; }
  try {
    if (kind == 0) { LocalFileWriter w("/dev/full"); auto v = chars(d); w.write(v); reported = w.close() != 0; }
    else if (kind == 1) { FileWriter w("/dev/full"); auto v = chars(d); w.write(v); reported = w.close() != 0; }
    else if (kind == 2) { BufferedWriter w(std::make_unique<FileWriter>("/dev/full")); w.writeString(d); reported = w.close() != 0; }
    else if (kind == 3) FileIOWrappers::writeFile("/dev/full", d);
    else if (kind == 4) FileIOWrappers::transferFileInParts(src, "/dev/full");
    else fbpcf::LocalFileManager().write("/dev/full", d);
  } catch (const std::exception&) { reported = true; }
  unlink(src.c_str());
  evals(); step();
  check(reported, "a full device is reported", [&] { return "writer " + str(kind) + " size " + str(d.size()); });
  state(kind * 3 + n);
}

static std::string path(int provider) { return provider == 0 ? "https://bkt.s3.us-west-2.amazonaws.com/dir/key" : "https://storage.googleapis.com/bkt/dir/key"; }
static bool anyFault, otherFault; static int run_, longest;  // refusals in a row of one part
static void faults() {
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  cloudfake::reset();
  anyFault = otherFault = false; run_ = longest = 0;
  cloudfake::store()->fault = [](const std::string& op) { static std::set<std::string> names; int f = choose(3, names.insert(op).first->c_str(), 1); if (f) anyFault = true; if (op == "UploadPart") longest = std::max(longest, run_ = f ? run_ + 1 : 0); else if (f) otherFault = true; return f; };
}
static void verdict(const std::string& ctx, bool reported, const std::string& all) {
  auto& o = cloudfake::store()->objects;
  auto it = o.find("bkt/dir/key");
  evals(); step();
  if (!reported) check(it != o.end() && it->second == all, "object after a success", [&] { return ctx + (it == o.end() ? " absent" : " content '" + it->second.substr(0, 60) + "' want '" + all.substr(0, 60) + "'"); });
  else {
    check(it == o.end() || it->second == all, "incomplete object published", [&] { return ctx + " content '" + it->second.substr(0, 60) + "' of '" + all.substr(0, 60) + "'"; });
    check(anyFault || all.empty(), "failure without a cause", [&] { return ctx; });
  }
  for (auto& kv : o) check(kv.first == "bkt/dir/key", "wrong object", [&] { return kv.first; });
  std::string l;
  for (auto& x : cloudfake::store()->log) l += x;
  state(hashStr(ctx + l) + reported);
}
// the uploaders alone: a caller that stops at the first refused part, or carries on
static void uploader(int maxParts) {
  faults();
  int provider = choose(2, "provider"), n = choose(maxParts + 1, "parts"), persist = choose(2, "caller carries on"), layer = choose(3, "layer");
  std::string all, ctx = "provider " + str(provider) + " parts " + str(n) + " layer " + str(layer);
  note(ctx);
  bool reported = false;
  try {
    std::unique_ptr<fbpcf::cloudio::IFileUploader> u;
    std::unique_ptr<IWriterCloser> w;
    if (layer == 0) {
      if (provider == 0) u = std::make_unique<fbpcf::cloudio::S3FileUploader>(std::make_shared<Aws::S3::S3Client>(), path(0));
      else u = std::make_unique<fbpcf::cloudio::GCSFileUploader>(std::make_shared<google::cloud::storage::Client>(), path(1));
    } else if (layer == 1) w = std::make_unique<CloudFileWriter>(path(provider));
    else w = std::make_unique<FileWriter>(path(provider));
    for (int i = 0; i < n; i++) {
      auto d = data(all.size(), 1 + i);
      all += d;
      auto v = chars(d);
      size_t r = u ? (size_t)u->upload(v) : w->write(v);
      if (r != d.size()) { reported = true; check(r == 0 || r == (size_t)-1, "answer for a refused part"); if (!persist) { for (int j = i + 1; j < n; j++) all += data(all.size(), 1 + j); break; } }
    }
    int rc = u ? u->complete() : w->close();
    if (rc != 0) reported = true;
    if (w) check(w->close() == 0, "second close does nothing");
  } catch (const std::exception&) { reported = true; }
  if (provider == 0 && !otherFault && longest == 1) check(!reported || all.empty(), "an upload failed although every part was refused once at most", [&] { return ctx; });
  verdict(ctx, reported, all);
}
static void bufferedCloud() {
  faults();
  int provider = choose(2, "provider"), n = choose(4, "bytes") * 2, end = choose(2, "end"), chunk = 2;
  std::string all = data(0, n), ctx = "provider " + str(provider) + " bytes " + str(n) + " end " + str(end);
  note(ctx);
  bool reported = false, flushed = false;
  try {
    BufferedWriter w(std::make_unique<FileWriter>(path(provider)), chunk);
    try { w.writeString(all); w.flush(); flushed = true; if (end == 0 && w.close() != 0) reported = true; } catch (const std::exception&) { reported = true; }
    // otherwise closed by destruction, which cannot report
    if (end == 1 && flushed) { reported = true; anyFault = true; }
  } catch (const std::exception&) { reported = true; }
  verdict(ctx, reported, all);
}
// whole-file helpers: the only way to report is to throw
static void helpers() {
  faults();
  int kind = choose(8, "helper"), n = choose(3, "size");
  std::string all = n == 0 ? "" : n == 1 ? "line\n" : "one\ntwo\n\nthree\n", ctx = "helper " + str(kind) + " size " + str(n);
  int provider = kind % 2;
  note(ctx);
  auto src = file("src");
  { std::ofstream o(src, std::ios::binary); o << all; }
  bool reported = false;
  try {
    switch (kind) {
      case 0: case 1: FileIOWrappers::writeFile(path(provider), all); break;
      case 2: case 3: FileIOWrappers::transferFileInParts(src, path(provider)); break;
      case 4: fbpcf::S3FileManager(std::make_unique<Aws::S3::S3Client>()).write(path(0), all); break;
      case 5: fbpcf::GCSFileManager<google::cloud::storage::Client>(std::make_shared<google::cloud::storage::Client>()).write(path(1), all); break;
      case 6: fbpcf::S3FileManager(std::make_unique<Aws::S3::S3Client>()).copy(src, path(0)); break;
      case 7: fbpcf::GCSFileManager<google::cloud::storage::Client>(std::make_shared<google::cloud::storage::Client>()).copy(src, path(1)); break;
    }
  } catch (const std::exception&) { reported = true; }
  unlink(src.c_str());
  verdict(ctx, reported, all);
}
static void missingSource() {
  faults();
  int kind = choose(5, "helper");
  bool reported = false;
  auto missing = file("missing"), dst = file("dst");
  try {
    if (kind == 0) FileIOWrappers::transferFileInParts(missing, dst);
    else if (kind == 1) fbpcf::LocalFileManager().copy(missing, dst);
    else if (kind == 2) fbpcf::S3FileManager(std::make_unique<Aws::S3::S3Client>()).copy(missing, path(0));
    else if (kind == 3) fbpcf::GCSFileManager<google::cloud::storage::Client>(std::make_shared<google::cloud::storage::Client>()).copy(missing, path(1));
    else read(missing);
  } catch (const std::exception&) { reported = true; }
  unlink(dst.c_str());
  evals(); step();
  check(reported, "a missing source is reported", [&] { return "helper " + str(kind); });
  check(cloudfake::store()->objects.empty(), "nothing is published for a missing source", [&] { return "helper " + str(kind); });
  state(kind);
}
// file managers on local files
static void manager() {
  int kind = choose(3, "operation"), where = choose(3, "where"), n = choose(5, "size");
  auto all = n == 4 ? std::string("a\0b\0", 4) : data(0, n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 300 : 70000);
  std::string dir = file("mdir"), f = where == 0 ? file("m") : where == 1 ? dir + "/m" : "./" + dir + "/x/m", src = file("msrc");
  auto ctx = "operation " + str(kind) + " where " + str(where) + " size " + str(all.size());
  note(ctx);
  { std::ofstream o(src, std::ios::binary); o << all; }
  fbpcf::LocalFileManager m;
  if (kind == 0) m.write(f, all);
  else if (kind == 1) fbpcf::io::write(f, all);
  else m.copy(src, f);
  check(get(f) == all, "file content", [&] { return ctx; });
  check(fbpcf::io::read(f) == all && m.read(f) == all, "file read back", [&] { return ctx; });
  unlink(f.c_str());
  unlink(src.c_str());
  std::filesystem::remove_all(std::filesystem::current_path() / dir);
  evals(3); step();
  state(hashStr(ctx));
}
// with the default chunk size, every stored part but the last reaches the size the services require
static void partSizes() {
  static const long sizes[] = {1, 5242879, 5242880, 5242881, 10485760, 10485761};
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  cloudfake::reset();
  int provider = choose(2, "provider"), k = choose(6, "size"), how = choose(2, "helper");
  std::string all(sizes[k], 'x');
  for (size_t i = 0; i < all.size(); i += 61) all[i] = (char)('a' + i % 23);
  for (size_t i = 99; i < all.size(); i += 100) all[i] = '\n';
  all.back() = '\n';
  std::vector<size_t> parts;
  cloudfake::store()->fault = [&](const std::string& op) {
    if (op == "CompleteMultipartUpload" || op == "Close")
      for (auto& u : cloudfake::store()->uploads) for (auto& p : u.second.parts) parts.push_back(p.second.second.size());
    return 0;
  };
  auto src = file("big");
  if (how == 0) FileIOWrappers::writeFile(path(provider), all);
  else { { std::ofstream o(src, std::ios::binary); o << all; } FileIOWrappers::transferFileInParts(src, path(provider)); unlink(src.c_str()); }
  check(cloudfake::store()->objects["bkt/dir/key"] == all, "large object", [&] { return str(all.size()); });
  check(!parts.empty(), "parts stored");
  for (size_t i = 0; i + 1 < parts.size(); i++) check(parts[i] >= 5242880, "part smaller than the service accepts", [&] { return "part " + str(i) + " has " + str(parts[i]); });
  evals(2); step(parts.size());
  state(mix(provider * 6 + k, how));
}

int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C19", {
    {"buffered writer, 2 operations", [] { buffered(2); }, 1, 2},
    {"buffered writer, 3 operations", [] { buffered(3); }, 1, 2},
    {"buffered writer, 4 operations", [] { buffered(4); }, 1, 2, true},
    {"local writers", local},
    {"full device", fullDevice},
    {"uploads", [] { uploader(2); }, 5, 6},
    {"uploads of several parts", [] { uploader(4); }, 2, 5},
    {"buffered uploads", bufferedCloud, 5, 6},
    {"whole-file helpers", helpers, 5, 6},
    {"missing source", missingSource, 0, 2},
    {"file managers", manager},
    {"part sizes", partSizes},
  });
}
