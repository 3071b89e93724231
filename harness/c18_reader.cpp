// C18: buffered reading over scripted sources, local files and cloud objects.
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include "cloud_fake.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "mc/mc.h"
using namespace mc;
using namespace fbpcf::io;

static const char ALPHA[] = {'a', '\n', (char)0xff, '\0'};
static std::string content(int maxLen, int letters) {
  int n = choose(maxLen + 1, "length");
  std::string s;
  for (int i = 0; i < n; i++) s += ALPHA[choose(letters, "byte")];
  return s;
}
static std::string show(const std::string& s) { std::string r; for (char c : s) r += c == '\n' ? 'N' : c == '\0' ? '0' : (unsigned char)c == 0xff ? 'F' : c; return "'" + r + "'"; }
static std::vector<std::string> linesOf(const std::string& s) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : s) if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += c;
  if (!cur.empty()) r.push_back(cur);
  return r;
}
// a source that answers each request with any non-empty part of it
struct Script : IReaderCloser {
  Script(std::string s, int mode, bool shrink, int* closes) : s_(s), mode_(mode), shrink_(shrink), closes_(closes) { filepath_ = "script"; }
  size_t read(std::vector<char>& buf) override {
    if (eof()) throw std::runtime_error("read past the end");
    size_t n = std::min(buf.size(), s_.size() - at_);
    if (mode_ == 1 && n > 1) n = 1 + choose((int)n, "bytes delivered");   // any split
    if (mode_ == 2 && n > 1) n = 1;
    if (mode_ == 3 && n > 1 && choose(2, "short", 1)) n = n / 2;
    std::copy(s_.begin() + at_, s_.begin() + at_ + n, buf.begin());
    if (shrink_) buf.resize(n);
    at_ += n;
    return n;
  }
  bool eof() override { return at_ == s_.size(); }
  int close() override { (*closes_)++; return closed_++ ? 0 : -7; }
  std::string s_;
  size_t at_ = 0;
  int mode_;
  bool shrink_;
  int closed_ = 0;
  int* closes_;
};
// drive a reader with a sequence of line and block reads until the end; the position must never be lost
static void drive(IReaderCloser& r, BufferedReader* lines, const std::string& s, const std::vector<int>& blockMenu, int maxOps, const std::string& ctx) {
  size_t at = 0;
  for (int op = 0; op < maxOps; op++) {
    evals(); step();
    bool end = r.eof();
    check(end == (at == s.size()), "end of data reported", [&] { return ctx + " at " + str(at) + " eof " + str(end); });
    if (at == s.size()) {
      bool t1 = false, t2 = false;
      if (lines) {
        try { lines->readLine(); } catch (const std::exception&) { t1 = true; }
        std::vector<char> b(1);
        try { lines->read(b); } catch (const std::exception&) { t2 = true; }
        check(t1 && t2, "reading past the end is refused");
      }
      return;
    }
    int k = lines ? choose((int)blockMenu.size() + 1, "operation") : 1 + choose((int)blockMenu.size(), "operation");
    if (k == 0) {
      auto e = s.find('\n', at);
      auto want = s.substr(at, e == std::string::npos ? std::string::npos : e - at);
      auto got = lines->readLine();
      check(got == want, "line", [&] { return ctx + " at " + str(at) + " got " + show(got) + " want " + show(want); });
      at = e == std::string::npos ? s.size() : e + 1;
    } else {
      size_t n = blockMenu[k - 1];
      std::vector<char> b(n, 'Z');
      size_t got = r.read(b);
      size_t want = std::min(n, s.size() - at);
      check(got == want, "bytes read", [&] { return ctx + " at " + str(at) + " asked " + str(n) + " got " + str(got); });
      check(b.size() >= got && std::string(b.begin(), b.begin() + std::min(got, b.size())) == s.substr(at, got), "data read", [&] { return ctx + " at " + str(at) + " asked " + str(n); });
      at += got;
    }
  }
}
static void scripted(int maxLen, int letters, int mode) {
  auto s = content(maxLen, letters);
  static const int chunks[] = {1, 2, 3, 5};
  int chunk = chunks[choose(4, "chunk")];
  bool shrink = choose(2, "source shrinks the buffer");
  auto ctx = show(s) + " chunk " + str(chunk) + (shrink ? " shrinking" : "");
  note(ctx);
  int closes = 0;
  {
    auto b = std::make_unique<BufferedReader>(std::make_unique<Script>(s, mode, shrink, &closes), chunk);
    check(b->getFilePath() == "script", "path");
    drive(*b, b.get(), s, {1, 2, 4}, 12, ctx);
    if (choose(2, "close")) check(b->close() == -7, "close result of the source is passed on");
  }
  check(closes >= 1, "source closed");
  state(hashStr(ctx));
}
// only lines, longer contents
static void linesOnly(int maxLen) {
  auto s = content(maxLen, 2);
  int chunk = 1 + choose(5, "chunk");
  int mode = 1;
  auto ctx = show(s) + " chunk " + str(chunk);
  note(ctx);
  int closes = 0;
  BufferedReader b(std::make_unique<Script>(s, mode, false, &closes), chunk);
  std::vector<std::string> got;
  while (!b.eof()) { got.push_back(b.readLine()); check(got.size() <= s.size() + 1, "too many lines"); evals(); step(); }
  check(got == linesOf(s), "lines", [&] { return ctx; });
  state(hashStr(ctx + str(got.size())));
}
// a source whose read reports an error (-1) or throws: the reader must not invent data
struct Failing : Script {
  Failing(std::string s, int failAt, int kind, int* c) : Script(s, 0, false, c), failAt_(failAt), kind_(kind) {}
  size_t read(std::vector<char>& buf) override {
    if (calls_++ == failAt_) { failed_ = true; if (kind_ == 0) return (size_t)-1; throw std::runtime_error("source"); }
    return Script::read(buf);
  }
  int failAt_, kind_, calls_ = 0;
  bool failed_ = false;
};
static void failing() {
  auto s = content(4, 2);
  int chunk = 1 + choose(3, "chunk"), failAt = choose(5, "failing call"), kind = choose(2, "error kind"), how = choose(3, "reads");
  int closes = 0;
  auto f = std::make_unique<Failing>(s, failAt, kind, &closes);
  auto* fp = f.get();
  std::string got;
  bool thrown = false;
  note(show(s) + " chunk " + str(chunk) + " failing call " + str(failAt) + (kind ? " throws" : " returns -1") + " reads " + str(how));
  {
    BufferedReader b(std::move(f), chunk);
    try {
      for (int i = 0; i < 20 && !b.eof(); i++) {
        evals(); step();
        if (how == 0) got += b.readLine() + "\n";
        else { std::vector<char> v(how * 2 - 1); size_t n = b.read(v); check(n <= v.size(), "bytes read"); got.append(v.begin(), v.begin() + std::min(n, v.size())); }
        check(!fp->failed_, "failure of the source swallowed");
      }
    } catch (const std::exception&) { thrown = true; }
    check(thrown == fp->failed_, "failure of the source is reported", [&] { return "thrown " + str(thrown) + " source failed " + str(fp->failed_); });
  }
  std::string pre = s + (how == 0 ? "\n" : "");
  check(pre.compare(0, got.size(), got) == 0, "data before the failure", [&] { return show(got) + " of " + show(s); });
  state(mix(hashStr(s), chunk * 1000 + failAt * 10 + kind * 5 + how));
}

static std::string file(const std::string& tag) { return "c18-" + str(getpid()) + "-" + tag; }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void local() {
  auto s = content(4, 4);
  int kind = choose(3, "reader");
  auto f = file("local");
  put(f, s);
  auto ctx = show(s) + " reader " + str(kind);
  note(ctx);
  if (kind == 0) { LocalFileReader r(f); check(r.getFilePath() == f, "path"); drive(r, nullptr, s, {1, 2, 3, 9}, 8, ctx); check(r.close() == 0 || true, "close"); }
  else if (kind == 1) { FileReader r(f); check(r.getFilePath() == f, "path"); drive(r, nullptr, s, {1, 2, 3, 9}, 8, ctx); }
  else { BufferedReader b(std::make_unique<FileReader>(f), 2); drive(b, &b, s, {1, 3}, 8, ctx); }
  unlink(f.c_str());
  bool thrown = false;
  try { FileReader r("c18-no-such-file"); } catch (const std::exception&) { thrown = true; }
  check(thrown, "missing file is reported");
  state(hashStr(ctx));
}
// contents around the default chunk size
static void localBig() {
  static const int deltas[] = {-2, -1, 0, 1, 2};
  int n = 4096 * (1 + choose(2, "chunks")) + deltas[choose(5, "delta")], shape = choose(4, "shape");
  std::string s;
  for (int i = 0; i < n; i++) s += shape == 0 ? 'x' : shape == 1 ? (i % 2 ? '\n' : 'y') : shape == 2 ? (i % 4096 >= 4094 ? '\n' : (char)('a' + i % 26)) : (i + 1 == n ? '\n' : 'z');
  auto f = file("big");
  put(f, s);
  note(str(n) + " bytes shape " + str(shape));
  auto b = std::make_unique<BufferedReader>(std::make_unique<FileReader>(f));
  std::vector<std::string> got;
  while (!b->eof()) { got.push_back(b->readLine()); evals(); }
  check(got == linesOf(s), "lines of a long file");
  auto text = FileIOWrappers::readFile(f), want = s;
  if (!want.empty() && want.back() != '\n') want += '\n';
  check(text == want, "whole long file");
  unlink(f.c_str());
  state(mix(n, shape));
}
static void wrappers(int maxLen, int letters) {
  auto s = content(maxLen, letters);
  auto f = file("w"), g = file("w2");
  put(f, s);
  note(show(s));
  auto want = s;
  if (!want.empty() && want.back() != '\n') want += '\n';  // the helpers are line based
  auto got = FileIOWrappers::readFile(f);
  check(got == want, "read a file", [&] { return show(s) + " got " + show(got); });
  FileIOWrappers::transferFileInParts(f, g);
  check(get(g) == want, "transfer a file", [&] { return show(s) + " got " + show(get(g)); });
  FileIOWrappers::writeFile(g, s);
  check(get(g) == s, "write a file", [&] { return show(s) + " got " + show(get(g)); });
  unlink(f.c_str());
  unlink(g.c_str());
  evals(3); step(3);
  state(hashStr(s));
}
static std::string trim(std::string s) {
  size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) a++;
  while (b > a && isspace((unsigned char)s[b - 1])) b--;
  return s.substr(a, b - a);
}
static std::vector<std::string> cells(const std::string& line) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : trim(line) + ",") if (c == ',') { r.push_back(trim(cur)); cur.clear(); } else cur += c;
  return r;
}
static void csv() {
  static const char letters[] = {'a', ',', ' ', '\n', '\r'};
  int n = choose(thorough ? 8 : 7, "length");
  std::string s;
  for (int i = 0; i < n; i++) s += letters[choose(5, "byte")];
  auto f = file("csv");
  put(f, s);
  note(show(s));
  std::vector<std::vector<std::string>> header, rows, heads;
  bool thrown = false;
  try {
    FileIOWrappers::readCsv(f, [&](const std::vector<std::string>& h, const std::vector<std::string>& p) { heads.push_back(h); rows.push_back(p); },
                            [&](const std::vector<std::string>& h) { header.push_back(h); });
  } catch (const std::exception&) { thrown = true; }
  auto ls = linesOf(s);
  check(thrown == ls.empty(), "empty table");
  if (!ls.empty()) {
    check(header.size() == 1 && header[0] == cells(ls[0]), "header cells", [&] { return show(s); });
    check(rows.size() == ls.size() - 1, "number of rows", [&] { return show(s); });
    for (size_t i = 0; i < rows.size() && i + 1 < ls.size(); i++) {
      check(heads[i] == header[0], "header given with each row");
      check(rows[i] == cells(ls[i + 1]), "row cells", [&] { return show(s) + " row " + str(i); });
    }
  }
  unlink(f.c_str());
  evals(rows.size() + 1); step();
  state(hashStr(s));
}
// cloud objects: real readers over an object store with range reads; a failing request is reported and can be repeated
static void cloud() {
  auto s = content(thorough ? 5 : 4, thorough ? 3 : 2);
  int provider = choose(2, "provider"), wrap = choose(3, "reader");
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  cloudfake::reset();
  auto& st = *cloudfake::store();
  st.objects["bkt/dir/key"] = s;
  std::string path = provider == 0 ? "https://bkt.s3.us-west-2.amazonaws.com/dir/key" : "https://storage.googleapis.com/bkt/dir/key";
  auto ctx = show(s) + " provider " + str(provider) + " reader " + str(wrap);
  note(ctx);
  bool faulty = false;
  st.fault = [&](const std::string& op) { if (op == "GetObject" || op == "ReadObject") { int f = choose(2, "request fails", 1); if (f) faulty = true; return f; } return 0; };
  std::unique_ptr<IReaderCloser> r;
  BufferedReader* lines = nullptr;
  if (wrap == 0) r = std::make_unique<CloudFileReader>(path);
  else if (wrap == 1) r = std::make_unique<FileReader>(path);
  else { auto b = std::make_unique<BufferedReader>(std::make_unique<FileReader>(path), 2); lines = b.get(); r = std::move(b); }
  size_t at = 0;
  for (int op = 0; op < 12; op++) {
    evals(); step();
    bool end = r->eof();
    check(end == (at == s.size()), "end of data reported", [&] { return ctx + " at " + str(at); });
    if (end) break;
    int k = choose(lines ? 3 : 2, "operation");
    faulty = false;
    try {
      if (k == 2) {
        auto e = s.find('\n', at);
        auto want = s.substr(at, e == std::string::npos ? std::string::npos : e - at);
        auto got = lines->readLine();
        check(!faulty, "failed request swallowed");
        check(got == want, "line", [&] { return ctx + " got " + show(got); });
        at = e == std::string::npos ? s.size() : e + 1;
      } else {
        std::vector<char> b(k ? 3 : 1, 'Z');
        size_t n = r->read(b);
        check(!faulty, "failed request swallowed");
        check(n <= b.size() && n > 0 && std::string(b.begin(), b.begin() + n) == s.substr(at, n), "data read", [&] { return ctx + " at " + str(at) + " got " + str(n); });
        at += n;
      }
    } catch (const std::exception&) {
      check(faulty, "read failed without a cause", [&] { return ctx; });
      if (lines) return;  // what a buffered reader had taken before the failure is not specified
    }
  }
  check(r->close() == 0, "close");
  state(hashStr(ctx + str(at)));
}
static void cloudMissing() {
  int provider = choose(3, "provider"), what = choose(2, "missing or failing");
  setenv("AWS_DEFAULT_REGION", "us-east-1", 1);
  cloudfake::reset();
  auto& st = *cloudfake::store();
  if (what) { st.objects["bkt/key"] = "abc"; st.fault = [&](const std::string&) { return 1; }; }
  static const char* paths[] = {"https://bkt.s3.us-west-2.amazonaws.com/key", "https://storage.cloud.google.com/bkt/key", "https://elsewhere.example/bkt/key"};
  bool thrown = false;
  try { FileReader r(paths[provider]); } catch (const std::exception&) { thrown = true; }
  evals(); step();
  check(thrown, "opening an object that cannot be reached is reported", [&] { return paths[provider]; });
  state(provider * 2 + what);
}

int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C18", {
    {"mixed reads, full chunks", [] { scripted(thorough ? 5 : 4, 2, 0); }},
    {"mixed reads, any split", [] { scripted(thorough ? 4 : 3, 2, 1); }},
    {"mixed reads, single bytes", [] { scripted(thorough ? 5 : 4, 3, 2); }},
    {"lines, any split", [] { linesOnly(thorough ? 8 : 6); }},
    {"failing source", failing},
    {"local files", local},
    {"local files around the chunk size", localBig},
    {"file helpers", [] { wrappers(5, thorough ? 4 : 3); }},
    {"csv", csv},
    {"cloud objects", cloud, 1, 2},
    {"cloud objects that cannot be reached", cloudMissing},
  });
}
