// C26: union maps to intersections, and the exchange of encrypted rows.
#include <unistd.h>
#include <algorithm>
#include <numeric>
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "mc/front.h"
using namespace mc;
namespace ad = fbpcf::mpc_std_lib::unified_data_process::adapter; namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using Row = std::vector<unsigned char>; using Rows = std::vector<Row>; using Ints = std::vector<int32_t>; using Idx = std::vector<uint64_t>;
static std::string show(const Rows& r) { std::string s; for (auto& x : r) { s += s.empty() ? "" : " "; for (auto c : x) { s += "0123456789abcdef"[c >> 4]; s += "0123456789abcdef"[c & 15]; } } return "{" + s + "}"; }
static Ints perm(int n, const char* what) { Ints p(n), r; std::iota(p.begin(), p.end(), 0); for (int k = n; k > 0; k--) { int i = choose(k, what); r.push_back(p[i]); p.erase(p.begin() + i); } return r; }
// ---- adapter
struct Join { Backend b; int shuffler, swap, times; Ints map[2]; std::string nm; };
template <int P> static std::unique_ptr<ad::IAdapter> adapter(int shuffler, bool first) {
  if (shuffler == 0) return ad::getAdapterFactoryWithAsWaksmanBasedShuffler<P>(first, P, 1 - P)->create();
  if (shuffler == 1) return ad::getAdapterFactoryWithInsecureShuffler<P>(first, P, 1 - P)->create();
  return ad::getAdapterFactoryWithNonShuffler<P>(first, P, 1 - P)->create();
}
static void join(const Join& c) {
  note(c.nm); std::vector<Ints> out[2];
  auto one = [&](auto tag) { constexpr int P = decltype(tag)::value; auto a = adapter<P>(c.shuffler, P == c.swap); for (int t = 0; t < c.times; t++) out[P].push_back(a->adapt(c.map[P])); };
  runBoth({c.b, false}, [&] { one(std::integral_constant<int, 0>()); }, [&] { one(std::integral_constant<int, 1>()); });
  std::vector<std::pair<int, int>> want; for (size_t u = 0; u < c.map[0].size(); u++) if (c.map[0][u] >= 0 && c.map[1][u] >= 0) want.push_back({c.map[0][u], c.map[1][u]});
  auto sorted = want; std::sort(sorted.begin(), sorted.end());
  for (int t = 0; t < c.times; t++) {
    auto &a = out[0].at(t), &b = out[1].at(t); evals(); state(mix(hashStr(c.nm), hashStr(vec(a) + vec(b))));
    check(a.size() == want.size() && b.size() == want.size(), "number of common ids", [&] { return c.nm + ": " + vec(a) + vec(b); });
    if (a.size() != want.size() || b.size() != want.size()) continue;
    std::vector<std::pair<int, int>> got; for (size_t i = 0; i < a.size(); i++) got.push_back({b[i], a[i]});
    if (c.shuffler == 2) check(got == want, "order of common ids without shuffling", [&] { return c.nm + ": " + vec(a) + vec(b); });
    std::sort(got.begin(), got.end());
    check(got == sorted, "row indexes of common ids", [&] { return c.nm + ": " + vec(a) + vec(b); });
  }
}
static void adapters() {
  int n = 1 + choose(mc::thorough ? 4 : 3, "union"), sh = choose(3, "shuffler"); Join c{choose(2, "backend") ? EAGER : LAZY, sh, choose(2, "first party"), 1, {}, ""};
  std::vector<int> has; int cnt[2] = {0, 0};
  for (int i = 0; i < n; i++) { int k = choose(3, "membership"); has.push_back(k); cnt[0] += k != 2; cnt[1] += k != 1; }
  for (int p = 0; p < 2; p++) { auto q = p ? perm(cnt[1], "rows") : Ints(); if (!p) { if (n <= 2) q = perm(cnt[0], "rows"); else { q.resize(cnt[0]); std::iota(q.begin(), q.end(), 0); if (choose(2, "reversed")) std::reverse(q.begin(), q.end()); } } int j = 0; for (int i = 0; i < n; i++) c.map[p].push_back(has[i] == (p ? 1 : 2) ? -1 : q[j++]); }
  if (n <= 2) c.times += choose(2, "twice");
  c.nm = "adapter backend " + str(c.b) + " shuffler " + str(sh) + " first " + str(c.swap) + " maps " + vec(c.map[0]) + vec(c.map[1]);
  join(c);
}
static void largeAdapters() {
  int sizes[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 33}; int n = sizes[choose(mc::thorough ? 10 : 8, "union")], fam = choose(4, "membership"), ord = choose(3, "rows");
  Join c{choose(2, "backend") ? EAGER : LAZY, choose(3, "shuffler"), choose(2, "first party"), 1, {}, ""};
  for (int p = 0; p < 2; p++) {
    std::vector<int> m; for (int i = 0; i < n; i++) m.push_back(fam == 0 ? 1 : fam == 1 ? (i % 2 == p) : fam == 2 ? (i % 3 != p) : (i == n - 1 || i % 2 == p));
    int k = std::count(m.begin(), m.end(), 1), j = 0; for (int i = 0; i < n; i++) { int v = ord == 0 ? j : ord == 1 ? k - 1 - j : (p ? n - 1 - j : (j + 1) % k); c.map[p].push_back(m[i] ? (j++, v) : -1); }
  }
  c.nm = "adapter backend " + str(c.b) + " shuffler " + str(c.shuffler) + " first " + str(c.swap) + " maps " + vec(c.map[0]) + vec(c.map[1]);
  join(c);
}
static void badMaps() {
  int n = choose(4, "union"); Ints m; for (int i = 0; i < n; i++) m.push_back((Ints{-2147483647 - 1, -2, -1, 0, 1, 2, 3, 4, 2147483647})[choose(9, "value")]);
  bool bad = n == 0; std::vector<int> seen(16); for (int v : m) if (v != -1) { if (v < 0 || v >= n || seen[v]++) bad = true; }
  assume(bad); note("bad map " + vec(m)); bool threw = false;
  try { adapter<0>(2, true)->adapt(m); } catch (const std::exception&) { threw = true; }
  evals(); state(hashStr(vec(m))); check(threw, "union map with impossible rows accepted", [&] { return vec(m); });
}
// ---- rows
static Rows rows(int n, int w, int s) { Rows r; for (int i = 0; i < n; i++) { Row x; for (int j = 0; j < w; j++) x.push_back((unsigned char)(s == 0 ? i * 89 + j * 7 + 1 : s == 1 ? (j == w - 1 ? 0x80 + i : j == 0 ? 1 : 0) : 255 - i)); r.push_back(x); } return r; }
template <class S> static Rows open(const S& s, int to, size_t n, int me) {
  auto v = s.openToParty(to).getValue(); Rows r(n, Row(v.size() / 8)); if (me != to) return {};
  for (size_t i = 0; i < v.size(); i++) { check(v[i].size() == n, "number of delivered rows", [&] { return str(v[i].size()); }); for (size_t k = 0; k < n && k < v[i].size(); k++) r[k][i / 8] |= v[i][k] << i % 8; }
  return r;
}
static void same(const Rows& got, const Rows& all, const Idx& idx, const std::string& nm, const char* what) {
  Rows want; for (auto i : idx) want.push_back(all.at(i));
  evals(); state(mix(hashStr(nm), hashStr(show(got)))); check(got == want, what, [&] { return nm + ": " + show(got) + " want " + show(want); });
}
static Idx pick(int n) {  // an ordered selection of distinct rows, not empty
  Idx left(n), r; std::iota(left.begin(), left.end(), 0);
  do { int i = choose((int)left.size() + (r.empty() ? 0 : 1), "row"); if (i == (int)left.size()) break; r.push_back(left[i]); left.erase(left.begin() + i); } while (!left.empty());
  return r;
}
template <int P> static std::unique_ptr<dp::IDataProcessor<P>> processor(bool dummy, Factory& f) {
  if (dummy) return dp::insecure::DummyDataProcessorFactory<P>(P, 1 - P, f).create();
  return dp::getDataProcessorFactoryWithAesCtr<P>(P, 1 - P, f)->create();
}
struct Exchange { Backend b; bool dummy; int owner, to; Rows data[2]; Idx idx[2]; int rounds; std::string nm; };
static void exchange(const Exchange& c) {
  note(c.nm); auto w = std::make_shared<World>();
  auto one = [&](auto tag) {
    constexpr int P = decltype(tag)::value; Factory f(w, P); auto d = processor<P>(c.dummy, f);
    for (int r = 0; r < c.rounds; r++) {
      int owner = r % 2 ? 1 - c.owner : c.owner; const auto& rows = c.data[r % 2]; const auto& idx = c.idx[r % 2];
      auto s = P == owner ? d->processMyData(rows, idx.size()) : d->processPeersData(rows.size(), idx, rows[0].size());
      int to = r % 2 ? 1 - c.to : c.to; auto got = open(s, to, idx.size(), P);
      if (P == to) same(got, rows, idx, c.nm + " round " + str(r), c.dummy ? "rows delivered by the placeholder" : "rows delivered");
    }
  };
  runBoth({c.b, false}, [&] { one(std::integral_constant<int, 0>()); }, [&] { one(std::integral_constant<int, 1>()); });
  check(w->drained(), "bytes left unread in the exchange");
}
static std::string idxStr(const Idx& i) { return vec(i); }
static void widths() {
  int ws[] = {1, 2, 15, 16, 17, 31, 32, 33, 8, 48, 64}; Exchange c{choose(2, "backend") ? EAGER : LAZY, choose(2, "processor") == 1, choose(2, "owner"), choose(2, "opened to"), {}, {}, 1, ""};
  int w = ws[choose(mc::thorough ? 11 : 8, "width")]; c.data[0] = rows(3, w, choose(2, "content")); c.idx[0] = (Idx[]){{0}, {2, 0}, {1, 2, 0}}[choose(3, "indexes")];
  c.nm = "backend " + str(c.b) + " dummy " + str(c.dummy) + " owner " + str(c.owner) + " to " + str(c.to) + " width " + str(w) + " rows " + idxStr(c.idx[0]); exchange(c);
}
static void selections() {
  int n = 1 + choose(mc::thorough ? 4 : 3, "rows"); Exchange c{LAZY, choose(2, "processor") == 1, choose(2, "owner"), 0, {}, {}, 1, ""};
  if (choose(2, "backend")) c.b = EAGER;
  c.data[0] = rows(n, 3, 0); c.idx[0] = pick(n); c.to = 1 - c.owner;
  c.nm = "backend " + str(c.b) + " dummy " + str(c.dummy) + " owner " + str(c.owner) + " of " + str(n) + " rows " + idxStr(c.idx[0]); exchange(c);
}
static void bothWays() {  // both parties' rows, several times, with one processor each
  Exchange c{choose(2, "backend") ? EAGER : LAZY, choose(2, "processor") == 1, choose(2, "owner"), choose(2, "opened to"), {}, {}, 2 + choose(3, "rounds"), ""};
  c.data[0] = rows(2 + choose(2, "rows"), 17, 0); c.data[1] = rows(4, 5 + 11 * choose(2, "width"), 2); c.idx[0] = {1, 0}; c.idx[1] = {3, 1, 2};
  c.nm = "both ways, backend " + str(c.b) + " dummy " + str(c.dummy) + " owner " + str(c.owner) + " to " + str(c.to) + " rounds " + str(c.rounds) + " widths " + str(c.data[1][0].size()) + " rows " + str(c.data[0].size()); exchange(c);
}
// ---- the two phases on their own: batches of rows with any indexes, results split in shards
struct Batches { Backend b; int owner, to, w, shards; std::vector<Idx> in; Idx want; std::string nm; };
static void batches(const Batches& c) {
  note(c.nm); auto w = std::make_shared<World>(); Rows all; std::map<uint64_t, Row> byIndex; std::vector<Rows> parts; int k = 0;
  for (auto& b : c.in) { Rows r; for (auto i : b) { Row x; for (int j = 0; j < c.w; j++) x.push_back((unsigned char)(k * 61 + j * 3 + 5)); k++; byIndex[i] = x; r.push_back(x); } parts.push_back(r); }
  auto one = [&](auto tag) {
    constexpr int P = decltype(tag)::value; Factory f(w, P); dp::UdpEncryption e(f.create(1 - P, "")); dp::UdpDecryption<P> d(P, 1 - P);
    std::vector<typename dp::UdpDecryption<P>::SecString> got; std::vector<size_t> sizes;
    for (int s = 0; s < c.shards; s++) sizes.push_back(dp::getShardSize(c.want.size(), s, c.shards));
    if (P == c.owner) {
      e.prepareToProcessMyData(c.w); for (size_t i = 0; i < parts.size(); i++) e.processMyData(parts[i], c.in[i]);
      auto key = e.getExpandedKey(); for (auto s : sizes) if (s) got.push_back(d.decryptMyData(key, c.w, s));
    } else {
      e.prepareToProcessPeerData(c.w, c.want); for (auto& p : parts) e.processPeerData(p.size());
      auto r = e.getProcessedData();
      evals(); check(r.indexes == c.want && r.ciphertexts.size() == c.want.size() && r.nonces.size() == c.want.size(), "indexes of the selected rows", [&] { return c.nm + ": " + idxStr(r.indexes); });
      for (auto& s : dp::splitEncryptionResults(r, c.shards)) if (!s.ciphertexts.empty()) got.push_back(d.decryptPeerData(s.ciphertexts, s.nonces, s.indexes));
    }
    size_t at = 0, g = 0;
    for (auto s : sizes) if (s) {
      auto r = open(got.at(g++), c.to, s, P); Rows want; for (size_t i = 0; i < s; i++) want.push_back(byIndex.at(c.want[at + i])); at += s;
      if (P == c.to) { evals(); state(mix(hashStr(c.nm), hashStr(show(r)))); check(r == want, "rows delivered from batches", [&] { return c.nm + ": " + show(r) + " want " + show(want); }); }
    }
  };
  runBoth({c.b, false}, [&] { one(std::integral_constant<int, 0>()); }, [&] { one(std::integral_constant<int, 1>()); });
  check(w->drained(), "bytes left unread in the exchange");
}
static void split(std::vector<Idx>& in, const Idx& idx, const char* what) { in.push_back({}); for (auto i : idx) { if (!in.back().empty() && choose(2, what)) in.push_back({}); in.back().push_back(i); } }
static void batched() {
  Batches c{choose(2, "backend") ? EAGER : LAZY, 0, 0, (int[]){1, 16, 17}[choose(3, "width")], 1 + choose(3, "shards"), {}, {}, ""}; c.owner = mc::thorough ? choose(2, "owner") : c.shards & 1;
  Idx idx = (Idx[]){{0, 1, 2}, {2, 0, 1}, {5, 9, 3}, {100, 1, 7}}[choose(4, "indexes")]; split(c.in, idx, "batches");
  int k = choose(4, "wanted"); c.want = k == 0 ? Idx{idx[0]} : k == 1 ? Idx{idx[2], idx[0]} : k == 2 ? Idx{idx[1], idx[2], idx[0]} : idx; c.to = 1 - c.owner;
  std::string s; for (auto& b : c.in) s += idxStr(b);
  c.nm = "batches " + s + " width " + str(c.w) + " want " + idxStr(c.want) + " shards " + str(c.shards) + " owner " + str(c.owner) + " backend " + str(c.b); batches(c);
}
static void hugeIndexes() {  // indexes are 64 bits wide
  uint64_t v[] = {0, 5, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 0x8000000000000000ull, ~0ull};
  Batches c{EAGER, 0, 1, (int[]){1, 33}[choose(2, "width")], 1, {}, {}, ""}; int a = choose(9, "first"), b = choose(9, "second"); assume(a != b);
  split(c.in, {v[a], v[b]}, "batches"); int k = choose(4, "wanted"); c.want = k == 0 ? Idx{v[a]} : k == 1 ? Idx{v[b]} : k == 2 ? Idx{v[a], v[b]} : Idx{v[b], v[a]};
  c.nm = "indexes " + idxStr({v[a], v[b]}) + " in " + str(c.in.size()) + " batches, width " + str(c.w) + " want " + idxStr(c.want); batches(c);
}
// ---- numbering rows from an offset is numbering them explicitly
static void offsets() {
  uint64_t off = (uint64_t[]){0, 1, 2, 7, 1000, 0x100000000ull}[choose(6, "offset")]; int n = 1 + choose(3, "rows"), w = (int[]){1, 16, 20}[choose(3, "width")]; auto data = rows(n, w, 0);
  std::string nm = "offset " + str(off) + " rows " + str(n) + " width " + str(w); note(nm);
  __m128i key = _mm_set_epi64x(0x0123456789abcdef, 0xfedcba9876543210); auto [ct, nonce] = dp::UdpUtil::localEncryption(data, key, off);
  Idx idx(n); std::iota(idx.begin(), idx.end(), off); auto k = fbpcf::engine::util::Aes::expandEncryptionKey(key); Rows got;
  Rows cipher(ct.begin(), ct.end()); std::vector<__m128i> nonces(n, _mm_loadu_si128((const __m128i*)nonce.data()));
  auto one = [&](auto tag) { constexpr int P = decltype(tag)::value; dp::UdpDecryption<P> d(P, 1 - P); auto r = open(P == 0 ? d.decryptMyData(std::vector<__m128i>(k.begin(), k.end()), w, n) : d.decryptPeerData(cipher, nonces, idx), 1, n, P); if (P == 1) got = r; };
  runBoth({EAGER, false}, [&] { one(std::integral_constant<int, 0>()); }, [&] { one(std::integral_constant<int, 1>()); });
  evals(); state(mix(hashStr(nm), hashStr(show(got)))); check(got == data, "rows numbered from an offset", [&] { return nm + ": " + show(got) + " want " + show(data); });
  bool threw = false; try { dp::UdpUtil::localEncryption(data, key, Idx(n + 1)); } catch (const std::invalid_argument&) { threw = true; } check(threw, "indexes of another length accepted");
}
// ---- order of calls
static void calls() {
  int depth = 2 + choose(mc::thorough ? 4 : 3, "depth"); bool mine = choose(2, "side"); auto w = std::make_shared<World>(); Factory f(w, 0), g(w, 1); std::string log = mine ? "mine:" : "peer:";
  parties(1, [&](int) {
    dp::UdpEncryption e(f.create(1, "")), other(g.create(0, "")); bool on = false; Rows data = rows(2, 3, 0); int batch = 0;
    for (int i = 0; i < depth; i++) {
      int op = choose(mine ? 4 : 3, "call"); log += " " + str(op); bool threw = false, want = op == 0 ? on : !on;
      if (op == 1 && !mine && on) { other.prepareToProcessMyData(3); other.processMyData(data, {(uint64_t)(2 * batch), (uint64_t)(2 * batch + 1)}); other.getExpandedKey(); }
      try {
        if (op == 0) { if (mine) e.prepareToProcessMyData(3); else e.prepareToProcessPeerData(3, {1, 0}); }
        if (op == 1) { if (mine) e.processMyData(data, {0, 1}); else e.processPeerData(2); }
        if (op == 2) { if (mine) check(e.getExpandedKey().size() == 11, "length of the expanded key"); else { auto r = e.getProcessedData(); if (batch) check(r.indexes == Idx({1, 0}) && r.ciphertexts.size() == 2, "rows of a session", [&] { return log; }); } }
        if (op == 3) { e.processMyData(rows(2, 4, 0), {0, 1}); }
      } catch (const std::exception&) { threw = true; }
      if (op == 3) want = true;
      check(threw == want, "calls in a wrong order", [&] { return log + " threw " + str(threw); }); evals(); state(hashStr(log + str(threw)));
      if (op == 0) { if (!on) batch = 0; on = true; } else if (op == 1 && on) batch++; else if (op == 2) { if (on && !mine && !batch) assume(false); on = false; }  // a session that ends before its rows came is outside the contract
    }
  });
}
// ---- files and shards
static void files() {
  std::string dir = "./c26." + str(getpid()); int n = choose(5, "rows"), w = (int[]){1, 3, 17}[choose(3, "width")], fam = choose(3, "content");
  dp::IUdpEncryption::EncryptionResults r; r.ciphertexts = rows(n, w, fam);
  for (int i = 0; i < n; i++) { r.nonces.push_back(_mm_set_epi64x((fam == 1 ? ~0ull : 0x8081828384858687ull) - i, fam == 2 ? 0 : 0x0f0e0d0c0b0a0908ull + i)); r.indexes.push_back(fam == 1 ? ~0ull - i : i * 3); }
  auto blocks = [](const std::vector<__m128i>& v) { std::string s((const char*)v.data(), v.size() * 16); return s; };
  note("file rows " + str(n) + " width " + str(w) + " content " + str(fam));
  dp::writeEncryptionResultsToFile(r, dir); auto q = dp::readEncryptionResultsFromFile(dir); unlink(dir.c_str());
  evals(); state(mix(mix(n, w), fam)); check(q.ciphertexts == r.ciphertexts && q.indexes == r.indexes && blocks(q.nonces) == blocks(r.nonces), "encrypted rows written and read back");
  std::vector<__m128i> key; for (int i = 0; i < (n ? 11 : 0); i++) key.push_back(_mm_set_epi64x(0x1122334455667788ull * (i + 1), 0x99aabbccddeeff00ull ^ i));
  dp::writeExpandedKeyToFile(key, dir); auto back = dp::readExpandedKeyFromFile(dir); unlink(dir.c_str()); check(blocks(back) == blocks(key), "key written and read back");
  for (int k = 1; k <= 6; k++) {
    auto parts = dp::splitEncryptionResults(r, k); check((int)parts.size() == k, "number of shards"); Rows c; Idx i; std::vector<__m128i> nn; size_t lo = n, hi = 0;
    for (auto& p : parts) { check(p.ciphertexts.size() == p.indexes.size() && p.nonces.size() == p.indexes.size(), "shards hold whole rows"); c.insert(c.end(), p.ciphertexts.begin(), p.ciphertexts.end()); i.insert(i.end(), p.indexes.begin(), p.indexes.end()); nn.insert(nn.end(), p.nonces.begin(), p.nonces.end()); lo = std::min(lo, p.indexes.size()); hi = std::max(hi, p.indexes.size()); }
    evals(); check(c == r.ciphertexts && i == r.indexes && blocks(nn) == blocks(r.nonces), "shards joined give the rows", [&] { return str(n) + " rows in " + str(k); });
    check(hi - std::min(lo, hi) <= 1, "sizes of shards", [&] { return str(n) + " rows in " + str(k); });
    size_t sum = 0; for (int s = 0; s < k; s++) { auto z = dp::getShardSize(n, s, k); check(z == parts[s].indexes.size(), "announced size of a shard"); sum += z; } check(sum == (size_t)n, "announced sizes of all shards");
  }
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C26", {
#if PART == 0
    {"adapters", adapters, 0, -1, false, 0, 6}, {"large adapters", largeAdapters, 0, -1, false, 0, 5}, {"bad maps", badMaps},
#else
    {"widths", widths, 0, -1, false, 0, 6}, {"selections", selections, 0, -1, false, 0, 6}, {"both ways", bothWays, 0, -1, false, 0, 6}, {"batches", batched, 0, -1, false, 0, 6},
    {"64-bit indexes", hugeIndexes}, {"offsets", offsets}, {"order of calls", calls}, {"files", files},
#endif
  });
}
