"""Planted bugs: edits against the repository's files, and a demonstration."""
ENG = ["fbpcf/engine/*.cpp", "fbpcf/engine/communication/InMemory*.cpp", "fbpcf/engine/communication/SecretShare*.cpp", "fbpcf/engine/tuple_generator/*.cpp",
       "fbpcf/engine/tuple_generator/oblivious_transfer/*.cpp", "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/*.cpp", "fbpcf/engine/util/*.cpp"]
SCH = ["fbpcf/scheduler/*.cpp", "fbpcf/scheduler/gate_keeper/*.cpp"]
ML = ["fbpcf/mpc_std_lib/*/*.cpp"]
SEEDS = {}

SEEDS["c01-composite-level"] = dict(property="C01", sources=ENG + SCH,
  edits=[("fbpcf/scheduler/gate_keeper/GateKeeper.cpp", """          getMaxLevel<true>(rights)));
  auto expectedBatchSize = wireKeeper_->getBatchSize(left);
  for""", """          getMaxLevel<true, IScheduler::Boolean>(rights.front())));
  auto expectedBatchSize = wireKeeper_->getBatchSize(left);
  for""")],
  needs="a batched one-to-many AND on the lazy backend whose first right operand is ready earlier than a later one, with nothing evaluated in between",
  breaks="the gate is levelled by its first right operand only, so it may run before a later operand has a value",
  demo=r'''
#include "two.h"
#include "fbpcf/frontend/Bit.h"
int main() {
  twoParties(true, [](auto P, auto&) {
    constexpr int p = decltype(P)::value; using B = fbpcf::frontend::Bit<true, p, true>;
    std::vector<bool> v{0, 0, 1, 1}, w{0, 1, 0, 1}, one{1, 1, 1, 1};
    B l(one, 0), a(v, 0), b(w, 1);
    auto r = l & std::vector<B>{a, a & b};
    auto x = r.at(0).openToParty(0).getValue(), y = r.at(1).openToParty(0).getValue();
    if (p == 0) { expect(x == v, "first product"); expect(y == std::vector<bool>{0, 0, 0, 1}, "second product"); }
  });
}
''')

SEEDS["c06-arena-wide"] = dict(property="C06", sources=[],
  edits=[("fbpcf/scheduler/VectorArenaAllocator.h", "    auto allocatedSize = blocks_.size();", "    uint16_t allocatedSize = blocks_.size();")],
  needs="more than 65536 values alive at once in the arena allocator",
  breaks="ids handed out after 64 chunks repeat ids that are still alive",
  demo=r'''
#include <cstdio>
#include <stdexcept>
#include <string>
#include <optional>
#include <vector>
#include "fbpcf/scheduler/VectorArenaAllocator.h"
template <bool u> int go() {
  fbpcf::scheduler::VectorArenaAllocator<uint64_t, u> a; std::vector<uint64_t> ids;
  for (uint64_t i = 0; i < 70000; i++) { uint64_t v = i * 3; ids.push_back(a.allocate(std::move(v))); }
  for (uint64_t i = 0; i < 70000; i++) if (a.get(ids[i]) != i * 3) { printf("value %lu lost\n", (unsigned long)i); return 1; }
  return 0;
}
int main() { return go<true>() || go<false>(); }
''')

SEEDS["c24-index-reuse"] = dict(property="C24", libs="-lboost_serialization", sources=["fbpcf/mpc_std_lib/oram/encoder/*.cpp"],
  edits=[("fbpcf/mpc_std_lib/oram/encoder/OramEncoder.cpp", """      breakdownMapping_.emplace(breakdownKey, currentIndex_);
      rst.push_back(currentIndex_);
      currentIndex_++;""", """      const uint32_t nextIndex = breakdownMapping_.size();
      breakdownMapping_.emplace(breakdownKey, nextIndex);
      rst.push_back(nextIndex);
      currentIndex_ = std::max(currentIndex_, nextIndex + 1);""")],
  needs="a filtered row before a new tuple",
  breaks="rows that pass the filters share the id reserved for filtered rows",
  demo=r'''
#include <cstdio>
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
using namespace fbpcf::mpc_std_lib::oram;
int main() {
  auto f = std::make_unique<std::vector<std::unique_ptr<IFilter>>>(); f->push_back(std::make_unique<SingleValueFilter>(IFilter::GT, 0, 5));
  OramEncoder e(std::move(f)); auto r = e.generateORAMIndexes({{9, 1}, {2, 1}, {9, 2}, {3, 1}, {9, 1}});
  if (!(r[1] == r[3] && r[0] == r[4] && r[0] != r[1] && r[0] != r[2] && r[1] != r[2])) { for (auto x : r) printf("%u ", x); return 1; }
  for (auto x : r) if (x >= e.getOramSize() || e.getOramSize() != 3) return 1;
  return 0;
}
''')

SEEDS["c17-bit-requests"] = dict(property="C17", sources=["fbpcf/engine/util/*.cpp"],
  edits=[("fbpcf/engine/util/AesPrg.cpp", "asyncBuffer_->getData(ceilDiv(size, 8))", "asyncBuffer_->getData(size / 8 + 1)")],
  needs="two requests in a row, the first one for a whole number of bytes of bits",
  breaks="a request for bits uses up a byte more than it returns, so the stream depends on how it is asked for",
  demo=r'''
#include <cstdio>
#include "fbpcf/engine/util/AesPrg.h"
int main() {
  auto seed = _mm_set_epi64x(12, 34); fbpcf::engine::util::AesPrg a(seed, 64), b(seed, 64);
  auto all = a.getRandomBits(32); auto x = b.getRandomBits(16), y = b.getRandomBits(16); x.insert(x.end(), y.begin(), y.end());
  if (x != all) { printf("two halves differ from the whole\n"); return 1; }
  return 0;
}
''')

SEEDS["c21-swap-edge"] = dict(property="C21", sources=ENG + SCH + ML,
  edits=[("fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.cpp", "dualIndexAfterPermute >= firstHalfSize_;", "dualIndexAfterPermute > firstHalfSize_;")],
  needs="a permutation that sends a paired element exactly to the first place of the second half",
  breaks="the switch in front of that place is set the wrong way, so two elements end up in each other's place",
  demo=r'''
#include "two.h"
#include <algorithm>
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
using namespace fbpcf::mpc_std_lib;
int main() {
  twoParties(false, [](auto P, auto&) {
    constexpr int p = decltype(P)::value;
    for (uint32_t n = 3; n <= 5; n++) {
      std::vector<uint32_t> order(n); for (uint32_t i = 0; i < n; i++) order[i] = i;
      do {
        std::vector<uint32_t> v; for (uint32_t i = 0; i < n; i++) v.push_back(100 + i);
        auto src = util::MpcAdapters<uint32_t, p>::processSecretInputs(v, 0);
        auto k = permuter::AsWaksmanPermuterFactory<uint32_t, p>(p, 1 - p).create();
        auto r = p == 0 ? k->permute(src, n, order) : k->permute(src, n);
        auto got = util::MpcAdapters<uint32_t, p>::openToParty(r, 0);
        if (p == 0) for (uint32_t i = 0; i < n; i++) expect(got[i] == v[order[i]], "permuted values");
      } while (std::next_permutation(order.begin(), order.end()));
    }
  });
}
''')

SEEDS["c18-three-chunks"] = dict(property="C18", sources=["fbpcf/io/api/BufferedReader.cpp"],
  edits=[("fbpcf/io/api/BufferedReader.cpp", "    remaining = buf.size() - filledUp;\n", "    remaining -= filledUp;\n")],
  needs="one read that spans more than two chunks of the buffer",
  breaks="the count of missing bytes goes wrong at the second refill, so the read runs past the end of its block",
  demo=r'''
#include <cstdio>
#include <cstdlib>
#include <string>
#include "fbpcf/io/api/BufferedReader.h"
struct Source : fbpcf::io::IReaderCloser {
  std::string s; size_t at = 0; explicit Source(std::string x) : s(x) {}
  int close() override { return 0; }
  size_t read(std::vector<char>& b) override { size_t n = std::min(b.size(), s.size() - at); std::copy(s.begin() + at, s.begin() + at + n, b.begin()); at += n; return n; }
  bool eof() override { return at == s.size(); }
};
int main() {
  const std::string text = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (size_t chunk = 1; chunk <= 12; chunk++)
    for (size_t n = 1; n <= 12; n++) {
      fbpcf::io::BufferedReader r(std::make_unique<Source>(text), chunk); std::string got;
      while (!r.eof()) {
        std::vector<char> b; b.reserve(256); b.resize(n); size_t k = r.read(b);
        if (k > n) { printf("chunk %zu: read of %zu gave %zu\n", chunk, n, k); fflush(stdout); _Exit(1); }
        got.append(b.begin(), b.begin() + k);
      }
      if (got != text) { printf("chunk %zu blocks of %zu: %s\n", chunk, n, got.c_str()); return 1; }
    }
  return 0;
}
''')

SEEDS["c19-direct-write"] = dict(property="C19", sources=["fbpcf/io/api/BufferedWriter.cpp"],
  edits=[("fbpcf/io/api/BufferedWriter.cpp", """    // flush appropriately sets the currentPosition_
    flush();
  }
""", """    flush();

    // whole chunks need not be copied into the buffer first
    size_t whole = remaining - remaining % buffer_.size();
    if (whole > 0) {
      std::vector<char> chunks(
          buf.begin() + written, buf.begin() + written + whole);
      baseWriter_->write(chunks);
      written += whole;
      remaining -= whole;
    }
  }
""")],
  needs="a single write larger than twice the buffer, of which exactly the transfer of the middle part fails",
  breaks="the failed transfer is not noticed: write and close succeed although bytes are missing",
  demo=r'''
#include <cstdio>
#include <string>
#include "fbpcf/io/api/BufferedWriter.h"
struct Sink : fbpcf::io::IWriterCloser {
  std::string& s; int failAt, calls = 0; Sink(std::string& x, int f) : s(x), failAt(f) {}
  int close() override { return 0; }
  size_t write(std::vector<char>& b) override { if (calls++ == failAt) return 0; s.append(b.begin(), b.end()); return b.size(); }
};
int main() {
  std::string text; for (int i = 0; i < 40; i++) text += char('A' + i);
  for (int failAt = -1; failAt < 12; failAt++)
    for (size_t chunk = 1; chunk <= 12; chunk++) {
      std::string got; bool told = false;
      { fbpcf::io::BufferedWriter w(std::make_unique<Sink>(got, failAt), chunk);
        try { if (w.writeString(text) != text.size()) told = true; } catch (std::exception&) { told = true; }
        try { if (w.close() != 0) told = true; } catch (std::exception&) { told = true; } }
      if (!told && got != text) { printf("chunk %zu, transfer %d fails unnoticed: %s\n", chunk, failAt, got.c_str()); return 1; }
    }
  return 0;
}
''')

SEEDS["c11-tuple-twice"] = dict(property="C11", sources=ENG,
  edits=[("fbpcf/engine/SecretShareEngine.cpp", """    compositeTupleSizeToIndex.emplace(compositeSize, 0);

    for (size_t j = 0; j < batchSize; j++) {
      tupleIndex = compositeTupleSizeToIndex[compositeSize]++;
""", """    for (size_t j = 0; j < batchSize; j++) {
      tupleIndex = batchTupleSizeToIndex[compositeSize]++;
"""), ("fbpcf/engine/SecretShareEngine.cpp", """  size_t tupleIndex = 0;
  for (size_t i = 0; i < ands.size(); i++) {
    secretsToOpen[tupleIndex * 2] =
        ands[i].getLeft()""", """  std::unordered_map<size_t, size_t> batchTupleSizeToIndex;

  size_t tupleIndex = 0;
  for (size_t i = 0; i < ands.size(); i++) {
    secretsToOpen[tupleIndex * 2] =
        ands[i].getLeft()"""), ("fbpcf/engine/SecretShareEngine.cpp", """    auto batchSize = batchCompositeAnds[i].getLeft().size();
    auto compositeSize = batchCompositeAnds[i].getRights().size();
    compositeTupleSizeToIndex.emplace(compositeSize, 0);
""", """    auto batchSize = batchCompositeAnds[i].getLeft().size();
    auto compositeSize = batchCompositeAnds[i].getRights().size();
"""), ("fbpcf/engine/SecretShareEngine.cpp", """      auto compositeTupleIndex = compositeTupleSizeToIndex[compositeSize]++;
      auto tuple = compositeTuples[compositeSize][compositeTupleIndex];
""", """      auto compositeTupleIndex = batchTupleSizeToIndex[compositeSize]++;
      auto tuple = compositeTuples[compositeSize][compositeTupleIndex];
"""), ("fbpcf/engine/SecretShareEngine.cpp", """  std::unordered_map<size_t, size_t> compositeTupleSizeToIndex =
      std::unordered_map<size_t, size_t>();

  size_t secretIndex = normalTupleIndex * 2;""", """  std::unordered_map<size_t, size_t> compositeTupleSizeToIndex =
      std::unordered_map<size_t, size_t>();
  std::unordered_map<size_t, size_t> batchTupleSizeToIndex;

  size_t secretIndex = normalTupleIndex * 2;""")],
  needs="a scalar and a batched one-to-many AND of the same width in one round of execution (two places count the tuples alike, so the results stay right)",
  breaks="both gates use the same multiplication tuple, so what is opened tells how the secret operands of the two gates differ",
  demo=r'''
#include <cstdio>
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/tuple_generator/NullArithmeticTupleGenerator.h"
#include "two.h"
using namespace fbpcf::engine; using tuple_generator::ITupleGenerator;
struct Tuples : ITupleGenerator {
  std::vector<BooleanTuple> getBooleanTuple(uint32_t n) override { return std::vector<BooleanTuple>(n, BooleanTuple(0, 0, 0)); }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& m) override {
    std::map<size_t, std::vector<CompositeBooleanTuple>> r;
    for (auto& [w, n] : m) for (uint32_t i = 0; i < n; i++) r[w].push_back(i == 0 ? CompositeBooleanTuple(1, std::vector<bool>(w, 1), std::vector<bool>(w, 1)) : CompositeBooleanTuple(0, std::vector<bool>(w, 0), std::vector<bool>(w, 0)));
    return r;
  }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(uint32_t n, const std::map<size_t, uint32_t>& m) override { return {getBooleanTuple(n), getCompositeTuple(m)}; }
  bool supportsCompositeTupleGeneration() override { return true; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
std::vector<bool> opened;
struct Agent : communication::ISecretShareEngineCommunicationAgent {
  std::map<int, __m128i> exchangeKeys(const std::map<int, __m128i>& k) override { return k; }
  std::vector<bool> openSecretsToAll(const std::vector<bool>& s) override { if (!s.empty()) opened = s; return s; }
  std::vector<uint64_t> openSecretsToAll(const std::vector<uint64_t>& s) override { return s; }
  std::vector<bool> openSecretsToParty(int, const std::vector<bool>& s) override { return s; }
  std::vector<uint64_t> openSecretsToParty(int, const std::vector<uint64_t>& s) override { return s; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
int main() {
  SecretShareEngine e(std::make_unique<Tuples>(), std::make_unique<tuple_generator::NullArithmeticTupleGenerator>(), std::make_unique<Agent>(), std::make_unique<util::AesPrgFactory>(), 0, 1);
  auto a = e.scheduleCompositeAND(0, {0, 0}); auto b = e.scheduleBatchCompositeAND({0}, {{0}, {0}}); (void)a; (void)b;
  e.executeScheduledOperations();
  // the first tuple is all ones, the second all zeros
  if (opened != std::vector<bool>{1, 1, 1, 0, 0, 0} && opened != std::vector<bool>{0, 0, 0, 1, 1, 1}) { printf("one tuple masks two gates\n"); return 1; }
  return 0;
}
''')

SEEDS["c12-shared-correlation"] = dict(property="C12", sources=ENG,
  edits=[("fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp", """  std::map<size_t, std::vector<ITupleGenerator::CompositeBooleanTuple>> tuples;
  for (auto& tupleSizeToCount""", """  std::map<size_t, std::vector<ITupleGenerator::CompositeBooleanTuple>> tuples;
  uint64_t maxCount = 0;
  for (auto& tupleSizeToCount : tupleSizes) {
    maxCount = std::max<uint64_t>(maxCount, tupleSizeToCount.second);
  }
  // fetch once for all sizes
  auto bufferedRcotResult = rcotBuffer_.getData(maxCount);
  for (auto& tupleSizeToCount"""), ("fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp", """    auto bufferedRcotResult = rcotBuffer_.getData(count);
""", "")],
  needs="one request for one-to-many tuples of two different widths",
  breaks="tuples of different widths are made from the same correlations, so their masks repeat",
  demo=r'''
#include "two.h"
#include <thread>
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include <random>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/util/util.h"
using namespace fbpcf::engine; using namespace fbpcf::engine::tuple_generator; using namespace fbpcf::engine::tuple_generator::oblivious_transfer;
struct Ot : IRandomCorrelatedObliviousTransfer {
  std::mt19937_64 g{7};
  std::vector<__m128i> rcot(int64_t n) override { std::vector<__m128i> r; for (int64_t i = 0; i < n; i++) r.push_back(_mm_set_epi64x(g(), g())); return r; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct OtF : IRandomCorrelatedObliviousTransferFactory {
  std::unique_ptr<IRandomCorrelatedObliviousTransfer> create(__m128i, std::unique_ptr<cm::IPartyCommunicationAgent>) override { return std::make_unique<Ot>(); }
  std::unique_ptr<IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<cm::IPartyCommunicationAgent>) override { return std::make_unique<Ot>(); }
};
int main() {
  auto fac = twoFactories(); std::shared_ptr<fbpcf::util::MetricCollector> m[2] = {std::make_shared<fbpcf::util::MetricCollector>("a"), std::make_shared<fbpcf::util::MetricCollector>("b")};
  std::map<size_t, std::vector<ITupleGenerator::CompositeBooleanTuple>> r[2];
  auto go = [&](int p) {
    auto o = std::make_unique<OtF>();
    TwoPartyTupleGeneratorFactory f(std::move(o), *fac[p], p, 1024, m[p]);
    r[p] = f.create()->getCompositeTuple({{40, 64}, {50, 64}});
  };
  std::thread t([&] { go(1); }); go(0); t.join();
  for (int p = 0; p < 2; p++) {
    int same = 0;
    for (int i = 0; i < 64; i++) { auto x = r[p][40][i].getB(), y = r[p][50][i].getB(); y.resize(40); same += x == y; }
    expect(same < 8, "tuples of two widths repeat each other");
  }
}
''')

SEEDS["c13-early-next"] = dict(property="C13", sources=[],
  edits=[("fbpcf/engine/util/AsyncBuffer.h", """        buffer_ = futureBuffer_.get();
        bufferIndex_ = 0;
        futureBuffer_ = generateData_(bufferSize_);
""", """        // start the next generation before waiting for the current one
        auto next = generateData_(bufferSize_);
        buffer_ = futureBuffer_.get();
        bufferIndex_ = 0;
        futureBuffer_ = std::move(next);
""")],
  needs="a request that reaches the end of the buffer while its generation is still running, and a schedule in which the next one overtakes it",
  breaks="two generations run at the same time, so their steps on shared state interleave and items come in the wrong order",
  demo=r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include "fbpcf/engine/util/AsyncBuffer.h"
int main() {
  std::atomic<int> running{0}, both{0}; int next = 0;
  fbpcf::engine::util::AsyncBuffer<int> b(4, [&](uint64_t n) {
    return std::async(std::launch::async, [&, n] {
      if (++running > 1) both++;
      std::vector<int> r; for (uint64_t i = 0; i < n; i++) { r.push_back(next); std::this_thread::sleep_for(std::chrono::milliseconds(5)); next++; }
      running--; return r;
    });
  });
  auto r = b.getData(20);
  if (both) { printf("two generations at the same time\n"); return 1; }
  for (int i = 0; i < 20; i++) if (r[i] != i) { printf("item %d is %d\n", i, r[i]); return 1; }
  return 0;
}
''')

SEEDS["c14-base-given-away"] = dict(property="C14", sources=ENG,
  edits=[("fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", """      rcotResults_.end() - baseRcotSize_, rcotResults_.end());

  rcotResults_.erase(rcotResults_.end() - baseRcotSize_, rcotResults_.end());

  otIndex_ = 0;
""", """      rcotResults_.begin(), rcotResults_.begin() + baseRcotSize_);

  otIndex_ = baseRcotSize_;
"""), ("fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", """    auto insertSize =
        std::min<int64_t>(size - index, rcotResults_.size() - otIndex_);
""", """    // whatever was skipped at the start of a buffer still has to be used up
    if (otIndex_ > 0 && index == 0 && size == 1) {
      --otIndex_;
    }
    auto insertSize =
        std::min<int64_t>(size - index, rcotResults_.size() - otIndex_);
""")],
  needs="a request for a single correlation",
  breaks="the correlation just handed out (or one kept as the base of the next extension) is handed out again",
  demo=r'''
#include "two.h"
#include <thread>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/IRcotExtender.h"
int main() { return 0; }
''')
del SEEDS["c14-base-given-away"]

SEEDS["c35-name-too-late"] = dict(property="C35", sources=["fbpcf/engine/communication/Socket*.cpp"],
  edits=[("fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp", """  // and verify the domain name
  auto params = SSL_CTX_get0_param(ctx);
  X509_VERIFY_PARAM_set1_host(
      params, serverAddress.c_str(), serverAddress.size());

  SSL* ssl = SSL_new(ctx);
  SSL_CTX_free(ctx);
""", """  SSL* ssl = SSL_new(ctx);

  // and verify the domain name
  auto params = SSL_CTX_get0_param(ctx);
  X509_VERIFY_PARAM_set1_host(
      params, serverAddress.c_str(), serverAddress.size());
  SSL_CTX_free(ctx);
""")],
  needs="a server that holds a certificate of the trusted root, but for another name",
  breaks="the name is set on the context after the connection copied its parameters, so the client accepts a certificate issued for any name",
  demo=r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/socket.h>
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
using namespace fbpcf::engine::communication; using TlsInfo = SocketPartyCommunicationAgent::TlsInfo;
// 1: connected
int tryName(const char* name) {
  char cmd[512]; snprintf(cmd, sizeof cmd, "openssl req -x509 -newkey rsa:2048 -nodes -keyout key.pem -out cert.pem -days 2 -subj /CN=%s -addext subjectAltName=DNS:%s >/dev/null 2>&1", name, name);
  if (system(cmd)) { printf("no certificate\n"); _exit(2); }
  std::ofstream("pass.txt") << "x";
  int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
  if (bind(fd, (sockaddr*)&a, l) || listen(fd, 1) || getsockname(fd, (sockaddr*)&a, &l)) { printf("no port\n"); _exit(2); }
  int port = ntohs(a.sin_port);
  TlsInfo s; s.useTls = true; s.certPath = "cert.pem"; s.keyPath = "key.pem"; s.passphrasePath = "pass.txt"; s.rootCaCertPath = "cert.pem"; TlsInfo c = s;
  std::unique_ptr<SocketPartyCommunicationAgent> A, B; bool ok = true;
  std::thread t([&] { try { A = std::make_unique<SocketPartyCommunicationAgent>(fd, port, s, std::make_shared<PartyCommunicationAgentTrafficRecorder>(), 20); } catch (std::exception&) {} });
  try { B = std::make_unique<SocketPartyCommunicationAgent>("localhost", port, c, std::make_shared<PartyCommunicationAgentTrafficRecorder>(), 20); } catch (std::exception& e) { ok = false; }
  t.join(); return ok;
}
int main() {
  signal(SIGPIPE, SIG_IGN);
  if (!tryName("localhost")) { printf("the right server is refused\n"); return 1; }
  if (tryName("elsewhere.example")) { printf("a certificate for another name is accepted\n"); return 1; }
  return 0;
}
''')

UDP = ENG + SCH + ML + ["fbpcf/mpc_std_lib/unified_data_process/*/*.cpp", "fbpcf/io/api/*.cpp", "fbpcf/io/cloud_util/*.cpp", "fbpcf/aws/S3Util.cpp", "fbpcf/gcp/GCSUtil.cpp", "fbpcf/exception/*.cpp", "fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"]
SEEDS["c11-counter-overlap"] = dict(property="C11", sources=UDP, libs="-lboost_serialization",
  edits=[("fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp", "generateCounterBlocks(s2vRes, indexes.at(i) * rowBlocks, rowBlocks)", "generateCounterBlocks(s2vRes, indexes.at(i), rowBlocks)"),
         ("fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h", "cherryPickedIndex.at(i) * cipherBlocks + j", "cherryPickedIndex.at(i) + j")],
  needs="rows of more than one cipher block with neighbouring indexes; decryption follows suit, so every result stays right",
  breaks="blocks of neighbouring rows are encrypted under the same mask, so the receiver learns the xor of their contents",
  demo=r'''
#include "two.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
using namespace fbpcf::mpc_std_lib::unified_data_process::data_processor;
int main() {
  auto c = UdpUtil::localEncryption(std::vector<std::vector<unsigned char>>(4, std::vector<unsigned char>(40)), _mm_set_epi64x(5, 6), uint64_t(3)).first;
  std::vector<std::vector<uint8_t>> blocks;
  for (auto& r : c) for (int b = 0; b < 2; b++) blocks.emplace_back(r.begin() + 16 * b, r.begin() + 16 * b + 16);
  for (size_t i = 0; i < blocks.size(); i++) for (size_t j = 0; j < i; j++) expect(blocks[i] != blocks[j], "two blocks under one mask");
}
''')

SEEDS["c04-right-level"] = dict(property="C04", sources=ENG + SCH,
  edits=[("fbpcf/scheduler/gate_keeper/GateKeeper.cpp", """  auto level = getOutputLevel(
      IArithmeticGate::isFree(gateType),
      std::max(
          getMaxLevel<true, IScheduler::Arithmetic>(left),
          getMaxLevel<true, IScheduler::Arithmetic>(right)));
""", """  auto level = getOutputLevel(
      IArithmeticGate::isFree(gateType),
      wireKeeper_->getBatchFirstAvailableLevel(left));
""")],
  needs="a batched integer operation on the lazy backend whose right operand is still waiting for a multiplication and whose left operand is not",
  breaks="the gate is levelled by its left operand only and runs before its right operand has a value",
  demo=r'''
#include "two.h"
#include "fbpcf/scheduler/IArithmeticScheduler.h"
int main() {
  twoParties(true, [](auto P, auto&) {
    constexpr int p = decltype(P)::value; struct K : fbpcf::scheduler::SchedulerKeeper<p> { using fbpcf::scheduler::SchedulerKeeper<p>::getScheduler; } k; auto& s = dynamic_cast<fbpcf::scheduler::IArithmeticScheduler&>(k.getScheduler());
    std::vector<uint64_t> v{1, 2, 3}, w{10, 20, 30};
    auto a = s.privateIntegerInputBatch(v, 0), b = s.privateIntegerInputBatch(w, 1);
    auto m = s.privateMultPrivateBatch(a, b); auto r = s.privatePlusPrivateBatch(a, m);
    auto x = s.getIntegerValueBatch(s.openIntegerValueToPartyBatch(r, 0));
    if (p == 0) expect(x == std::vector<uint64_t>{11, 42, 93}, "sum with a pending product");
  });
}
''')

SEEDS["c05-split-source"] = dict(property="C05", sources=ENG + SCH,
  edits=[("fbpcf/scheduler/gate_keeper/RebatchingGate.h", """        unbatchingStrategy_(unbatchingStrategy) {
    increaseBatchReferenceCount(batchWireID_);
    for""", """        unbatchingStrategy_(unbatchingStrategy) {
    for"""), ("fbpcf/scheduler/gate_keeper/RebatchingGate.h", """    decreaseBatchReferenceCount(batchWireID_);
    for (auto& i : individualWireIDs_) {""", """    if (isBatching()) {
      decreaseBatchReferenceCount(batchWireID_);
    }
    for (auto& i : individualWireIDs_) {""")],
  needs="splitting a batch on the lazy backend and dropping the batch's last handle before anything is evaluated",
  breaks="the pending split does not keep its source alive",
  demo=r'''
#include "two.h"
#include "fbpcf/frontend/Bit.h"
int main() {
  twoParties(true, [](auto P, auto&) {
    constexpr int p = decltype(P)::value; using B = fbpcf::frontend::Bit<true, p, true>;
    std::vector<bool> v{0, 1, 1, 0, 1}; auto sizes = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{2, 3}); std::vector<B> parts;
    { B a(v, 0); B b = a & B(std::vector<bool>(5, true), 1); parts = b.unbatching(sizes); }
    B other(std::vector<bool>(5, true), 1);
    std::vector<bool> x, y;
    try { x = parts.at(0).openToParty(0).getValue(); y = parts.at(1).openToParty(0).getValue(); } catch (std::exception& e) { expect(false, e.what()); }
    if (p == 0) expect(x == std::vector<bool>{0, 1} && y == std::vector<bool>{1, 0, 1}, "parts of a dropped batch");
  });
}
''')

SEEDS["c20-nested-key"] = dict(property="C20", sources=["fbpcf/gcp/GCSUtil.cpp", "fbpcf/exception/*.cpp"],
  edits=[("fbpcf/gcp/GCSUtil.cpp", 'pos = path.find("/");', 'pos = path.rfind("/");')],
  needs="a path-style address whose key has a slash in it",
  breaks="folders of the key are taken for a part of the bucket name",
  demo=r"""
#include <cstdio>
#include "fbpcf/gcp/GCSUtil.h"
int main() {
  auto r = fbpcf::gcp::uriToObjectReference("https://storage.googleapis.com/bucket/a/b/c.csv");
  if (r.bucket != "bucket" || r.key != "a/b/c.csv") { printf("%s %s\n", r.bucket.c_str(), r.key.c_str()); return 1; }
  return 0;
}
""")

SEEDS["c23-needed-length"] = dict(property="C23", sources=ENG + SCH + ML,
  edits=[("fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp", """    auto neededLength =
        std::ceil(length * 1.0 / ((uint64_t)1 << (width - 1 - i)));""", """    auto neededLength = (length >> (width - 1 - i)) +
        ((length & (((uint64_t)1 << (width - 1 - i)) - 1)) > 1 ? 1 : 0);""")],
  needs="a length that is one more than a multiple of a power of two at some level, such as 5 or 9",
  breaks="the last branch is cut off one level too early, so the arrays come out too short",
  demo=r'''
#include "two.h"
#include <array>
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
using namespace fbpcf::mpc_std_lib::oram;
int main() {
  for (size_t n : {2, 3, 5, 6, 9}) {
    size_t w = 1; while ((size_t(1) << w) < n) w++;
    auto f = twoFactories(); std::vector<std::pair<std::vector<bool>, std::vector<__m128i>>> r[2];
    std::vector<std::vector<bool>> idx[2];
    for (size_t b = 0; b < w; b++) { idx[0].emplace_back(n); idx[1].emplace_back(n); for (size_t i = 0; i < n; i++) { idx[0][b][i] = (i * 7 + b) & 1; idx[1][b][i] = idx[0][b][i] ^ ((i >> b) & 1); } }
    auto go = [&](int p) {
      std::shared_ptr<fbpcf::util::MetricCollector> m = std::make_shared<fbpcf::util::MetricCollector>("x");
      auto d = std::make_unique<insecure::DummyObliviousDeltaCalculatorFactory>(1 - p, *f[p]);
      SinglePointArrayGeneratorFactory g(p == 0, std::move(d)); r[p] = g.create()->generateSinglePointArrays(idx[p], n);
    };
    std::thread t([&] { go(1); }); go(0); t.join();
    for (size_t i = 0; i < n; i++) { expect(r[0].at(i).first.size() == n && r[1].at(i).first.size() == n, "length");
      for (size_t j = 0; j < n; j++) expect((r[0][i].first[j] != r[1][i].first[j]) == (i == j), "one hot"); }
  }
}
''')

SEEDS["c27-extra-columns"] = dict(property="C27", sources=ENG + SCH + ML,
  edits=[("fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h", "if (data.size() != expectedColumns) {", "if (data.size() < expectedColumns) {")],
  needs="a table with a column the row layout does not know",
  breaks="the mismatched table is serialised without its extra column instead of being rejected",
  demo=r'''
#include "two.h"
#include <map>
#include <unordered_map>
#define contains count
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
using namespace fbpcf::mpc_std_lib::unified_data_process::serialization;
int main() {
  using C = IColumnDefinition<0>; std::map<std::string, C::SupportedColumnTypes> def{{"a", C::SupportedColumnTypes::UInt32}};
  RowStructureDefinition<0> row(def); std::vector<uint32_t> a{1, 2}, b{3, 4};
  std::unordered_map<std::string, C::InputColumnDataType> ok{{"a", std::ref(a)}}, extra{{"a", std::ref(a)}, {"b", std::ref(b)}};
  expect(row.serializeDataAsBytesForUDP(ok, 2).size() == 2, "rows");
  bool rejected = false; try { row.serializeDataAsBytesForUDP(extra, 2); } catch (std::exception&) { rejected = true; }
  expect(rejected, "a table with an unknown column is accepted");
}
''')

SEEDS["c10-legacy-transposed"] = dict(property="C10", sources=ENG,
  edits=[("fbpcf/engine/SecretShareEngine.cpp", """    std::vector<std::vector<bool>> compositeResult(outputSize);
    for (size_t j = 0; j < outputSize; j++) {
      std::vector<bool> innerBatchResult(batchSize);
      for (size_t k = 0; k < batchSize; k++) {
        bool val = tuples.at(index).getC() ^
            (openedSecrets.at(2 * index) && tuples.at(index).getB()) ^
            (openedSecrets.at(2 * index + 1) && tuples.at(index).getA());
        if (myId_ == 0) {
          val = val ^
              (openedSecrets.at(2 * index) && openedSecrets.at(2 * index + 1));
        }
        innerBatchResult[k] = val;
        index++;
      }
      compositeResult[j] = std::move(innerBatchResult);
    }
""", """    std::vector<std::vector<bool>> compositeResult(
        outputSize, std::vector<bool>(batchSize));
    for (size_t k = 0; k < batchSize; k++) {
      for (size_t j = 0; j < outputSize; j++) {
        bool val = tuples.at(index).getC() ^
            (openedSecrets.at(2 * index) && tuples.at(index).getB()) ^
            (openedSecrets.at(2 * index + 1) && tuples.at(index).getA());
        if (myId_ == 0) {
          val = val ^
              (openedSecrets.at(2 * index) && openedSecrets.at(2 * index + 1));
        }
        compositeResult[j][k] = val;
        index++;
      }
    }
""")],
  needs="a tuple generator without composite tuples, and a batch composite AND with at least two batch members and two right operands",
  breaks="the products of a batch composite AND are handed back transposed",
  demo=r'''
#include "two.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
using namespace fbpcf::engine; namespace tg = tuple_generator;
struct Gen : tg::ITupleGenerator {
  std::vector<BooleanTuple> getBooleanTuple(uint32_t n) override { return std::vector<BooleanTuple>(n, BooleanTuple(0, 0, 0)); }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>&) override { throw 1; }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(uint32_t, const std::map<size_t, uint32_t>&) override { throw 1; }
  bool supportsCompositeTupleGeneration() override { return false; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct GenF : tg::ITupleGeneratorFactory { GenF() : ITupleGeneratorFactory(std::make_shared<fbpcf::util::MetricCollector>("t")) {} std::unique_ptr<tg::ITupleGenerator> create() override { return std::make_unique<Gen>(); } };
int main() {
  auto fac = twoFactories(); std::vector<std::vector<bool>> out[2];
  auto go = [&](int p) {
    auto e = getEngineFactoryWithTupleGeneratorFactories(p, 2, *fac[p], std::make_unique<GenF>(), std::make_unique<tg::insecure::DummyArithmeticTupleGeneratorFactory>())->create();
    std::vector<bool> left{1, 0, 1}; std::vector<std::vector<bool>> rights{{1, 1, 1}, {0, 1, 0}};
    if (p == 1) { left = {0, 0, 0}; rights = {{0, 0, 0}, {0, 0, 0}}; }
    auto i = e->scheduleBatchCompositeAND(left, rights); e->executeScheduledOperations(); out[p] = e->getBatchCompositeANDExecutionResult(i);
  };
  std::thread t([&] { go(1); }); go(0); t.join();
  std::vector<std::vector<bool>> want{{1, 0, 1}, {0, 0, 0}};
  for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) expect((out[0].at(j).at(k) ^ out[1].at(j).at(k)) == want[j][k], "batch composite product");
}
''')

SEEDS["c14-base-handed-out"] = dict(property="C14", sources=ENG,
  edits=[("fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", """  rcotResults_.erase(rcotResults_.end() - baseRcotSize_, rcotResults_.end());

""", "")],
  needs="drawing random correlated transfers past the end of one extension",
  breaks="the correlations that seed the next extension are handed out as results as well, so that later outputs are functions of earlier ones",
  demo=r'''
#include "two.h"
#include <emmintrin.h>
#include <set>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.h"
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer; namespace ut = fbpcf::engine::util;
std::set<long long> bases; long long next = 1000;
struct Ext : ot::ferret::IRcotExtender {
  int senderInit(__m128i, int64_t, int64_t, int64_t) override { return 3; }
  int receiverInit(int64_t, int64_t, int64_t) override { return 3; }
  void setCommunicationAgent(std::unique_ptr<cm::IPartyCommunicationAgent>) override {}
  int getBaseCotSize() const override { return 3; }
  std::vector<__m128i> ext(std::vector<__m128i>&& b) { for (auto x : b) bases.insert(_mm_cvtsi128_si64(x)); std::vector<__m128i> r; for (int i = 0; i < 10; i++) r.push_back(_mm_set_epi64x(0, next++)); return r; }
  std::vector<__m128i> senderExtendRcot(std::vector<__m128i>&& b) override { return ext(std::move(b)); }
  std::vector<__m128i> receiverExtendRcot(std::vector<__m128i>&& b) override { return ext(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
int main() {
  for (auto role : {ut::Role::sender, ut::Role::receiver}) {
    bases.clear();
    ot::ExtenderBasedRandomCorrelatedObliviousTransfer r(role, std::make_unique<Ext>());
    r.setBaseRcotResults(std::vector<__m128i>(3, _mm_set_epi64x(0, 1)));
    std::set<long long> got;
    for (int n : {4, 9, 1, 12}) { auto x = r.rcot(n); expect(int(x.size()) == n, "size"); for (auto v : x) expect(got.insert(_mm_cvtsi128_si64(v)).second, "handed out twice"); }
    for (auto b : bases) expect(!got.count(b), "a base was handed out");
  }
}
''')

SEEDS["c08-narrow-sign"] = dict(property="C08", sources=ENG + SCH,
  edits=[("fbpcf/frontend/Int_impl.h", """      rst[i] = data_[i];
    }
    // upcast""", """      rst[i] = data_[i];
    }
    if constexpr (isSigned) {
      // keep the sign
      rst[newWidth - 1] = data_[width - 1];
    }
    // upcast""")],
  needs="narrowing a signed value that does not fit in the smaller width",
  breaks="narrowing no longer takes the value modulo a power of two, unlike in C++",
  demo=r'''
#include "two.h"
#include "fbpcf/frontend/Int.h"
int main() {
  for (bool lazy : {false, true}) twoParties(lazy, [](auto P, auto&) {
    constexpr int p = decltype(P)::value; using I = fbpcf::frontend::Int<true, 16, true, p, false>;
    for (int v : {5, -3, 200, 300, -200, 32767, -32768}) {
      I a((int64_t)v, 0); auto c = a.template cast<8>(); auto o = c.openToParty(0).getValue();
      if (p == 0) expect(o == (int8_t)v, "narrowed value");
    }
  });
}
''')

SEEDS["c03-share-chain"] = dict(property="C03", sources=ENG + SCH,
  edits=[("fbpcf/scheduler/NetworkPlaintextScheduler.cpp", """      iter.second->sendBool(v);
      receivedShares = iter.second->receiveBool(v.size());
    } else {""", """      iter.second->sendBool(result);
      receivedShares = iter.second->receiveBool(v.size());
    } else {""")],
  needs="recovering a batch of shares among three parties or more with set share bits",
  breaks="the last party folds other parties' shares into what it sends, so that parties recover different values",
  demo=r'''
#include "two.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
int main() {
  using namespace fbpcf::scheduler; cm::InMemoryPartyCommunicationAgentHost h[3]; // 01 02 12
  std::map<int, std::unique_ptr<cm::IPartyCommunicationAgent>> m[3];
  int pr[3][2] = {{0, 1}, {0, 2}, {1, 2}};
  for (int i = 0; i < 3; i++) for (int s = 0; s < 2; s++) m[pr[i][s]][pr[i][1 - s]] = h[i].getAgent(s);
  std::vector<bool> sh[3] = {{1, 0, 1, 0}, {0, 1, 1, 0}, {0, 0, 1, 1}}, out[3]; std::vector<std::thread> t;
  for (int p = 0; p < 3; p++) t.emplace_back([&, p] { NetworkPlaintextScheduler s(p, std::move(m[p]), WireKeeper::createWithVectorArena<false>()); out[p] = s.getBooleanValueBatch(s.recoverBooleanWireBatch(sh[p])); });
  for (auto& x : t) x.join();
  for (int p = 0; p < 3; p++) expect(out[p] == std::vector<bool>{1, 1, 1, 1}, "recovered batch");
}
''')

SEEDS["c09-empty-part"] = dict(property="C09", sources=ENG + SCH,
  edits=[("fbpcf/scheduler/gate_keeper/RebatchingGate.h", """      std::vector<bool> dst(unbatchingStrategy_->at(i));
""", """      std::vector<bool> dst(unbatchingStrategy_->at(i));
      if (dst.empty()) {
        break;
      }
""")],
  needs="a split with an empty part before others, on the lazy backend",
  breaks="parts after an empty one never get their values",
  demo=r'''
#include "two.h"
#include "fbpcf/frontend/Bit.h"
int main() {
  twoParties(true, [](auto P, auto&) {
    constexpr int p = decltype(P)::value; using B = fbpcf::frontend::Bit<true, p, true>;
    std::vector<bool> v{0, 1, 1, 0, 1};
    B a(v, 0), d(std::vector<bool>{1, 1, 0}, 0);
    auto part = a.unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{2, 0, 3}));
    auto z = part.at(2) & d;
    auto x = part.at(2).openToParty(0).getValue(); if (p == 0) expect(x == std::vector<bool>{1, 0, 1}, "part after an empty one");
  });
}
''')

SEEDS["c26-wide-index"] = dict(property="C26", sources=UDP, libs="-lboost_serialization",
  edits=[("fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp", """        generateCounterBlocks(s2vRes, indexes.at(i) * rowBlocks, rowBlocks);
    // encrypt counters""", """        generateCounterBlocks(
            s2vRes, static_cast<uint32_t>(indexes.at(i) * rowBlocks), rowBlocks);
    // encrypt counters""")],
  needs="a row index whose counter passes 32 bits",
  breaks="rows 2^32 counters apart are masked with the same key stream",
  demo=r'''
#include "two.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
#include "fbpcf/engine/util/aes.h"
#include <cstring>
using fbpcf::mpc_std_lib::unified_data_process::data_processor::UdpUtil;
int main() {
  __m128i key = _mm_set_epi64x(5, 6); std::vector<uint64_t> idx{3, 0x80000001ull, 0x123456789ull};
  std::vector<std::vector<unsigned char>> rows(3, std::vector<unsigned char>(20, 0));
  auto [c, n] = UdpUtil::localEncryption(rows, key, idx); __m128i nonce = _mm_loadu_si128((const __m128i*)n.data()); fbpcf::engine::util::Aes aes(key);
  for (int i = 0; i < 3; i++) {
    std::vector<__m128i> m; for (int j = 0; j < 2; j++) m.push_back(_mm_add_epi64(nonce, _mm_set_epi64x(0, idx[i] * 2 + j)));
    aes.encryptInPlace(m); expect(!memcmp(m.data(), c[i].data(), 20), "key stream of a row");
  }
}
''')

SEEDS["c30-pair-stays"] = dict(property="C30", sources=ENG + SCH + ML,
  edits=[("fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp", "i > 1; i--", "i > 2; i--")],
  needs="counting which permutations can come out: only those leaving the last exchange undone do",
  breaks="half of all permutations can never be drawn",
  demo=r'''
#include "two.h"
#include <set>
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
int main() {
  fbpcf::engine::util::AesPrg g(_mm_set_epi64x(1, 2), 1024); std::set<std::vector<uint32_t>> s;
  for (int i = 0; i < 400; i++) s.insert(fbpcf::mpc_std_lib::util::secureRandomPermutation(3, g));
  expect(s.size() == 6, "all orders of three come up");
}
''')

SEEDS["c32-fractions"] = dict(property="C32", sources=["fbpcf/exception/*.cpp"],
  edits=[("fbpcf/util/MetricCollector.h", "if (metricValue.isNumber()) {", "if (metricValue.isInt()) {")],
  needs="recorders with fractional metrics",
  breaks="fractional metrics are left out of the aggregate",
  demo=r'''
#include <cstdio>
#include "fbpcf/util/MetricCollector.h"
struct R : fbpcf::util::IMetricRecorder { folly::dynamic d; explicit R(folly::dynamic x) : d(x) {} folly::dynamic getMetrics() const override { return d; } };
int main() {
  fbpcf::util::MetricCollector c("p");
  c.addNewRecorder("a", std::make_shared<R>(folly::dynamic::object("t", 1.5)("n", 2)));
  c.addNewRecorder("b", std::make_shared<R>(folly::dynamic::object("t", 0.25)("n", 5)));
  auto g = c.aggregateMetrics();
  if (g.count("p.n") != 1 || g["p.n"].asInt() != 7) return 1;
  if (g.count("p.t") != 1 || g["p.t"].asDouble() != 1.75) { puts("fraction lost"); return 1; }
}
''')

SEEDS["c36-last-peer"] = dict(property="C36", sources=ENG,
  edits=[("fbpcf/engine/tuple_generator/TupleGenerator.cpp", """    rst.first += cost.first;
    rst.second += cost.second;""", """    rst = cost;""")],
  needs="three parties or more",
  breaks="the tuple generator reports the traffic of one peer only",
  demo=r'''
#include "two.h"
#include "fbpcf/engine/tuple_generator/TupleGenerator.h"
#include "fbpcf/engine/util/AesPrg.h"
using namespace fbpcf::engine; namespace tg = tuple_generator;
struct S : tg::IProductShareGenerator { uint64_t k; explicit S(int x) : k(x) {}
  std::vector<bool> generateBooleanProductShares(const std::vector<bool>& l, const std::vector<bool>&) override { return std::vector<bool>(l.size()); }
  std::vector<uint64_t> generateIntegerProductShares(const std::vector<uint64_t>& l, const std::vector<uint64_t>&) override { return std::vector<uint64_t>(l.size()); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {k, 10 * k}; } };
int main() {
  std::map<int, std::unique_ptr<tg::IProductShareGenerator>> m; m.emplace(1, std::make_unique<S>(3)); m.emplace(2, std::make_unique<S>(5));
  tg::TupleGenerator g(std::move(m), std::make_unique<util::AesPrg>(_mm_set_epi64x(1, 2), 1024), std::make_shared<tg::TuplesMetricRecorder>(), 16);
  g.getBooleanTuple(3); expect(g.getTrafficStatistics() == std::make_pair<uint64_t, uint64_t>(8, 80), "traffic of all peers");
}
''')
