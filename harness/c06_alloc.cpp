#include <unordered_map>
#include <vector>
#include <stdexcept>
#include "fbpcf/scheduler/UnorderedMapAllocator.h"
#include "fbpcf/scheduler/VectorArenaAllocator.h"
#include "mc/mc.h"
using namespace fbpcf::scheduler;

namespace {
struct Val {
  std::vector<bool> payload;
  uint64_t n = 0;
  bool operator==(const Val& o) const { return payload == o.payload && n == o.n; }
};
Val make(uint64_t i) {
  Val v;
  v.n = 0x1000 + i;
  for (uint64_t k = 0; k < (i > 10000 ? i % 3 : i % 70); k++) v.payload.push_back((i >> (k % 7)) & 1);
  return v;
}

// every sequence of `depth` operations after `preload` allocations (of which every `holes`-th is freed again)
template <class A>
void sequences(int depth, const std::vector<int>& preloads, bool checked) {
  int preload = preloads[mc::choose((int)preloads.size(), "preload")];
  int hole = preload > 2 ? mc::choose(3, "holes") : 0;  // none, first half, alternate
  A a;
  mc::check(a.isSafe() == checked, "isSafe", [] { return "safety flag"; });
  std::unordered_map<uint64_t, Val> ref;
  std::vector<uint64_t> live, dead;
  uint64_t ctr = 0, h = mc::mix(preload, hole);
  auto alloc = [&] {
    Val v = make(ctr++);
    Val c = v;
    uint64_t id = a.allocate(std::move(c));
    mc::check(!ref.count(id), "allocated id is already live", [&] { return mc::str(id); });
    for (size_t i = dead.size(); i-- > 0;) if (dead[i] == id) { dead.erase(dead.begin() + i); break; }
    ref[id] = v;
    live.push_back(id);
  };
  auto drop = [&](size_t i) {
    uint64_t id = live[i];
    a.free(id);
    live.erase(live.begin() + i);
    ref.erase(id);
    dead.push_back(id);
  };
  for (int i = 0; i < preload; i++) alloc();
  if (hole) {
    std::vector<uint64_t> keep;
    for (size_t i = 0; i < live.size(); i++) {
      if (hole == 1 ? i >= live.size() / 2 : i % 2) { keep.push_back(live[i]); continue; }
      a.free(live[i]); ref.erase(live[i]); dead.push_back(live[i]);
    }
    live = keep;
  }
  auto audit = [&](bool all) {
    size_t n = live.size();
    for (size_t i = 0; i < n; i++) {
      if (!all && i >= 3 && i + 3 < n) continue;
      const A& ca = a;
      mc::evals();
      mc::check(ca.get(live[i]) == ref[live[i]], "read returns the last value written", [&] { return "id " + mc::str(live[i]); });
      mc::check(a.getWritableReference(live[i]) == ref[live[i]], "reference shows the last value written", [&] { return "id " + mc::str(live[i]); });
    }
    if (checked) {
      size_t lo = dead.size() > 8 && !all ? dead.size() - 8 : 0;
      for (size_t i = lo; i < dead.size(); i++) {
        mc::evals();
        int thrown = 0;
        try { a.get(dead[i]); } catch (const std::exception&) { thrown++; }
        try { a.getWritableReference(dead[i]); } catch (const std::exception&) { thrown++; }
        mc::check(thrown == 2, "use of a freed id is rejected", [&] { return "id " + mc::str(dead[i]); });
      }
    }
    // ids beyond everything ever allocated
    uint64_t bad = 1000000;
    int thrown = 0;
    if (checked) {
      try { a.get(bad); } catch (const std::exception&) { thrown++; }
      try { a.getWritableReference(bad); } catch (const std::exception&) { thrown++; }
      mc::check(thrown == 2, "use of an id never allocated is rejected", nullptr);
    }
  };
  audit(true);
  for (int d = 0; d < depth; d++) {
    int kind = mc::choose(live.empty() ? 1 : 4, "op");
    size_t at = 0;
    if (kind > 0) {
      // first, last, middle
      int n = (int)std::min<size_t>(live.size(), 3);
      int w = mc::choose(n, "which");
      at = w == 0 ? 0 : w == 1 ? live.size() - 1 : live.size() / 2;
    }
    mc::step();
    switch (kind) {
      case 0: alloc(); break;
      case 1: drop(at); break;
      case 2: { Val v = make(ctr++); a.getWritableReference(live[at]) = v; ref[live[at]] = v; break; }
      case 3: { auto& r = a.getWritableReference(live[at]); r.n += 7; r.payload.push_back(true); ref[live[at]].n += 7; ref[live[at]].payload.push_back(true); break; }
    }
    h = mc::mix(h, kind * 10 + at);
    audit(false);
    mc::state(mc::mix(mc::mix(h, live.size()), live.empty() ? 0 : live.back()));
    if (mc::failed()) break;
  }
  audit(true);
  mc::note("preload " + mc::str(preload) + " holes " + mc::str(hole) + " live " + mc::str(live.size()));
}
}  // namespace

int main(int argc, char** argv) {
  using Map = UnorderedMapAllocator<Val>;
  using Arena = VectorArenaAllocator<Val, false>;
  using Unsafe = VectorArenaAllocator<Val, true>;
  auto d = [] { return mc::thorough ? 7 : 5; };
  auto db = [] { return mc::thorough ? 4 : 2; };
  std::vector<int> small{0, 1, 3}, big{1022, 1023, 1024, 1025, 2047, 2048, 2049}; auto many = [] { return mc::thorough ? std::vector<int>{65535, 65537, 66600} : std::vector<int>{66600}; };
  return mc::harnessMain(argc, argv, "C06", {
    {"map", [&] { sequences<Map>(d(), small, true); }},
    {"arena-checked", [&] { sequences<Arena>(d(), small, true); }},
    {"arena-unchecked", [&] { sequences<Unsafe>(d(), small, false); }},
    {"arena-checked-boundary", [&] { sequences<Arena>(db(), big, true); }},
    {"arena-unchecked-boundary", [&] { sequences<Unsafe>(db(), big, false); }},
    // more values alive than a narrow id could tell apart
    {"arena-checked-many", [&] { sequences<Arena>(mc::thorough ? 1 : 0, many(), true); }},
    {"arena-unchecked-many", [&] { sequences<Unsafe>(mc::thorough ? 1 : 0, many(), false); }},
    {"map-many", [&] { sequences<Map>(mc::thorough ? 1 : 0, many(), true); }},
    {"map-boundary", [&] { sequences<Map>(mc::thorough ? 3 : 1, big, true); }},
  });
}
