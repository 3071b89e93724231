// C24: breakdown encoding is a bijection on accepted rows.
#include <map>
#include <set>
#include <unistd.h>
#include "mc/mc.h"
#include "cloud_fake.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
using namespace mc;
using namespace fbpcf::mpc_std_lib::oram;
using Tuple = std::vector<uint32_t>; using Table = std::vector<Tuple>;
static const std::vector<uint32_t> AL{0, 1, 11, 0xffffffffu, 2147483648u, 10};
static const std::vector<uint32_t> TH{0, 1, 11, 0xffffffffu};
static const std::vector<Tuple> SETS{{}, {1}, {0, 11}, {0xffffffffu, 1}};
struct F { int type; size_t col; uint32_t th; Tuple set; };
static bool pass(const F& f, const Tuple& t) {
  uint32_t v = t.at(f.col); bool in = false; for (auto x : f.set) in = in || x == v;
  switch (f.type) { case 0: return v > f.th; case 1: return v < f.th; case 2: return v >= f.th; case 3: return v <= f.th; case 4: return v == f.th; case 5: return v != f.th; case 6: return in; default: return !in; }
}
static const IFilter::FilterType KIND[] = {IFilter::GT, IFilter::LT, IFilter::GTE, IFilter::LTE, IFilter::EQ, IFilter::NEQ, IFilter::SUBSET_OF, IFilter::NOT_SUBSET_OF};
static std::unique_ptr<IFilter> make(const F& f) { if (f.type < 6) return std::make_unique<SingleValueFilter>(KIND[f.type], f.col, f.th); return std::make_unique<VectorValueFilter>(KIND[f.type], f.col, f.set); }
static F chooseFilter(int cols) { F f; f.type = choose(8, "filter"); f.col = choose(cols, "column"); if (f.type < 6) f.th = TH[choose(TH.size(), "threshold")]; else f.set = SETS[choose(SETS.size(), "set")]; return f; }
static std::string show(const Table& t) { std::string s; for (auto& r : t) s += vec(std::vector<uint64_t>(r.begin(), r.end())); return s; }
static std::string show(const std::vector<F>& v) { std::string s; for (auto& f : v) s += " filter " + str(f.type) + " on " + str(f.col) + " with " + (f.type < 6 ? str(f.th) : vec(std::vector<uint64_t>(f.set.begin(), f.set.end()))); return s; }
static std::unique_ptr<OramEncoder> encoder(const std::vector<F>& fs) {
  auto v = std::make_unique<std::vector<std::unique_ptr<IFilter>>>(); for (auto& f : fs) v->push_back(make(f)); return std::make_unique<OramEncoder>(std::move(v));
}
// one table, given in batches that end after the rows in `cuts` (bit i: after row i)
static void oneTable(const std::vector<F>& fs, const Table& t, int cuts, bool roundTrip, bool file) {
  auto e = encoder(fs); std::vector<uint32_t> ids; Table cur;
  auto nm = [&] { return show(t) + " cuts " + str(cuts) + show(fs); };
  auto flush = [&] { size_t n = cur.size(); auto r = e->generateORAMIndexes(cur); check(r.size() == n, "number of ids", nm); ids.insert(ids.end(), r.begin(), r.end()); cur.clear(); if (cuts & 64) e->exportMappingConfig(); };
  for (size_t i = 0; i < t.size(); i++) { cur.push_back(t[i]); if (cuts >> i & 1) flush(); }
  flush();
  if (ids.size() != t.size()) return;
  // reference: equal accepted tuples share an id, all rejected rows share one, ids are dense
  std::map<Tuple, uint32_t> seen; long rejected = -1; std::set<uint32_t> used;
  for (size_t i = 0; i < t.size(); i++) {
    bool ok = true; for (auto& f : fs) ok = ok && pass(f, t[i]);
    used.insert(ids[i]);
    if (ok) {
      auto it = seen.find(t[i]);
      if (it == seen.end()) { for (auto& kv : seen) check(kv.second != ids[i], "one id for two tuples", nm); check((long)ids[i] != rejected, "id of rejected rows given to an accepted tuple", nm); seen[t[i]] = ids[i]; }
      else check(it->second == ids[i], "two ids for one tuple", nm);
    } else { if (rejected >= 0) check((long)ids[i] == rejected, "two ids for rejected rows", nm); else { for (auto& kv : seen) check(kv.second != ids[i], "id of an accepted tuple given to a rejected row", nm); rejected = ids[i]; } }
  }
  evals(t.size() + 1); uint64_t h = hashStr(show(t) + show(fs)); for (auto x : ids) h = mix(h, x); state(h);
  check(e->getOramSize() == used.size(), "size of the memory", nm);
  for (auto x : used) check(x < used.size(), "ids are not dense", nm);
  if (!roundTrip) return;
  Table want; for (size_t i = 0; i < t.size(); i++) want.push_back((long)ids[i] == rejected ? Tuple{} : t[i]);
  auto cfg = e->exportMappingConfig();
  check(cfg->wereBreakdownsFiltered() == (rejected >= 0) && (rejected < 0 || (long)cfg->getFilterIndex() == rejected) && cfg->getBreakdownMapping().size() == seen.size(), "exported mapping", nm);
  std::unique_ptr<OramMappingConfig> back;
  if (file) { auto fn = "mapping" + str(getpid()); cfg->writeMappingToFile(fn); back = OramMappingConfig::readMappingFromFile(fn); } else back = OramMappingConfig::fromSerializedString(cfg->serializeAsString());
  check(back->getBreakdownMapping() == cfg->getBreakdownMapping() && back->wereBreakdownsFiltered() == cfg->wereBreakdownsFiltered() && back->getFilterIndex() == cfg->getFilterIndex(), "mapping after being written and read", nm);
  for (int k = 0; k < 2; k++) {
    OramDecoder d(k ? std::move(back) : std::move(cfg));
    check(d.decodeORAMIndexes(ids) == want, k ? "decoding with the mapping read back" : "decoding", nm);
    bool threw = false; try { d.decodeORAMIndexes({(uint32_t)used.size()}); } catch (const std::exception&) { threw = true; }
    check(threw, "id never given out was decoded", nm); evals(2);
  }
}
static Table nthTable(int rows, int cols, int al, uint64_t k) { Table t; for (int r = 0; r < rows; r++) { Tuple x; for (int c = 0; c < cols; c++) { x.push_back(AL[k % al]); k /= al; } t.push_back(x); } return t; }
static uint64_t ipow(uint64_t a, int b) { uint64_t r = 1; while (b--) r *= a; return r; }
static void tables() {
  int cols = 1 + choose(2, "columns"), rows = choose(mc::thorough ? 5 : 4, "rows"), nf = choose(2, "filters"), cuts = choose(rows ? 1 << (rows - 1) : 1, "batches");
  std::vector<F> fs; for (int i = 0; i < nf; i++) fs.push_back(chooseFilter(cols));
  int al = cols == 1 ? 6 : rows > 3 ? 3 : 4; uint64_t n = ipow(al, cols * rows); note(str(rows) + " rows, " + str(cols) + " columns" + show(fs));
  for (uint64_t k = 0; k < n && !failed(); k++) oneTable(fs, nthTable(rows, cols, al, k), cuts, rows < 3 || nf == 0 || k % 16 == 5, false);
}
static void twoFilters() {
  int rows = 1 + choose(mc::thorough ? 3 : 2, "rows"); std::vector<F> fs{chooseFilter(2), chooseFilter(2)}; if (mc::thorough && choose(2, "third")) fs.push_back({5, 1, 11, {}});
  int al = rows == 3 ? 3 : 4; uint64_t n = ipow(al, 2 * rows); note(str(rows) + " rows" + show(fs));
  for (uint64_t k = 0; k < n && !failed(); k++) oneTable(fs, nthTable(rows, 2, al, k), 0, k % 32 == 7, false);
}
// rows with no column, rows of different widths, three columns, files
static void shapes() {
  int n = choose(4, "rows"); Table t; for (int r = 0; r < n; r++) { Tuple x; int w = choose(4, "width"); static const uint32_t P[] = {1, 11, 0, 0xffffffffu}; int s = w ? choose(2, "start") : 0; for (int c = 0; c < w; c++) x.push_back(P[(s + c) % 4]); t.push_back(x); }
  bool file = choose(2, "file"), early = choose(2, "export early"); note("shapes " + show(t));
  oneTable({}, t, early ? 64 + 1 : 0, true, file);
}
static void larger() {
  int f = choose(3, "filters"), cuts = choose(3, "batches"); std::vector<F> fs; if (f) fs.push_back({f == 1 ? 5 : 1, 0, f == 1 ? 3u : 500u, {}}); note("larger " + str(f) + str(cuts));
  Table t; for (uint32_t i = 0; i < (mc::thorough ? 4000 : 600); i++) t.push_back({i % 37 == 0 ? 3 : i * 2654435761u % 1000, i % 3, 0xffffffffu - i % 5});
  oneTable(fs, t, cuts == 1 ? 5 : cuts == 2 ? 64 + 3 : 0, true, true);
}
static void rejects() {
  int what = choose(4, "what"), ty = choose(8, "type"), col = choose(3, "column"); note("rejects " + str(what) + " " + str(ty)); bool threw = false, want;
  try {
    if (what == 0) { want = ty >= 6; SingleValueFilter f(KIND[ty], col, 1); }
    else if (what == 1) { want = ty < 6; VectorValueFilter f(KIND[ty], col, {1}); }
    else { Tuple t(what == 2 ? col : col + 1, 5); want = what == 2; encoder({{ty, (size_t)col, 1, {1}}})->generateORAMIndexes({t}); }
  } catch (const std::exception&) { threw = true; }
  evals(); state(what * 64 + ty * 4 + col); check(threw == want, want ? "improper filter accepted" : "proper filter rejected", [&] { return str(what) + " " + str(ty) + " " + str(col); });
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C24", {{"tables", tables, 0, -1, false, 0, 7}, {"two filters", twoFilters, 0, -1, false, 0, 6}, {"shapes", shapes, 0, -1, false, 0, 5}, {"larger", larger}, {"rejected filters", rejects}});
}
