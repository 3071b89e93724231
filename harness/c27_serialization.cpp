// C27: rows written to bytes and read back as secret values.
#include <map>
#include <sstream>
#include <unordered_map>
#define contains count  // std::unordered_map::contains is C++20
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
#undef contains
#include "mc/front.h"
using namespace mc;
namespace sr = fbpcf::mpc_std_lib::unified_data_process::serialization;
enum Type { BIT, PACKED, U32, U64, I32, I64, VU32, VU64, VI32, VI64 };
static const char* names[] = {"bit", "packed", "u32", "u64", "i32", "i64", "u32[]", "u64[]", "i32[]", "i64[]"};
static const bool isVec(int t) { return t >= VU32; }
static size_t bytesOf(int t) { return t == U32 || t == I32 || t == VU32 || t == VI32 ? 4 : 8; }
using Cells = std::vector<std::vector<int64_t>>;  // [row][element]; scalars have one element
struct Column { std::string name; int type; Cells v; };
// native containers the library takes by reference
struct Native {
  std::vector<bool> b; std::vector<uint32_t> u32; std::vector<uint64_t> u64; std::vector<int32_t> i32; std::vector<int64_t> i64;
  std::vector<std::vector<bool>> vb; std::vector<std::vector<uint32_t>> vu32; std::vector<std::vector<uint64_t>> vu64; std::vector<std::vector<int32_t>> vi32; std::vector<std::vector<int64_t>> vi64;
};
template <class T> static void fill(std::vector<T>& d, const Cells& v) { for (auto& r : v) d.push_back((T)r.at(0)); }
template <class T> static void fill2(std::vector<std::vector<T>>& d, const Cells& v) { for (auto& r : v) { d.emplace_back(); for (auto x : r) d.back().push_back((T)x); } }
template <int P> static typename sr::IColumnDefinition<P>::InputColumnDataType input(Native& n, const Column& c) {
  switch (c.type) {
    case BIT: fill(n.b, c.v); return std::ref(n.b);
    case U32: fill(n.u32, c.v); return std::ref(n.u32);
    case U64: fill(n.u64, c.v); return std::ref(n.u64);
    case I32: fill(n.i32, c.v); return std::ref(n.i32);
    case I64: fill(n.i64, c.v); return std::ref(n.i64);
    case PACKED: fill2(n.vb, c.v); return std::ref(n.vb);
    case VU32: fill2(n.vu32, c.v); return std::ref(n.vu32);
    case VU64: fill2(n.vu64, c.v); return std::ref(n.vu64);
    case VI32: fill2(n.vi32, c.v); return std::ref(n.vi32);
    default: fill2(n.vi64, c.v); return std::ref(n.vi64);
  }
}
template <int P> using Def = std::map<std::string, typename sr::IColumnDefinition<P>::SupportedColumnTypes>;
template <int P> static Def<P> definition(const std::vector<Column>& cols) { Def<P> d; for (auto& c : cols) d[c.name] = (typename sr::IColumnDefinition<P>::SupportedColumnTypes)c.type; return d; }
template <int P> static std::vector<std::vector<unsigned char>> write(const std::vector<Column>& cols, size_t pad, int rows, const std::vector<Column>* def = nullptr) {
  sr::RowStructureDefinition<P> s(definition<P>(def ? *def : cols), pad); std::vector<Native> n(cols.size());
  std::unordered_map<std::string, typename sr::IColumnDefinition<P>::InputColumnDataType> in;
  for (size_t i = 0; i < cols.size(); i++) in.emplace(cols[i].name, input<P>(n[i], cols[i]));
  auto r = s.serializeDataAsBytesForUDP(in, rows);
  for (auto& x : r) check(x.size() == s.getRowSizeBytes(), "announced size of a row");
  return r;
}
template <class S> static std::vector<int64_t> open(const S& s, int to) { auto v = s.openToParty(to).getValue(); return std::vector<int64_t>(v.begin(), v.end()); }
template <class S> static Cells cells(const S& s, int to, size_t rows) { auto v = open(s, to); Cells r(rows); for (size_t i = 0; i < rows && i < v.size(); i++) r[i].push_back(v[i]); if (v.size() != rows) r.push_back({-7777}); return r; }
template <class S> static Cells cells(const std::vector<S>& s, int to, size_t rows) {
  Cells r(rows); for (auto& e : s) { auto v = open(e, to); for (size_t i = 0; i < rows && i < v.size(); i++) r[i].push_back(v[i]); if (v.size() != rows) r.push_back({-7777}); }
  return r;
}
static std::string show(const Cells& c) { std::string s; for (auto& r : c) s += vec(r); return s; }
template <int P> static fbpcf::frontend::BitString<true, P, true> bits(const std::vector<std::vector<unsigned char>>& b, size_t width, bool mine, int owner) {
  std::vector<std::vector<bool>> v(width * 8, std::vector<bool>(b.size()));
  for (size_t i = 0; i < width * 8; i++) for (size_t k = 0; k < b.size(); k++) v[i][k] = (b[k][i / 8] >> i % 8 & 1) ^ !mine;
  return fbpcf::frontend::BitString<true, P, true>(v, owner);
}
static int variantIndex(int t) { return t == BIT ? 0 : t == PACKED ? 5 : t <= I64 ? t - 1 : t; }
struct Case { BackendChoice b; int owner, to; std::vector<Column> cols; size_t pad; int rows; std::string nm; };
template <int P> static void go(const Case& c) {
  auto raw = write<P>(c.cols, c.pad, c.rows);
  size_t width = 0, nbits = 0; for (auto& k : c.cols) if (k.type == BIT) nbits++; else width += bytesOf(k.type) * (isVec(k.type) ? c.pad : 1);
  width += (nbits + 7) / 8; sr::RowStructureDefinition<P> s(definition<P>(c.cols), c.pad);
  check(s.getRowSizeBytes() == width && (int)raw.size() == c.rows, "size of rows", [&] { return c.nm + ": " + str(s.getRowSizeBytes()); });
  auto got = s.deserializeUDPOutputIntoMPCTypes(bits<P>(raw, width, c.b.plain || c.owner == P, c.owner));
  check(got.size() == c.cols.size(), "number of columns read", [&] { return c.nm; });
  for (auto& k : c.cols) {
    auto it = got.find(k.name); check(it != got.end(), "a column is missing", [&] { return c.nm + " " + k.name; }); if (it == got.end()) continue;
    check((int)it->second.index() == variantIndex(k.type), "type of a column read", [&] { return c.nm + " " + k.name; });
    auto v = std::visit([&](const auto& x) { return cells(x, c.to, c.rows); }, it->second);
    if (!c.b.plain && P != c.to) continue;
    evals(); state(mix(hashStr(c.nm + k.name), hashStr(show(v))));
    check(v == k.v, std::string("values of a column read, ") + names[k.type], [&] { return c.nm + " " + k.name + ": " + show(v) + " want " + show(k.v); });
  }
}
static std::vector<int64_t> palette(int t) {
  if (t == BIT) return {0, 1};
  if (t == U32 || t == VU32) return {0, 1, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x01020304, 0xfedcba98ll};
  if (t == I32 || t == VI32) return {0, 1, -1, 0x7f, -128, 255, 0x7fffffff, -0x80000000ll, -0x7fffffffll, 0x01020304, -19088744};
  return {0, 1, -1, 0xff, 0x80000000ll, -0x80000000ll, 0xffffffffll, 0x7fffffffffffffffll, (int64_t)0x8000000000000000ull, 0x0102030405060708ll, -0x0123456789abcdefll};
}
static Column make(const std::string& name, int type, int rows, size_t pad, int salt) {
  auto p = palette(type); Column c{name, type, {}}; int k = salt;
  for (int i = 0; i < rows; i++) { c.v.emplace_back(); for (size_t j = 0; j < (isVec(type) ? pad : 1); j++) c.v.back().push_back(p[(k++ * (type == BIT ? 5 : 1) / (type == BIT ? 3 : 1)) % p.size()]); }
  return c;
}
static const int kinds[] = {BIT, U32, U64, I32, I64, VU32, VU64, VI32, VI64};
static void run(Case& c, const std::string& nm) {
  c.owner = c.b.plain ? 0 : choose(2, "owner"); c.to = c.b.plain ? 0 : choose(2, "opened to");
  c.nm = nm + " rows " + str(c.rows) + " array length " + str(c.pad) + " backend " + str(c.b.b) + " owner " + str(c.owner) + " to " + str(c.to); note(c.nm);
  runBoth(c.b, [&] { go<0>(c); }, [&] { go<1>(c); });
}
static void layouts() {  // every list of column types
  Case c{chooseBackend()}; int n = 1 + choose(mc::thorough ? 4 : 3, "columns"); c.pad = 1 + choose(2, "array length"); c.rows = 2; std::string s = "columns";
  for (int i = 0; i < n; i++) { int t = kinds[choose(9, "type")]; s += std::string(" ") + names[t]; c.cols.push_back(make(std::string(1, 'a' + i), t, c.rows, c.pad, 3 * i + 1)); }
  c.owner = c.b.plain ? 0 : n % 2; c.to = c.b.plain ? 0 : (int)c.pad % 2; c.nm = s + " array length " + str(c.pad) + " backend " + str(c.b.b); note(c.nm);
  runBoth(c.b, [&] { go<0>(c); }, [&] { go<1>(c); });
}
static void manyBits() {  // bits are packed in bytes of eight
  Case c{chooseBackend()}; int n = 1 + choose(mc::thorough ? 26 : 18, "bits"), other = choose(4, "others"); c.pad = 2; c.rows = 3; int salt = choose(2, "values");
  for (int i = 0; i < n; i++) { std::string nm = (i < 10 ? "m0" : "m") + str(i); c.cols.push_back(Column{nm, BIT, {}}); for (int r = 0; r < c.rows; r++) c.cols.back().v.push_back({salt ? (i % 3 == r) : (i >> r & 1) ^ (i == n - 1)}); }
  if (other & 1) c.cols.push_back(make("a", U32, c.rows, c.pad, 4));
  if (other & 2) { c.cols.push_back(make("m07x", VI64, c.rows, c.pad, 1)); c.cols.push_back(make("z", I64, c.rows, c.pad, 2)); }
  run(c, str(n) + " bits, others " + str(other) + " values " + str(salt));
}
static void values() {  // every value of the palette of every type, every number of rows and array length
  Case c{chooseBackend()}; int t = kinds[choose(9, "type")]; auto p = palette(t); c.rows = 1 + choose(3, "rows"); c.pad = isVec(t) ? 1 + choose(4, "array length") : 1;
  int k = choose((int)p.size(), "value"); c.cols.push_back(make("x", t, c.rows, c.pad, k)); c.cols.push_back(make("w", U32, c.rows, c.pad, k));
  run(c, std::string(names[t]) + " from value " + str(k));
}
static void oneBit() {  // every single bit of an element
  Case c{chooseBackend()}; int t = kinds[1 + choose(8, "type")]; size_t w = bytesOf(t) * 8; c.pad = isVec(t) ? 2 : 1; c.rows = w;
  Column x{"x", t, {}};
  for (size_t i = 0; i < w; i++) { uint64_t v = 1ull << i; int64_t s = t == I32 || t == VI32 ? (int64_t)(int32_t)v : (int64_t)v; x.v.push_back(isVec(t) ? std::vector<int64_t>{0, s} : std::vector<int64_t>{s}); }
  c.cols.push_back(x); run(c, std::string(names[t]) + " single bits");
}
static void longRows() {  // many rows, long arrays
  Case c{chooseBackend()}; int t = kinds[choose(9, "type")]; c.rows = (int[]){1, 7, 8, 9, 65, 257}[choose(6, "rows")]; c.pad = isVec(t) ? (int[]){1, 7, 8, 9, 33, 65, 129}[choose(7, "array length")] : 3;
  assume((size_t)c.rows * (isVec(t) ? c.pad : 1) < 1000);
  c.cols.push_back(make("c", t, c.rows, c.pad, 2)); c.cols.push_back(make("d", U32, c.rows, c.pad, 1)); c.cols.push_back(make("b", BIT, c.rows, c.pad, 1)); if (isVec(t)) c.cols.push_back(make("a", VU32, c.rows, c.pad, 5));
  run(c, std::string(names[t]) + " long");
}
static void empty() {  // no rows: nothing is written
  int n = choose(3, "columns"); std::vector<Column> cols; for (int i = 0; i < n; i++) cols.push_back(Column{std::string(1, 'a' + i), kinds[choose(9, "type")], {}});
  evals(); state(n); check(write<0>(cols, 2, 0).empty(), "rows out of nothing");
}
// ---- what must be rejected
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static void mismatched() {
  int t = kinds[choose(9, "type")], u = kinds[choose(9, "other type")], what = choose(8, "fault"), rows = choose(3, "rows"); size_t pad = 1 + choose(2, "array length");
  std::string nm = std::string(names[t]) + " and " + names[u] + " fault " + str(what) + " rows " + str(rows) + " array length " + str(pad); note(nm);
  std::vector<Column> def{make("a", t, rows, pad, 1), make("b", u, rows, pad, 2)}, in = def; bool bad = true;
  if (what == 0) in.pop_back();
  if (what == 1) in.push_back(make("c", u, rows, pad, 3));
  if (what == 2) in[1].name = "c";
  if (what == 3) { in[0] = make("a", u, rows, pad, 1); bad = u != t; }
  if (what == 4) in[1] = make("b", u, rows + 1, pad, 1);
  if (what == 5) { in[1] = make("b", u, rows ? rows - 1 : 0, pad, 1); bad = rows > 0; }
  if (what == 6) { if (rows && isVec(u)) in[1].v.back().push_back(1); else bad = false; }
  if (what == 7) { if (rows && isVec(u)) in[1].v.back().pop_back(); else bad = false; }
  bool threw = throws([&] { write<0>(in, pad, rows, &def); });
  evals(); state(mix(hashStr(nm), threw)); check(threw == bad, std::string("data that does not fit the columns, fault ") + str(what), [&] { return nm + " threw " + str(threw); });
}
static void definitions() {  // packed fields cannot be asked for; unknown types neither; at most eight bits to a byte
  int t = choose(16, "type"), n = choose(12, "sub columns"); note("type " + str(t) + " sub columns " + str(n));
  bool threw = throws([&] { sr::RowStructureDefinition<0> s(Def<0>{{"a", (sr::IColumnDefinition<0>::SupportedColumnTypes)t}}); });
  check(threw == (t == PACKED || t > VI64), "column types accepted", [&] { return str(t); });
  std::vector<std::string> sub; for (int i = 0; i < n; i++) sub.push_back("s" + str(i));
  check(throws([&] { sr::PackedBitFieldColumn<0> p("p", sub); }) == (n > 8), "bits packed in a byte", [&] { return str(n); }); evals(2); state(mix(t, n));
}
// columns on their own: they write their own bytes only, and check what they get
template <class C> static void column(C& col, Column data, int rows, size_t off, size_t size, bool bad, const std::string& nm) {
  std::vector<std::vector<unsigned char>> buf(rows, std::vector<unsigned char>(off + size + 3, 0xa5)); Native n; auto in = input<0>(n, data);
  bool threw = throws([&] { col.serializeColumnAsPlaintextBytes(in, buf, off); });
  evals(); state(mix(hashStr(nm), threw)); check(threw == bad, "data that does not fit one column", [&] { return nm + " threw " + str(threw); }); if (bad || threw) return;
  check(col.getColumnSizeBytes() == size && col.getColumnName() == "x" && (int)col.getColumnType() == data.type, "description of a column", [&] { return nm; });
  for (int i = 0; i < rows; i++) for (size_t j = 0; j < buf[i].size(); j++) if (j < off || j >= off + size) check(buf[i][j] == 0xa5, "bytes outside a column written", [&] { return nm; });
  withScheduler<0>(PLAIN, std::make_shared<World>(), [&] {
    auto v = std::visit([&](const auto& x) { return cells(x, 0, rows); }, col.deserializeSharesToMPCType(buf, off));
    check(v == data.v, "values of one column", [&] { return nm + ": " + show(v) + " want " + show(data.v); });
  });
}
static void columns() {
  int t = choose(9, "type") + 1, rows = choose(4, "rows"), fault = choose(5, "fault"); size_t off = (size_t[]){0, 1, 7}[choose(3, "offset")], pad = 1 + choose(3, "length"); using M = fbpcf::frontend::MPCTypes<0>;
  std::string nm = std::string(names[t]) + " rows " + str(rows) + " offset " + str(off) + " length " + str(pad) + " fault " + str(fault); note(nm);
  Column d; bool bad = fault != 0;
  auto base = [&](int r) { if (t != PACKED) return make("x", t, r, pad, 2); Column c{"x", PACKED, {}}; for (int i = 0; i < r; i++) { c.v.emplace_back(); for (size_t j = 0; j < pad * 2; j++) c.v.back().push_back((i + j) % 3 == 0); } return c; };
  d = base(fault == 1 ? rows + 1 : fault == 2 ? std::max(0, rows - 1) : rows); if (fault == 2 && !rows) bad = false;
  if (fault == 3 || fault == 4) { if (rows == 0 || !(isVec(t) || t == PACKED)) bad = false; else if (fault == 3) d.v[0].push_back(1); else d.v[0].pop_back(); }
  if (t == PACKED) { std::vector<std::string> sub; for (size_t i = 0; i < pad * 2; i++) sub.push_back("s" + str(i)); sr::PackedBitFieldColumn<0> c("x", sub); column(c, d, rows, off, 1, bad, nm); }
  if (t == U32) { sr::IntegerColumn<0, false, 32> c("x"); column(c, d, rows, off, 4, bad, nm); }
  if (t == U64) { sr::IntegerColumn<0, false, 64> c("x"); column(c, d, rows, off, 8, bad, nm); }
  if (t == I32) { sr::IntegerColumn<0, true, 32> c("x"); column(c, d, rows, off, 4, bad, nm); }
  if (t == I64) { sr::IntegerColumn<0, true, 64> c("x"); column(c, d, rows, off, 8, bad, nm); }
  if (t == VU32) { sr::FixedSizeArrayColumn<0, M::SecUnsigned32Int, uint32_t> c("x", pad); column(c, d, rows, off, 4 * pad, bad, nm); }
  if (t == VU64) { sr::FixedSizeArrayColumn<0, M::SecUnsigned64Int, uint64_t> c("x", pad); column(c, d, rows, off, 8 * pad, bad, nm); }
  if (t == VI32) { sr::FixedSizeArrayColumn<0, M::Sec32Int, int32_t> c("x", pad); column(c, d, rows, off, 4 * pad, bad, nm); }
  if (t == VI64) { sr::FixedSizeArrayColumn<0, M::Sec64Int, int64_t> c("x", pad); column(c, d, rows, off, 8 * pad, bad, nm); }
}
// a string of another width is not a row of this layout
static void widths() {
  int t = kinds[choose(9, "type")], u = kinds[choose(9, "other type")], diff = choose(5, "width") - 2, rows = 1 + choose(2, "rows"); std::string nm = std::string(names[t]) + " " + names[u] + " width off by " + str(diff) + " rows " + str(rows); note(nm);
  std::vector<Column> def{make("a", t, rows, 1, 1), make("b", u, rows, 1, 2)}; sr::RowStructureDefinition<0> s(definition<0>(def), 1); long bitsN = (long)s.getRowSizeBytes() * 8 + (diff == -2 ? -8 : diff == 2 ? 8 : diff); bool threw = false;
  withScheduler<0>(PLAIN, std::make_shared<World>(), [&] {
    fbpcf::frontend::BitString<true, 0, true> str(std::vector<std::vector<bool>>(std::max(0l, bitsN), std::vector<bool>(rows, true)), 0);
    threw = throws([&] { s.deserializeUDPOutputIntoMPCTypes(str); });
  });
  evals(); state(mix(hashStr(nm), threw)); check(threw == (diff != 0), "secret rows of another width", [&] { return nm + " threw " + str(threw); });
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C27", {
#if PART == 0
    {"layouts", layouts}, {"many bits", manyBits}, {"single bits", oneBit},
#elif PART == 1
    {"values", values, 0, -1, false, 0, 5}, {"many rows", longRows, 0, -1, false, 0, 4}, {"no rows", empty},
#else
    {"mismatched data", mismatched}, {"definitions", definitions}, {"single columns", columns}, {"row widths", widths},
#endif
  });
}
