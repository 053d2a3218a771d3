// C01..C05: ranges, points, boxes against an interval / point-set oracle.
#include "common.h"
#include "marco/Modeling/MultidimensionalRange.h"
#include "marco/Modeling/Point.h"
#include "marco/Modeling/Range.h"
#include <algorithm>
#include <optional>
using namespace marco::modeling;
typedef __int128 W;
static const int64_t MX = INT64_MAX, MN = INT64_MIN;
typedef std::pair<int64_t, int64_t> R;
typedef std::vector<int64_t> P;
typedef std::vector<R> B;
static std::string s(long long v) { return std::to_string(v); }
static std::string s(const R &r) { return "[" + s(r.first) + "," + s(r.second) + ")"; }
static std::string s(const P &p) { std::string o = "("; for (size_t i = 0; i < p.size(); ++i) o += (i ? "," : "") + s(p[i]); return o + ")"; }
static std::string s(const B &b) { std::string o; for (size_t i = 0; i < b.size(); ++i) o += (i ? "x" : "") + s(b[i]); return o.empty() ? "<rank 0>" : o; }
static R of(const Range &r) { return {r.getBegin(), r.getEnd()}; }
static P of(const Point &p) { return P(p.begin(), p.end()); }
static B of(const MultidimensionalRange &m) { B b; for (unsigned i = 0; i < m.rank(); ++i) b.push_back(of(m[i])); return b; }
static Range mk(const R &r) { return Range(r.first, r.second); }
static Point mk(const P &p) { return Point(llvm::ArrayRef<int64_t>(p)); }
static MultidimensionalRange mk(const B &b) { llvm::SmallVector<Range> v; for (auto &r : b) v.push_back(mk(r)); return MultidimensionalRange(v); }
static bool in(const R &r, int64_t v) { return r.first <= v && v < r.second; }
static bool in(const B &b, const P &p) { if (b.size() != p.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (!in(b[i], p[i])) return false; return true; }
static bool ov(const R &a, const R &b) { return std::max(a.first, b.first) < std::min(a.second, b.second); }
static bool sub(const R &a, const R &b) { return b.first <= a.first && a.second <= b.second; }
static int sgn(int64_t a, int64_t b) { return a < b ? -1 : a > b; }
static int cmp(const R &a, const R &b) { return a.first != b.first ? sgn(a.first, b.first) : sgn(a.second, b.second); }
static int cmp(const P &a, const P &b) { if (a.size() != b.size()) return sgn(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return sgn(a[i], b[i]); return 0; }
static int cmp(const B &a, const B &b) { if (a.size() != b.size()) return sgn(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) if (int c = cmp(a[i], b[i])) return c; return 0; }
static int sg(int v) { return v < 0 ? -1 : v > 0; }
#define CHECK(key, cond, det) do { if (!(cond)) return bad(key, det); } while (0)
#define EQ(key, got, want) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) return bad(key, "got " + s(g_) + " expected " + s(w_)); } while (0)
#define EQB(key, got, want) do { bool g_ = (got), w_ = (want); if (g_ != w_) return bad(key, std::string("got ") + (g_ ? "true" : "false") + " expected " + (w_ ? "true" : "false")); } while (0)

static Out rangePair(R a, R b) {
  Range x = mk(a), y = mk(b);
  EQ("Range::getBegin/End", of(x), a);
  EQB("Range::operator==(Range)", x == y, a == b);
  EQB("Range::operator!=(Range)", x != y, a != b);
  EQB("Range::contains(Range)", x.contains(y), sub(b, a));
  EQB("Range::overlaps", x.overlaps(y), ov(a, b));
  if (ov(a, b)) EQ("Range::intersect", of(x.intersect(y)), R(std::max(a.first, b.first), std::min(a.second, b.second)));
  bool touch = std::max(a.first, b.first) <= std::min(a.second, b.second);
  EQB("Range::canBeMerged", x.canBeMerged(y), touch);
  if (touch) EQ("Range::merge", of(x.merge(y)), R(std::min(a.first, b.first), std::max(a.second, b.second)));
  B want;
  if (!ov(a, b)) want.push_back(a);
  else { if (a.first < b.first) want.push_back({a.first, b.first}); if (b.second < a.second) want.push_back({b.second, a.second}); }
  B got; for (auto &r : x.subtract(y)) got.push_back(of(r));
  B so = got; std::sort(so.begin(), so.end());
  bool nonempty = true; for (auto &r : so) nonempty &= r.first < r.second;
  CHECK("Range::subtract", nonempty, "empty piece in " + s(got));
  // compare as sets of integers: merge adjacent pieces, require disjointness
  B norm; for (auto &r : so) { if (!norm.empty() && norm.back().second > r.first) return bad("Range::subtract", "overlapping pieces " + s(got)); if (!norm.empty() && norm.back().second == r.first) norm.back().second = r.second; else norm.push_back(r); }
  CHECK("Range::subtract", norm == want, "got " + s(got) + " expected " + s(want));
  return good(ov(a, b) && a != b);
}
static Out rangePoint(R a, int64_t v) {
  Range x = mk(a);
  EQB("Range::contains(value)", x.contains(v), in(a, v));
  bool one = a.first == v && (W)a.second == (W)v + 1;
  EQB("Range::operator==(value)", x == v, one);
  EQB("Range::operator!=(value)", x != v, !one);
  W n = (W)a.second - a.first;
  if (n <= (W)MX) CHECK("Range::size", (W)x.size() == n, "got " + std::to_string(x.size()));
  return good(in(a, v));
}
static Out rangeOrder(R a, R b) {
  Range x = mk(a), y = mk(b);
  int c = cmp(a, b);
  EQB("Range::operator<", x < y, c < 0); EQB("Range::operator>", x > y, c > 0);
  CHECK("Range::compare", sg(x.compare(y)) == c, "got " + std::to_string(x.compare(y)));
  EQB("Range::operator==", x == y, c == 0); EQB("Range::operator!=", x != y, c != 0);
  return good(c != 0);
}
static Out pointOrder(P a, P b) {
  Point x = mk(a), y = mk(b); int c = cmp(a, b);
  EQB("Point::operator<", x < y, c < 0);
  CHECK("Point::compare", sg(x.compare(y)) == c, "got " + std::to_string(x.compare(y)));
  EQB("Point::operator==", x == y, c == 0); EQB("Point::operator!=", x != y, c != 0);
  return good(c != 0);
}
static Out boxOrder(B a, B b) {
  auto x = mk(a), y = mk(b); int c = cmp(a, b);
  EQB("Box::operator<", x < y, c < 0); EQB("Box::operator>", x > y, c > 0);
  CHECK("Box::compare", sg(x.compare(y)) == c, "got " + std::to_string(x.compare(y)));
  EQB("Box::operator==", x == y, c == 0); EQB("Box::operator!=", x != y, c != 0);
  return good(c != 0);
}
static Out boxPair(B a, B b) {
  auto x = mk(a), y = mk(b); size_t n = a.size();
  bool subset = true, over = true, any = false; int diff = 0; size_t dd = 0; bool touch = true;
  for (size_t i = 0; i < n; ++i) { subset &= sub(b[i], a[i]); over &= ov(a[i], b[i]); any |= ov(a[i], b[i]); if (a[i] != b[i]) { diff++; dd = i; touch &= std::max(a[i].first, b[i].first) <= std::min(a[i].second, b[i].second); } }
  EQB("Box::operator==(Box)", x == y, a == b); EQB("Box::operator!=(Box)", x != y, a != b);
  EQB("Box::contains(Box)", x.contains(y), subset);
  EQB("Box::overlaps", x.overlaps(y), over);
  EQB("Box::anyDimensionOverlaps", x.anyDimensionOverlaps(y), any);
  if (over) { B w; for (size_t i = 0; i < n; ++i) w.push_back({std::max(a[i].first, b[i].first), std::min(a[i].second, b[i].second)}); EQ("Box::intersect", of(x.intersect(y)), w); }
  auto m = x.canBeMerged(y);
  bool can = diff == 1 && touch;
  if (diff >= 1) EQB("Box::canBeMerged", m.first, can); // identical boxes: either answer is the same box
  if (m.first) {
    if (diff == 1) CHECK("Box::canBeMerged dimension", m.second == dd, "got " + std::to_string(m.second));
    B w = a; for (size_t i = 0; i < n; ++i) w[i] = {std::min(a[i].first, b[i].first), std::max(a[i].second, b[i].second)};
    EQ("Box::merge", of(x.merge(y, m.second)), w);
  }
  return good(over && a != b);
}
static W vol(const B &b) { W v = 1; for (auto &r : b) v *= (W)r.second - r.first; return v; }
static Out boxPoint(B a, P p) {
  auto x = mk(a);
  EQ("Box::operator[]", of(x), a);
  EQB("Box::contains(Point)", x.contains(mk(p)), in(a, p));
  bool one = true; for (size_t i = 0; i < a.size(); ++i) one &= a[i].first == p[i] && a[i].second == p[i] + 1;
  EQB("Box::operator==(Point)", x == mk(p), one); EQB("Box::operator!=(Point)", x != mk(p), !one);
  W v = vol(a); if (v <= (W)UINT64_MAX) CHECK("Box::size", (W)x.size() == v, "got " + std::to_string(x.size()));
  llvm::SmallVector<size_t> sz; x.getSizes(sz); CHECK("Box::getSizes", sz.size() == a.size(), "wrong count"); for (size_t i = 0; i < a.size(); ++i) CHECK("Box::getSizes", (W)sz[i] == (W)a[i].second - a[i].first, "dimension " + std::to_string(i));
  B pb; for (auto v2 : p) pb.push_back({v2, v2 + 1}); EQ("Box(Point)", of(MultidimensionalRange(mk(p))), pb);
  CHECK("Box::rank", x.rank() == a.size(), "");
  return good(in(a, p));
}
static Out boxDims(B a, B b, unsigned mask) {
  auto x = mk(a), y = mk(b); size_t n = a.size();
  llvm::BitVector bv(n); llvm::SmallBitVector sb(n); B w; for (size_t i = 0; i < n; ++i) if (mask >> i & 1) { bv.set(i); sb.set(i); w.push_back(a[i]); }
  if (!w.empty()) { EQ("Box::slice(filter)", of(x.slice(bv)), w); EQ("Box::takeDimensions", of(x.takeDimensions(sb)), w); }
  for (size_t k = 1; k <= n; ++k) {
    EQ("Box::slice(n)", of(x.slice(k)), B(a.begin(), a.begin() + k));
    EQ("Box::takeFirstDimensions", of(x.takeFirstDimensions(k)), B(a.begin(), a.begin() + k));
    EQ("Box::takeLastDimensions", of(x.takeLastDimensions(k)), B(a.end() - k, a.end()));
  }
  for (size_t k = 0; k < n; ++k) { EQ("Box::dropFirstDimensions", of(x.dropFirstDimensions(k)), B(a.begin() + k, a.end())); EQ("Box::dropLastDimensions", of(x.dropLastDimensions(k)), B(a.begin(), a.end() - k)); }
  B ab = a; ab.insert(ab.end(), b.begin(), b.end()); B ba = b; ba.insert(ba.end(), a.begin(), a.end());
  EQ("Box::append", of(x.append(y)), ab); EQ("Box::prepend", of(x.prepend(y)), ba);
  return good(true);
}
static bool pts(const B &b, std::vector<P> &out, size_t cap) { // all points in lexicographic order
  if (vol(b) > (W)cap) return false;
  P p; for (auto &r : b) p.push_back(r.first);
  for (;;) { out.push_back(p); int i = (int)b.size() - 1; while (i >= 0 && p[i] + 1 == b[i].second) { p[i] = b[i].first; --i; } if (i < 0) return true; p[i]++; }
}
static Out boxSub(B a, B b) {
  auto x = mk(a), y = mk(b); bool over = true; for (size_t i = 0; i < a.size(); ++i) over &= ov(a[i], b[i]);
  auto res = x.subtract(y); std::vector<B> v; for (auto &m : res) v.push_back(of(m));
  W total = 0; std::string all; for (auto &m : v) all += s(m) + " ";
  B inter; if (over) for (size_t i = 0; i < a.size(); ++i) inter.push_back({std::max(a[i].first, b[i].first), std::min(a[i].second, b[i].second)});
  for (auto &m : v) {
    CHECK("Box::subtract rank", m.size() == a.size(), all); bool inb = true, ovb = true;
    for (size_t i = 0; i < m.size(); ++i) { CHECK("Box::subtract empty piece", m[i].first < m[i].second, all); inb &= sub(m[i], a[i]); ovb &= ov(m[i], b[i]); }
    CHECK("Box::subtract piece outside", inb, all); CHECK("Box::subtract piece keeps subtracted points", !ovb, all); total += vol(m);
  }
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) { bool o = true; for (size_t k = 0; k < a.size(); ++k) o &= ov(v[i][k], v[j][k]); CHECK("Box::subtract pieces overlap", !o, all); }
  CHECK("Box::subtract loses points", total == vol(a) - (over ? vol(inter) : 0), all);
  return good(over && a != b);
}
static Out iterR(R a) {
  Range x = mk(a); int64_t w = a.first; uint64_t n = 0;
  for (auto it = x.begin(), e = x.end(); it != e; ++it) { CHECK("Range iteration", w < a.second && *it == w, "got " + s(*it)); ++w; if (++n > 100000) return bad("Range iteration", "does not stop"); }
  CHECK("Range iteration", w == a.second, "stops at " + s(w));
  w = a.first; for (auto it = x.begin(), e = x.end(); it != e;) { auto o = it++; CHECK("Range iteration (post-increment)", *o == w, "got " + s(*o)); ++w; }
  CHECK("Range iteration (post-increment)", w == a.second, "stops at " + s(w));
  EQB("Range iterator ==", x.begin() == x.end(), false); EQB("Range iterator ==", x.begin() == x.begin(), true);
  return good(a.second - a.first > 1);
}
static Out iterB(B a) {
  auto x = mk(a); std::vector<P> want; if (!pts(a, want, 200000)) return good(false);
  size_t k = 0;
  for (auto it = x.begin(), e = x.end(); it != e; ++it) { CHECK("Box iteration", k < want.size(), "visits more than " + s(want.size()) + " points"); P g = of(*it); CHECK("Box iteration", g == want[k], "visit " + s(k) + ": got " + s(g) + " expected " + s(want[k])); ++k; }
  CHECK("Box iteration", k == want.size(), "stops after " + s(k) + " points");
  k = 0; for (auto it = x.begin(), e = x.end(); it != e;) { auto o = it++; CHECK("Box iteration (post-increment)", k < want.size() && of(*o) == want[k], "visit " + s(k)); ++k; if (k > want.size()) break; }
  EQB("Box iterator ==", x.begin() == x.end(), false); EQB("Box iterator ==", x.begin() == x.begin(), true); EQB("Box iterator !=", x.begin() != x.begin(), false);
  return good(a.size() > 1 && want.size() > 1);
}

static std::vector<R> smallRanges(int lo, int hi) { std::vector<R> v; for (int a = lo; a < hi; ++a) for (int b = a + 1; b <= hi; ++b) v.push_back({a, b}); return v; }
static std::vector<int64_t> extremes() { return {MN, MN + 1, MN / 2, -4294967297ll, -2147483649ll, -2147483648ll, -1, 0, 1, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, MX / 2, MX / 2 + 1, MX - 1, MX}; }
static R rr(H &h, int lo, int hi) { int64_t a = h.between(lo, hi - 1); return {a, h.between(a + 1, hi)}; }
static R rx(H &h) { // random range, wide
  static const std::vector<int64_t> e = extremes();
  for (;;) { int64_t a = e[h.rnd(e.size())], b = e[h.rnd(e.size())]; W x = (W)a + h.between(-3, 3), y = (W)b + h.between(-3, 3); if (x < MN || x > MX || y < MN || y > MX || x >= y) continue; return {(int64_t)x, (int64_t)y}; }
}
static B rb(H &h, size_t n, int lo, int hi) { B b; for (size_t i = 0; i < n; ++i) b.push_back(rr(h, lo, hi)); return b; }

int main(int argc, char **argv) { return harness_main(argc, argv, [](H &h) {
  auto sr = smallRanges(-2, 3);
  if (h.prop == "C01") {
    auto big = smallRanges(-4, 5); std::vector<R> ex; auto e = extremes(); for (auto a : e) for (auto b : e) if (a < b) ex.push_back({a, b});
    for (auto *set : {&big, &ex}) for (auto &a : *set) for (auto &b : *set) { h.test([&] { return s(a) + " with " + s(b); }, [&] { return rangePair(a, b); }); }
    for (auto &a : big) for (int v = -6; v < 7; ++v) h.test([&] { return s(a) + " with value " + s(v); }, [&] { return rangePoint(a, v); });
    for (auto &a : ex) for (auto v : e) h.test([&] { return s(a) + " with value " + s(v); }, [&] { return rangePoint(a, v); });
    while (h.more()) { R a = rx(h), b = rx(h); int64_t v = h.rnd(2) ? a.first + h.between(0, 1) : a.second - 1; h.test([&] { return s(a) + " with " + s(b); }, [&] { return rangePair(a, b); }); h.test([&] { return s(a) + " with value " + s(v); }, [&] { return rangePoint(a, v); }); if (!h.thorough() && h.cur > 400000) break; }
  }
  if (h.prop == "C05") {
    auto big = smallRanges(-3, 4); std::vector<R> ex; auto e = extremes(); for (auto a : e) for (auto b : e) if (a < b) ex.push_back({a, b});
    for (auto *set : {&big, &ex}) for (auto &a : *set) for (auto &b : *set) h.test([&] { return "ranges " + s(a) + ", " + s(b); }, [&] { return rangeOrder(a, b); });
    std::vector<P> ps = {{}}; for (size_t n = 1; n <= 3; ++n) { std::vector<P> q; for (auto &p : ps) if (p.size() == n - 1) for (int v = -1; v <= 1; ++v) { P x = p; x.push_back(v); q.push_back(x); } ps.insert(ps.end(), q.begin(), q.end()); }
    for (auto v : e) { ps.push_back({v}); ps.push_back({0, v}); }
    for (auto &a : ps) for (auto &b : ps) h.test([&] { return "points " + s(a) + ", " + s(b); }, [&] { return pointOrder(a, b); });
    while (h.more()) {
      size_t n = 1 + h.rnd(5), m = h.rnd(3) ? n : 1 + h.rnd(5); B a, b; for (size_t i = 0; i < n; ++i) a.push_back(h.rnd(6) ? rr(h, -1, 2) : rx(h)); for (size_t i = 0; i < m; ++i) b.push_back(i < n && h.rnd(2) ? a[i] : h.rnd(6) ? rr(h, -1, 2) : rx(h));
      h.test([&] { return "boxes " + s(a) + ", " + s(b); }, [&] { return boxOrder(a, b); });
      P p, q; for (size_t i = 0; i < n + 2; ++i) p.push_back(h.rnd(4) ? h.between(-1, 1) : e[h.rnd(e.size())]); q = p; if (h.rnd(3) == 0) q.resize(m); else q[h.rnd(q.size())] = e[h.rnd(e.size())];
      h.test([&] { return "points " + s(p) + ", " + s(q); }, [&] { return pointOrder(p, q); });
      if (!h.thorough() && h.cur > 300000) break;
    }
  }
  if (h.prop == "C02" || h.prop == "C03") {
    auto pairCase = [&](B a, B b) { if (h.prop == "C03") h.test([&] { return s(a) + " minus " + s(b); }, [&] { return boxSub(a, b); }); else h.test([&] { return s(a) + " with " + s(b); }, [&] { return boxPair(a, b); }); };
    for (auto &a : sr) for (auto &b : sr) pairCase({a}, {b});
    for (auto &a : sr) for (auto &b : sr) for (auto &c : sr) for (auto &d : sr) pairCase({a, b}, {c, d});
    if (h.prop == "C02") {
      for (auto &a : sr) for (auto &b : sr) for (int v = -3; v < 4; ++v) for (int w = -3; w < 4; ++w) h.test([&] { return s(B{a, b}) + " with " + s(P{v, w}); }, [&] { return boxPoint({a, b}, {v, w}); });
      for (auto &a : sr) for (int v = -3; v < 4; ++v) h.test([&] { return s(B{a}) + " with " + s(P{v}); }, [&] { return boxPoint({a}, {v}); });
    }
    while (h.more()) {
      size_t n = 1 + h.rnd(5); B a = rb(h, n, -3, 4), b = rb(h, n, -3, 4);
      for (size_t i = 0; i < n; ++i) { if (h.rnd(3) == 0) b[i] = a[i]; if (h.rnd(20) == 0) { a[i] = rx(h); if (h.rnd(2)) b[i] = rx(h); } }
      bool big = false; for (auto *q : {&a, &b}) { W v = 1; for (auto &r : *q) { v *= (W)r.second - r.first; if (v > ((W)1 << 62)) { big = true; break; } } }
      if (!big) pairCase(a, b);
      if (h.prop == "C02" && !big) {
        P p; for (size_t i = 0; i < n; ++i) p.push_back(h.rnd(4) ? h.between(a[i].first, a[i].second - 1) : h.between(-4, 5)); if (h.rnd(3) == 0) for (size_t i = 0; i < n; ++i) if (h.rnd(3)) a[i] = {p[i], p[i] + 1};
        h.test([&] { return s(a) + " with " + s(p); }, [&] { return boxPoint(a, p); });
        unsigned mask = h.rnd(1u << n); B c = rb(h, 1 + h.rnd(3), -3, 4); h.test([&] { return s(a) + ", " + s(c) + " dimension mask " + s(mask); }, [&] { return boxDims(a, c, mask); });
      }
      if (!h.thorough() && h.cur > 300000) break;
    }
  }
  if (h.prop == "C04") {
    for (auto &a : smallRanges(-6, 6)) h.test([&] { return s(a); }, [&] { return iterR(a); });
    for (auto v : extremes()) for (int n = 1; n < 4; ++n) if ((W)v + n <= MX) h.test([&] { return s(R(v, v + n)); }, [&] { return iterR({v, v + n}); });
    for (auto &a : sr) { h.test([&] { return s(B{a}); }, [&] { return iterB({a}); }); for (auto &b : sr) { h.test([&] { return s(B{a, b}); }, [&] { return iterB({a, b}); }); for (auto &c : sr) h.test([&] { return s(B{a, b, c}); }, [&] { return iterB({a, b, c}); }); } }
    while (h.more()) { size_t n = 1 + h.rnd(6); B a; W v = 1; for (size_t i = 0; i < n; ++i) { a.push_back(rr(h, -3, h.rnd(4) ? 1 : 8)); v *= a[i].second - a[i].first; if (h.rnd(30) == 0) { int64_t b = extremes()[h.rnd(17)]; a[i] = {b, b + 1}; } } if (v > 5000) continue; h.test([&] { return s(a); }, [&] { return iterB(a); }); if (!h.thorough() && h.cur > 60000) break; }
  }
}); }
