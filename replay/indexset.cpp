// C06-C09: index sets and the spatial index against explicit sets of points.
#include "common.h"
#include "marco/Modeling/IndexSet.h"
#include "marco/Modeling/RTree.h"
#include <algorithm>
using namespace marco::modeling;
typedef std::vector<int64_t> P;
typedef std::set<P> S;
typedef std::vector<std::pair<int64_t, int64_t>> B;
struct Item { int id; MultidimensionalRange box; };
namespace marco::modeling { template <> struct RTreeInfo<Item> {
  static const MultidimensionalRange &getShape(const Item &v) { return v.box; }
  static bool isEqual(const Item &a, const Item &b) { return a.id == b.id; }
  static void dump(llvm::raw_ostream &, const Item &) {} }; }
struct ITree : r_tree::impl::RTreeCRTP<ITree, Item> { using RTreeCRTP::RTreeCRTP; using RTreeCRTP::contains; auto begin() const { return this->objectsBegin(); } auto end() const { return this->objectsEnd(); } };
static MultidimensionalRange box(const B &b) { llvm::SmallVector<Range> r; for (auto &x : b) r.emplace_back(x.first, x.second); return MultidimensionalRange(r); }
static Point pt(const P &p) { return Point(llvm::ArrayRef<int64_t>(p)); }
static P un(const Point &p) { P r; for (size_t i = 0; i < p.rank(); ++i) r.push_back(p[i]); return r; }
static B unb(const MultidimensionalRange &m) { B r; for (size_t i = 0; i < m.rank(); ++i) r.push_back({m[i].getBegin(), m[i].getEnd()}); return r; }
static void each(const B &b, size_t d, P &p, const std::function<void(const P &)> &f) { if (d == b.size()) { f(p); return; } for (int64_t x = b[d].first; x < b[d].second; ++x) { p.push_back(x); each(b, d + 1, p, f); p.pop_back(); } }
static S pts(const B &b) { S s; P p; each(b, 0, p, [&](const P &q) { s.insert(q); }); return s; }
static S uni(S a, const S &b) { a.insert(b.begin(), b.end()); return a; }
static S sub(const S &a, const S &b) { S r; for (auto &x : a) if (!b.count(x)) r.insert(x); return r; }
static S cut(const S &a, const S &b) { S r; for (auto &x : a) if (b.count(x)) r.insert(x); return r; }
static bool over(const B &a, const B &b) { for (size_t i = 0; i < a.size(); ++i) if (!(a[i].first < b[i].second && b[i].first < a[i].second)) return false; return true; }
static std::string str(const B &b) { std::string s = "["; for (size_t i = 0; i < b.size(); ++i) s += (i ? "," : "") + std::to_string(b[i].first) + ".." + std::to_string(b[i].second - 1); return s + "]"; }
static std::string str(const P &p) { std::string s = "("; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]); return s + ")"; }
static std::string str(const std::vector<B> &v) { std::string s = "{"; for (auto &b : v) s += str(b); return s + "}"; }
// ---- the tree
template <class Tree> static Out tree(const Tree &t) {
  auto *root = t.getRoot(); if (!root) return good(false);
  if (root->getParent()) return bad("tree", "the root has a parent");
  int leafDepth = -1; Out o = good(false); size_t n = 0;
  std::function<void(decltype(root), int)> go = [&](decltype(root) nd, int depth) {
    if (!o.ok()) return;
    size_t fan = nd->children.empty() ? nd->objects.size() : nd->children.size();
    if (!nd->children.empty() && !nd->objects.empty()) { o = bad("tree", "a node has children and objects"); return; }
    if (fan == 0) { o = bad("tree", "an empty node"); return; }
    if (nd != root && (fan < t.minElements || fan > t.maxElements)) { o = bad("tree-fill", "a node holds " + std::to_string(fan) + " elements"); return; }
    if (nd == root && fan > t.maxElements) { o = bad("tree-fill", "the root holds " + std::to_string(fan) + " elements"); return; }
    B m; auto grow = [&](const B &b) { if (m.empty()) { m = b; return; } for (size_t i = 0; i < m.size(); ++i) { m[i].first = std::min(m[i].first, b[i].first); m[i].second = std::max(m[i].second, b[i].second); } };
    if (nd->children.empty()) { if (leafDepth < 0) leafDepth = depth; else if (leafDepth != depth) { o = bad("tree-depth", "leaves at different depths"); return; } for (auto &ob : nd->objects) { ++n; grow(unb(ob.getBoundary())); } }
    for (auto &c : nd->children) { if (c->getParent() != nd) { o = bad("tree-parent", "a child does not point to its parent"); return; } go(c.get(), depth + 1); grow(unb(c->getBoundary())); }
    if (o.ok() && m != unb(nd->getBoundary())) o = bad("tree-box", "the box of a node is " + str(unb(nd->getBoundary())) + ", the smallest is " + str(m));
    size_t sz = 1; for (auto &x : m) sz *= x.second - x.first; if (o.ok() && nd->getCoveredSpaceSize() != sz) o = bad("tree-size", "stale covered space");
  };
  go(root, 0); if (o.ok()) o.nontrivial = n > t.maxElements; return o;
}
// ---- checks of one set against its points
static Out content(H &h, const IndexSet &s, const S &w, const B &u, bool heavy) {
  if (s.empty() != w.empty()) return bad("empty", "empty() is " + std::to_string(s.empty()) + " for " + std::to_string(w.size()) + " points");
  Out o = good(w.size() > 1);
  auto in = [&](const P &p) { if (o.ok() && s.contains(pt(p)) != (w.count(p) > 0)) o = bad("contains-point", "contains" + str(p) + " is " + std::to_string(s.contains(pt(p)))); };
  P p; size_t vol = 1; for (auto &x : u) vol *= x.second - x.first;
  if (heavy || vol <= 400) each(u, 0, p, in); else for (int i = 0; i < 60; ++i) { P q; for (auto &x : u) q.push_back(h.between(x.first, x.second - 1)); in(q); }
  return o;
}
static B rbox(H &h, const B &u, int maxLen) { B b; for (auto &x : u) { int64_t n = x.second - x.first, l = 1 + h.rnd(std::min<int64_t>(maxLen, n)), s = x.first + h.rnd(n - l + 1); b.push_back({s, s + l}); } return b; }
static Out boxQueries(H &h, const IndexSet &s, const S &w, const B &u, int maxLen, int n) {
  for (int i = 0; i < n; ++i) {
    B b = rbox(h, u, maxLen); S q = pts(b), c = cut(w, q);
    if (s.contains(box(b)) != (c.size() == q.size())) return bad("contains-box", "contains" + str(b) + " is " + std::to_string(s.contains(box(b))));
    if (s.overlaps(box(b)) != !c.empty()) return bad("overlaps-box", "overlaps" + str(b) + " is " + std::to_string(s.overlaps(box(b))));
  }
  return good(false);
}
static Out disjoint(const IndexSet &s, const S &w) {
  std::vector<B> rs; for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) { if (rs.size() > w.size()) return bad("ranges", "more boxes than points"); rs.push_back(unb(*it)); }
  size_t n = 0; S all; for (auto &b : rs) { for (auto &x : b) if (x.first >= x.second) return bad("ranges", "an empty box"); S q = pts(b); n += q.size(); all.insert(q.begin(), q.end()); }
  if (all.size() != n) return bad("overlapping-boxes", "the stored boxes overlap: " + str(rs));
  if (s.size() != w.size()) return bad("size", "size() is " + std::to_string(s.size()) + " for " + std::to_string(w.size()) + " points");
  if (all != w) return bad("ranges", "the stored boxes do not cover the points");
  S seen; size_t k = 0; for (auto it = s.begin(), e = s.end(); it != e; ++it) { if (++k > w.size()) return bad("points", "the traversal yields too many points"); seen.insert(un(*it)); }
  if (k != w.size() || seen != w) return bad("points", "the traversal yields " + std::to_string(k) + " points, " + std::to_string(seen.size()) + " different");
  if (w.size() > 400) return good();
  llvm::SmallVector<MultidimensionalRange> cr; s.getCompactRanges(cr); S ca; size_t cn = 0; for (auto &m : cr) { S q = pts(unb(m)); cn += q.size(); ca.insert(q.begin(), q.end()); }
  if (ca != w) return bad("compact", "the compact form denotes other points"); if (cn != w.size()) return bad("compact", "the boxes of the compact form overlap");
  return good(rs.size() > 1);
}
static IndexSet rebuild(H &h, const S &w) { llvm::SmallVector<Point> v; std::vector<P> o(w.begin(), w.end()); std::shuffle(o.begin(), o.end(), h.rng); for (auto &p : o) v.push_back(pt(p)); return IndexSet(v); }
// a random history on three sets
struct Prof { int rank; int64_t side; int maxLen; int ops; bool sparse; int bulk; };
static Out history(H &h, uint64_t seed, Prof pf, std::string *log) {
  h.rng.seed(seed); B u(pf.rank, {-1, pf.side - 1}); u[0].first -= 1;
  int cfg = h.rnd(12); IndexSet proto = cfg == 0 ? IndexSet(2, 4) : cfg == 1 ? IndexSet(8, 16) : IndexSet(); IndexSet s[3] = {proto, proto, proto}; S w[3]; bool init[3] = {}; Out o; auto say = [&](std::string x) { if (log) *log += x + "; "; };
  int ck = h.prop == "C06" ? 6 : h.prop == "C07" ? 7 : h.prop == "C08" ? 8 : 9; bool nt = false;
  auto rb = [&] { B b = rbox(h, u, pf.maxLen); if (pf.sparse) for (auto &x : b) { x.first &= ~1ll; if (x.first < u[0].first) x.first += 2; x.second = x.first + 1; } return b; };
  for (int op = 0; op < pf.ops; ++op) {
    int a = h.rnd(3), b = h.rnd(3), k = h.rnd(22); std::string A(1, 'A' + a), Bn(1, 'A' + b); IndexSet before = s[b]; S r = w[a]; bool mod = true;
    switch (k) {
    case 0: case 1: { std::vector<B> v; int n = h.rnd(pf.bulk); llvm::SmallVector<MultidimensionalRange> m; for (int i = 0; i < n; ++i) { v.push_back(rb()); m.push_back(box(v.back())); } say(A + "=" + str(v)); s[a] = IndexSet(m); r.clear(); for (auto &x : v) r = uni(r, pts(x)); break; }
    case 2: { llvm::SmallVector<Point> m; int n = h.rnd(pf.bulk * 2); r.clear(); std::string t; for (int i = 0; i < n; ++i) { P p; for (auto &x : rb()) p.push_back(x.first); m.push_back(pt(p)); r.insert(p); t += str(p); } say(A + "={" + t + "}"); s[a] = IndexSet(m); break; }
    case 3: case 4: case 5: case 6: { int n = pf.sparse ? 1 + h.rnd(40) : 1; for (int i = 0; i < n; ++i) { B x = rb(); say(A + "+=" + str(x)); s[a] += box(x); r = uni(r, pts(x)); } break; }
    case 7: { P p; for (auto &x : rb()) p.push_back(x.first); say(A + "+=" + str(p)); if (h.rnd(2)) s[a] += pt(p); else s[a] = s[a] + pt(p); r.insert(p); break; }
    case 8: say(A + "+=" + Bn); if (h.rnd(2)) s[a] += s[b]; else s[a] = s[a] + s[b]; r = uni(r, w[b]); break;
    case 9: case 10: case 11: { B x = rb(); if (h.rnd(3) == 0) x = rbox(h, u, pf.side); say(A + "-=" + str(x)); if (h.rnd(2)) s[a] -= box(x); else s[a] = s[a] - box(x); r = sub(r, pts(x)); break; }
    case 12: { if (w[a].empty()) { mod = false; break; } auto it = w[a].begin(); std::advance(it, h.rnd(w[a].size())); P p = *it; say(A + "-=" + str(p)); s[a] -= pt(p); r.erase(p); break; }
    case 13: case 14: say(A + "-=" + Bn); if (h.rnd(2)) s[a] -= s[b]; else s[a] = s[a] - s[b]; r = sub(r, w[b]); break;
    case 15: { B x = rbox(h, u, pf.side); say(A + "=" + Bn + "&" + str(x)); s[a] = s[b].intersect(box(x)); r = cut(w[b], pts(x)); break; }
    case 16: { int c = h.rnd(3); say(A + "=" + Bn + "&" + std::string(1, 'A' + c)); s[a] = s[b].intersect(s[c]); r = cut(w[b], w[c]); break; }
    case 17: { if (pf.sparse && pf.rank > 1) { mod = false; break; } B x = rbox(h, u, pf.side); say(A + "=~" + Bn + " in " + str(x)); s[a] = s[b].complement(box(x)); r = sub(pts(x), w[b]); break; }
    case 18: say(A + "=" + Bn); s[a] = s[b]; r = w[b]; break;
    case 19: say("clear " + A); s[a].clear(); r.clear(); break;
    case 20: case 21: mod = false; break;
    }
    S old = w[b]; w[a] = r;
    if (ck == 6) {
      if (mod) { o = content(h, s[a], w[a], u, false); if (!o.ok()) return o; nt |= o.nontrivial; if (a != b) { o = content(h, s[b], w[b], u, false); if (!o.ok()) { o.key = "operand-modified"; return o; } } }
      o = boxQueries(h, s[a], w[a], u, pf.maxLen + 1, 4); if (!o.ok()) return o;
      if (s[a].contains(s[b]) != (sub(w[b], w[a]).empty())) return bad("contains-set", A + ".contains(" + Bn + ") is " + std::to_string(s[a].contains(s[b])));
      if (s[a].overlaps(s[b]) != !cut(w[a], w[b]).empty()) return bad("overlaps-set", A + ".overlaps(" + Bn + ") is " + std::to_string(s[a].overlaps(s[b])));
      if (!(w[a].empty() && w[b].empty()) && ((s[a] == s[b]) != (w[a] == w[b]) || (s[a] != s[b]) == (w[a] == w[b]))) return bad("equality", A + "==" + Bn + " is " + std::to_string(s[a] == s[b]));
      if (!w[a].empty() && w[a].size() < 300) { IndexSet q = rebuild(h, w[a]); if (!(q == s[a]) || !(s[a] == q) || s[a] != q) return bad("equality", A + " differs from a set of the same points"); P x = *w[a].begin(); q -= pt(x); if (q == s[a] || s[a] == q) return bad("equality", A + " equals a set with fewer points"); if (s[a].contains(q) != true || (!w[a].empty() && q.contains(s[a]))) return bad("contains-set", "wrong inclusion for a set with one point less"); }
      if (w[a].size() && (s[a] == box(unb(*s[a].rangesBegin()))) != (w[a] == pts(unb(*s[a].rangesBegin())))) return bad("equality", "wrong comparison with a box");
    } else if (ck == 7) { if (mod) { o = disjoint(s[a], w[a]); if (!o.ok()) return o; nt |= o.nontrivial; if (a != b) { o = disjoint(s[b], old); if (!o.ok()) return o; } } }
    else if (ck == 8) {
      if (mod) { o = tree(s[a]); if (!o.ok()) return o; nt |= o.nontrivial; if (a != b) { o = tree(s[b]); if (!o.ok()) return o; } }
      for (int i = 0; i < 3; ++i) { B q = rbox(h, u, pf.maxLen + 2); std::multiset<B> g, e; for (auto it = s[a].rangesBegin(), en = s[a].rangesEnd(); it != en; ++it) if (over(unb(*it), q)) e.insert(unb(*it)); ((const IndexSet &)s[a]).walkOverlappingObjects(box(q), [&](const MultidimensionalRange &m) { g.insert(unb(m)); }); if (g != e) return bad("query", "a query with " + str(q) + " visits " + std::to_string(g.size()) + " of " + std::to_string(e.size()) + " boxes"); }
    }
  }
  return good(nt);
}
// C09
static S pick(const S &w, const std::vector<int> &d) { S r; for (auto &p : w) { P q; for (int i : d) q.push_back(p[i]); r.insert(q); } return r; }
static Out same(const IndexSet &s, const S &w, std::string k) {
  S g; size_t n = 0; for (auto it = s.begin(), e = s.end(); it != e; ++it) { if (++n > w.size() + 5) return bad(k, "too many points"); g.insert(un(*it)); }
  if (g != w) return bad(k, "the points differ: " + std::to_string(g.size()) + " of " + std::to_string(w.size())); if (n != w.size() || s.size() != w.size()) return bad(k, "points counted twice"); return good(w.size() > 1);
}
static Out dims(H &h, uint64_t seed, int rank, std::string *log) {
  h.rng.seed(seed); B u(rank, {0, 5}); auto mk = [&](int n, std::string nm, const B &un_) { llvm::SmallVector<MultidimensionalRange> m; S w; std::vector<B> v; for (int i = 0; i < n; ++i) { B b = rbox(h, un_, 3); v.push_back(b); m.push_back(box(b)); w = uni(w, pts(b)); } if (log) *log += nm + "=" + str(v) + " "; return std::make_pair(IndexSet(m), w); };
  auto [s, w] = mk(1 + h.rnd(6), "A", u); IndexSet keep = s; Out o;
  if (h.rnd(2)) { B b = rbox(h, u, 4); if (log) *log += "-=" + str(b) + " "; s -= box(b); w = sub(w, pts(b)); keep = s; }
  if (w.empty()) return good(false);
  std::vector<int> all; for (int i = 0; i < rank; ++i) all.push_back(i);
  for (int n = 1; n <= rank; ++n) { o = same(s.takeFirstDimensions(n), pick(w, std::vector<int>(all.begin(), all.begin() + n)), "takeFirst(" + std::to_string(n) + ")"); if (!o.ok()) return o; o = same(s.takeLastDimensions(n), pick(w, std::vector<int>(all.end() - n, all.end())), "takeLast(" + std::to_string(n) + ")"); if (!o.ok()) return o; }
  for (int n = 0; n < rank; ++n) { o = same(s.dropFirstDimensions(n), pick(w, std::vector<int>(all.begin() + n, all.end())), "dropFirst(" + std::to_string(n) + ")"); if (!o.ok()) return o; o = same(s.dropLastDimensions(n), pick(w, std::vector<int>(all.begin(), all.end() - n)), "dropLast(" + std::to_string(n) + ")"); if (!o.ok()) return o; }
  for (int m = 1; m < (1 << rank); ++m) { llvm::BitVector bv(rank); llvm::SmallBitVector sb(rank); std::vector<int> d; for (int i = 0; i < rank; ++i) if (m >> i & 1) { bv.set(i); sb.set(i); d.push_back(i); } o = same(s.slice(bv), pick(w, d), "slice"); if (!o.ok()) return o; o = same(s.takeDimensions(sb), pick(w, d), "takeDimensions"); if (!o.ok()) return o; }
  B u2(1 + h.rnd(2), {0, 4}); auto [t, v] = mk(h.rnd(4), "B", u2); S ap, pr; for (auto &p : w) for (auto &q : v) { P x = p; x.insert(x.end(), q.begin(), q.end()); ap.insert(x); P y = q; y.insert(y.end(), p.begin(), p.end()); pr.insert(y); }
  o = same(s.append(t), ap, "append"); if (!o.ok()) return o; o = same(s.prepend(t), pr, "prepend"); if (!o.ok()) return o; o = same(t.append(s), pr, "append"); if (!o.ok()) return o; o = same(t.prepend(s), ap, "prepend"); if (!o.ok()) return o;
  o = same(s, w, "operand-modified"); if (!o.ok()) return o; if (!(s == keep)) return bad("operand-modified", "the operand changed");
  return good(w.size() > 2 && rank > 1);
}
// C08: the generic tree
static Out items(H &h, uint64_t seed, std::string *log) {
  h.rng.seed(seed); static const int mm[][2] = {{1, 2}, {2, 4}, {4, 16}, {2, 5}, {3, 7}, {8, 16}, {5, 11}, {4, 9}}; auto m = mm[h.rnd(8)]; int rank = 1 + h.rnd(3); B u(rank, {-10, 30});
  ITree t(m[0], m[1]); std::map<int, B> live; int next = 0; if (log) *log += "min=" + std::to_string(m[0]) + " max=" + std::to_string(m[1]) + " rank=" + std::to_string(rank) + "; ";
  int ops = 3 + h.rnd(60); bool big = h.rnd(3) == 0; Out o; bool nt = false;
  for (int i = 0; i < ops; ++i) {
    int k = h.rnd(8);
    if (k == 0 && h.rnd(4) == 0) { std::vector<Item> v; int n = h.rnd(big ? 200 : 40); live.clear(); if (log) *log += "set " + std::to_string(n) + " boxes; "; for (int j = 0; j < n; ++j) { B b = rbox(h, u, 8); live[next] = b; v.push_back({next++, box(b)}); } t.setFromObjects(v); }
    else if (k < 5) { int n = big ? 1 + h.rnd(20) : 1; for (int j = 0; j < n; ++j) { B b = rbox(h, u, h.rnd(4) ? 6 : 30); live[next] = b; if (log) *log += "+" + str(b) + " "; t.insert(Item{next++, box(b)}); } }
    else if (!live.empty()) { int n = big ? 1 + h.rnd(30) : 1 + h.rnd(2); for (int j = 0; j < n && !live.empty(); ++j) { auto it = live.begin(); std::advance(it, h.rnd(live.size())); if (log) *log += "-" + str(it->second) + " "; t.remove(Item{it->first, box(it->second)}); live.erase(it); } }
    o = tree(t); if (!o.ok()) return o; nt |= o.nontrivial;
    if (t.size() != live.size()) return bad("items", "size() is " + std::to_string(t.size()) + " for " + std::to_string(live.size()) + " elements");
    std::set<int> ids; for (const Item &x : llvm::make_range(t.begin(), t.end())) ids.insert(x.id); if (ids.size() != live.size()) return bad("items", "the traversal yields " + std::to_string(ids.size()) + " of " + std::to_string(live.size()) + " elements");
    for (auto &x : live) if (!ids.count(x.first)) return bad("items", "an element is lost");
    for (int q = 0; q < 3; ++q) { B b = rbox(h, u, 1 + h.rnd(12)); std::multiset<int> g, e; for (auto &x : live) if (over(x.second, b)) e.insert(x.first); ((const ITree &)t).walkOverlappingObjects(box(b), [&](const Item &x) { g.insert(x.id); }); if (g != e) return bad("query", "a query with " + str(b) + " visits " + std::to_string(g.size()) + " of " + std::to_string(e.size()) + " elements"); }
    for (auto &x : live) { if (!t.contains(Item{x.first, box(x.second)})) return bad("query", "contains() misses an element"); break; }
    if (t.contains(Item{-1, box(B(rank, {-10, 30}))})) return bad("query", "contains() finds an element which is not there");
    if (h.rnd(10) == 0) { ITree c(t); o = tree(c); if (!o.ok()) return o; if (c.size() != live.size()) return bad("items", "a copy has another size"); if (!(c == t)) return bad("items", "a copy is not equal"); if (h.rnd(2)) t = c; else t = std::move(c); }
  }
  return good(nt);
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    uint64_t lim = h.thorough() ? 3000000 : 60000, base = h.seed * 1000003;
    auto hist = [&](uint64_t sd, Prof p) { h.test([&h, sd, p] { std::string l = "rank " + std::to_string(p.rank) + ": "; history(h, sd, p, &l); return l; }, [&h, sd, p] { return history(h, sd, p, nullptr); }); };
    if (h.prop == "C09") { for (uint64_t i = 0; i < lim && h.more(); ++i) { int r = 1 + i % 4; uint64_t sd = base + i; h.test([&h, sd, r] { std::string l; dims(h, sd, r, &l); return l; }, [&h, sd, r] { return dims(h, sd, r, nullptr); }); } return; }
    for (uint64_t i = 0; i < lim && h.more(); ++i) {
      uint64_t sd = base + i;
      if (h.prop == "C08" && i % 2) { h.test([&h, sd] { std::string l; items(h, sd, &l); return l; }, [&h, sd] { return items(h, sd, nullptr); }); continue; }
      switch (i % 12) {
      case 0: case 6: hist(sd, {1, 12, 4, 8, false, 6}); break;
      case 1: case 7: hist(sd, {2, 6, 3, 8, false, 6}); break;
      case 2: case 8: hist(sd, {3, 4, 3, 8, false, 5}); break;
      case 3: case 9: hist(sd, {2, 10, 5, 14, false, 12}); break;
      case 4: hist(sd, {1, 300, 1, 20, true, 60}); break;
      case 10: hist(sd, {2, 24, 1, 20, true, 60}); break;
      case 5: hist(sd, {3, 8, 1, 16, true, 40}); break;
      case 11: hist(sd, {2, 14, 2, 24, false, 40}); break;
      }
    }
  });
}
