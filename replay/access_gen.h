// Access functions with a direct evaluation of their expressions, shared by the harnesses.
#pragma once
#include "common.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionAffineConstant.h"
#include "marco/Modeling/AccessFunctionConstant.h"
#include "marco/Modeling/AccessFunctionGeneric.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/MLIRContext.h"
#include <memory>
using namespace marco::modeling;
typedef std::vector<int64_t> P;
typedef std::set<P> S;
typedef std::vector<std::pair<int64_t, int64_t>> B;
static mlir::MLIRContext *ctx;
struct X { char k; int64_t v = 0; std::shared_ptr<X> a, b; std::shared_ptr<IndexSet> sp; int id = 0; bool dep = false; };
typedef std::shared_ptr<X> E;
struct F { unsigned dims; std::vector<E> res; std::vector<S> spaces; };
static E leaf(char k, int64_t v) { auto x = std::make_shared<X>(); x->k = k; x->v = v; return x; }
static E node(char k, E a, E b) { auto x = leaf(k, 0); x->a = a; x->b = b; return x; }
static std::string str(const E &e) { switch (e->k) { case 'c': return std::to_string(e->v); case 'd': return "d" + std::to_string(e->v); case 'r': return std::to_string(e->v) + ".." + std::to_string(e->id); case 'i': return "s" + std::to_string(e->id) + (e->dep ? "*" : "") + "[" + std::to_string(e->v) + "]"; } return "(" + str(e->a) + " " + e->k + " " + str(e->b) + ")"; }
static std::string str(const P &p) { std::string s = "("; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]); return s + ")"; }
static std::string str(const S &v) { std::string s = "{"; for (auto &p : v) { if (s.size() > 300) { s += ".."; break; } s += str(p); } return s + "}"; }
static std::string str(const F &f) { std::string s = std::to_string(f.dims) + "d->["; for (size_t i = 0; i < f.res.size(); ++i) s += (i ? ", " : "") + str(f.res[i]); s += "]"; for (size_t i = 0; i < f.spaces.size(); ++i) s += " s" + std::to_string(i) + "=" + str(f.spaces[i]); return s; }
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
// the values of one expression at a point, for given points of the dependent iteration spaces
static std::set<int64_t> val(const F &f, const E &e, const P &p, const std::vector<P> &cur) {
  std::set<int64_t> r;
  switch (e->k) {
  case 'c': return {e->v}; case 'd': return {p[e->v]};
  case 'r': for (int64_t x = e->v; x < e->id; ++x) r.insert(x); return r;
  case 'i': if (e->dep) return {cur[e->id][e->v]}; for (auto &q : f.spaces[e->id]) r.insert(q[e->v]); return r;
  }
  for (int64_t x : val(f, e->a, p, cur)) for (int64_t y : val(f, e->b, p, cur)) r.insert(e->k == '+' ? x + y : e->k == '-' ? x - y : e->k == '*' ? x * y : fdiv(x, y));
  return r;
}
static void deps(const E &e, std::set<int> &d) { if (e->k == 'i' && e->dep) d.insert(e->id); if (e->a) { deps(e->a, d); deps(e->b, d); } }
static bool has(const E &e, const char *ks) { return strchr(ks, e->k) || (e->a && (has(e->a, ks) || has(e->b, ks))); }
static bool has(const F &f, const char *ks) { for (auto &e : f.res) if (has(e, ks)) return true; return false; }
static S image(const F &f, const P &p) {
  S out; std::set<int> d; for (auto &e : f.res) deps(e, d); std::vector<int> ds(d.begin(), d.end()); std::vector<P> cur(f.spaces.size());
  std::function<void(size_t)> go = [&](size_t i) {
    if (i < ds.size()) { for (auto &q : f.spaces[ds[i]]) { cur[ds[i]] = q; go(i + 1); } return; }
    S acc{{}}; for (auto &e : f.res) { S n; auto vs = val(f, e, p, cur); for (auto &q : acc) for (int64_t v : vs) { P x = q; x.push_back(v); n.insert(x); } acc = n; } out.insert(acc.begin(), acc.end());
  };
  if (!f.res.empty()) go(0);
  return out;
}
static S image(const F &f, const S &s) { S r; for (auto &p : s) { S x = image(f, p); r.insert(x.begin(), x.end()); } return r; }
static std::unique_ptr<DimensionAccess> mk(const E &e) {
  switch (e->k) {
  case 'c': return std::make_unique<DimensionAccessConstant>(ctx, e->v); case 'd': return std::make_unique<DimensionAccessDimension>(ctx, e->v);
  case 'r': return std::make_unique<DimensionAccessRange>(ctx, Range(e->v, e->id));
  case 'i': { llvm::SetVector<uint64_t> dd; if (e->dep) dd.insert(0); return std::make_unique<DimensionAccessIndices>(ctx, e->sp, e->v, dd); }
  case '+': return std::make_unique<DimensionAccessAdd>(ctx, mk(e->a), mk(e->b)); case '-': return std::make_unique<DimensionAccessSub>(ctx, mk(e->a), mk(e->b));
  case '*': return std::make_unique<DimensionAccessMul>(ctx, mk(e->a), mk(e->b)); default: return std::make_unique<DimensionAccessDiv>(ctx, mk(e->a), mk(e->b));
  }
}
typedef llvm::SmallVector<std::unique_ptr<DimensionAccess>> R;
static R mk(const F &f) { R r; for (auto &e : f.res) r.push_back(mk(e)); return r; }
static Point pt(const P &p) { return Point(llvm::ArrayRef<int64_t>(p)); }
static P un(const Point &p) { P r; for (size_t i = 0; i < p.rank(); ++i) r.push_back(p[i]); return r; }
static S pts(const IndexSet &s) { S r; for (auto it = s.begin(), e = s.end(); it != e; ++it) r.insert(un(*it)); return r; }
static S pts(const MultidimensionalRange &b) { S r; for (auto it = b.begin(), e = b.end(); it != e; ++it) r.insert(un(*it)); return r; }
static Out same(const IndexSet &g, const S &w, std::string k, std::string at) { S s = pts(g); if (s != w) return bad(k, at + ": " + str(s) + " expected " + str(w)); return good(); }
static E expr(H &h, unsigned dims, int depth, int kind) { // kind 0: unit affine, 1: affine, 2: with ranges
  int k = h.rnd(depth ? 10 : 3); if (kind == 2 && h.rnd(6) == 0) { auto x = leaf('r', h.between(-3, 3)); x->id = x->v + 1 + h.rnd(3); return x; }
  if (k < 2 || (kind == 0 && depth == 0)) return dims && (depth == 0 || h.rnd(4)) ? leaf('d', h.rnd(dims)) : leaf('c', h.between(-4, 6));
  if (k == 2) return leaf('c', h.between(-4, 6));
  if (kind == 0) { E d = dims ? leaf('d', h.rnd(dims)) : leaf('c', 1), c = leaf('c', h.between(-4, 4)); switch (h.rnd(3)) { case 0: return node('+', d, c); case 1: return node('+', c, d); default: return node('-', d, c); } }
  E a = expr(h, dims, depth - 1, kind);
  if (kind != 2 && h.rnd(8) == 0) { E c = leaf('c', 1 + h.rnd(4)); return h.rnd(3) ? node('-', a, node('*', node('/', a, c), c)) : node('*', node('/', node('*', a, leaf('c', -1)), c), leaf('c', -1)); } // remainder, rounded up quotient
  if (k < 6) return node(k == 3 ? '-' : '+', a, expr(h, dims, depth - 1, kind));
  if (k < 8) return h.rnd(2) ? node('*', a, leaf('c', h.between(-3, 3))) : node('*', leaf('c', h.between(-3, 3)), a);
  return node('/', a, leaf('c', 1 + h.rnd(4)));
}
static F func(H &h, unsigned dims, unsigned nres, int kind) {
  F f; f.dims = dims; for (unsigned i = 0; i < nres; ++i) f.res.push_back(expr(h, dims, kind == 0 ? 1 : 1 + h.rnd(3), kind));
  if (kind == 0 && h.rnd(2) && dims) { std::vector<int> pm; for (unsigned i = 0; i < dims; ++i) pm.push_back(i); for (unsigned i = 0; i + 1 < dims; ++i) std::swap(pm[i], pm[i + h.rnd(dims - i)]); for (unsigned i = 0; i < nres; ++i) f.res[i] = i < dims ? node('+', leaf('d', pm[i]), leaf('c', h.between(-4, 4))) : f.res[i]; }
  return f;
}
static void addSpaces(H &h, F &f) { // iteration spaces with and without dependencies among their dimensions
  int n = 1 + h.rnd(2);
  for (int i = 0; i < n; ++i) { int rk = 1 + h.rnd(2); auto sp = std::make_shared<IndexSet>(); S w; int m = 1 + h.rnd(3); for (int j = 0; j < m; ++j) { P q; for (int d = 0; d < rk; ++d) q.push_back(h.between(-2, 4)); w.insert(q); *sp += pt(q); } f.spaces.push_back(w); bool dep = h.rnd(2);
    int uses = 1 + h.rnd(rk); for (int u = 0; u < uses; ++u) { auto x = leaf('i', u); x->id = i; x->sp = sp; x->dep = dep; E e = h.rnd(3) ? x : node('+', x, leaf('c', h.between(-2, 2))); f.res.insert(f.res.begin() + h.rnd(f.res.size() + 1), e); } }
}
static void once(H &h, F &f) { // every dimension is used at most once
  std::set<int64_t> used; std::function<void(E &)> go = [&](E &e) { if (e->k == 'd' && !used.insert(e->v).second) e = leaf('c', h.between(-3, 3)); if (e->a) { go(e->a); go(e->b); } }; for (auto &e : f.res) go(e);
}
static P point(H &h, unsigned n) { P p; for (unsigned i = 0; i < n; ++i) p.push_back(h.between(-7, 9)); return p; }
static S boxes(H &h, unsigned rank, int n, IndexSet &s, int lo = -4, int hi = 6) { llvm::SmallVector<MultidimensionalRange> v; S w; for (int i = 0; i < n; ++i) { llvm::SmallVector<Range> r; for (unsigned d = 0; d < rank; ++d) { int64_t b = h.between(lo, hi); r.emplace_back(b, b + 1 + h.rnd(3)); } v.push_back(MultidimensionalRange(r)); S x = pts(v.back()); w.insert(x.begin(), x.end()); } s = v.empty() ? IndexSet() : IndexSet(v); return w; }
typedef std::vector<std::pair<std::string, std::unique_ptr<AccessFunction>>> Kinds;
static Kinds kinds(const F &f) {
  Kinds k; R r = mk(f); auto add = [&](std::string n, std::unique_ptr<AccessFunction> a) { k.emplace_back(n, std::move(a)); };
  add("build", AccessFunction::build(ctx, f.dims, r)); add("generic", std::make_unique<AccessFunctionGeneric>(ctx, f.dims, r));
  if (AccessFunctionAffineConstant::canBeBuilt(r)) add("affine-constant", std::make_unique<AccessFunctionAffineConstant>(ctx, f.dims, r));
  if (AccessFunctionConstant::canBeBuilt(r)) add("constant", std::make_unique<AccessFunctionConstant>(ctx, f.dims, r));
  if (AccessFunctionRotoTranslation::canBeBuilt(f.dims, r)) add("roto-translation", std::make_unique<AccessFunctionRotoTranslation>(ctx, f.dims, r));
  if (k[0].second->isAffine()) add("from-affine-map", AccessFunction::build(k[0].second->getAffineMap()));
  if (k[1].second->isAffine()) add("from-generic-affine-map", AccessFunction::build(k[1].second->getAffineMap()));
  add("clone", k[0].second->clone());
  return k;
}
