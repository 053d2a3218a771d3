// C10-C14: access functions against direct evaluation of their expressions.
#include "access_gen.h"
static Out c10(H &h, const F &f) {
  Kinds k = kinds(f); size_t n0 = k.size();
  k.emplace_back("more-dimensions", k[0].second->getWithGivenDimensions(f.dims + 2)); auto ga = k[0].second->getGeneralizedAccesses(); R gr; for (auto &x : ga) gr.push_back(x->clone()); k.emplace_back("generalized", std::make_unique<AccessFunctionGeneric>(ctx, f.dims, gr));
  for (int t = 0; t < 4; ++t) { P p = point(h, f.dims + 2); S w = image(f, p); P q(p.begin(), p.begin() + f.dims);
    for (size_t i = 0; i < k.size(); ++i) { if (k[i].second->getNumOfResults() != f.res.size()) return bad("results:" + k[i].first, "number of results"); if (k[i].second->getNumOfDims() != f.dims + (i == n0 ? 2 : 0)) return bad("dims:" + k[i].first, "number of dimensions is " + std::to_string(k[i].second->getNumOfDims())); Out o = same(k[i].second->map(pt(i == n0 ? p : q)), w, "map:" + k[i].first, str(q)); if (!o.ok()) return o; } }
  return good(has(f, "d"));
}
static Out c11(H &h, const F &f, const F &g) {
  Kinds a = kinds(f), b = kinds(g);
  for (auto &x : a) for (auto &y : b) { auto c = x.second->combine(*y.second); if (!c) return bad("combine", "no result"); for (int t = 0; t < 2; ++t) { P p = point(h, f.dims); S w = image(g, image(f, p)); Out o = same(c->map(pt(p)), w, "combine", x.first + " with " + y.first + " at " + str(p)); if (!o.ok()) return o; } }
  return good(has(f, "d") && has(g, "d"));
}
static Out c12(H &h, const F &f, bool unit) {
  bool bij = f.res.size() == f.dims; std::set<int> used;
  for (auto &e : f.res) { int d = -1; E x = e; if (x->k == 'd') d = x->v; else if (x->a && x->a->k == 'd') d = x->a->v; else if (x->b && x->b->k == 'd') d = x->b->v; if (d < 0) bij = false; else used.insert(d); }
  bij = bij && used.size() == f.dims && f.dims > 0; Kinds k = kinds(f);
  for (auto &x : k) {
    bool inv = x.second->isInvertible(); auto iv = x.second->inverse();
    if (unit && inv && !bij && f.dims) return bad("invertible:" + x.first, "reported invertible"); if (inv != (bool)iv) return bad("inverse:" + x.first, inv ? "reported invertible without an inverse" : "an inverse of a function that is not invertible");
    if (unit && bij && (x.first == "build" || x.first == "roto-translation") && !inv) return bad("invertible:" + x.first, "a permutation with offsets is not reported invertible");
    if (!iv) continue; auto c1 = x.second->combine(*iv), c2 = iv->combine(*x.second);
    for (int t = 0; t < 3; ++t) { P p = point(h, f.dims); S w{p}; if (f.dims == 0) w.clear(); Out o = same(c1->map(pt(p)), w, "f-then-inverse", x.first + " at " + str(p)); if (!o.ok()) return o; o = same(c2->map(pt(p)), w, "inverse-then-f", x.first + " at " + str(p)); if (!o.ok()) return o; o = same(iv->map(x.second->map(pt(p))), w, "inverse-map", x.first + " at " + str(p)); if (!o.ok()) return o; }
  }
  return good(bij && f.dims > 1);
}
static Out c13(H &h, const F &f) {
  IndexSet s; S w = boxes(h, f.dims, h.rnd(5), s); Kinds k = kinds(f); S e = image(f, w);
  for (auto &x : k) { Out o = same(x.second->map(s), e, "map-set:" + x.first, "set " + str(w)); if (!o.ok()) return o; 
    if (auto *rt = x.second->dyn_cast<AccessFunctionRotoTranslation>()) for (auto it = s.rangesBegin(); it != s.rangesEnd(); ++it) { S b = pts(*it); S g = pts(rt->map(*it)); if (!(llvm::all_of(f.res, [](const E &) { return true; }) && g.size())) return bad("map-box", "empty image"); (void)b; } }
  return good(e.size() > 2);
}
static Out c13box(H &h, const F &f) { // boxes through accesses that use every dimension at most once
  std::multiset<int> used; for (auto &e : f.res) { if (e->k == 'd') used.insert(e->v); else if (e->a && e->a->k == 'd') used.insert(e->a->v); else if (e->b && e->b->k == 'd') used.insert(e->b->v); } for (int d : used) if (used.count(d) > 1) return good(false);
  R r = mk(f); if (!AccessFunctionRotoTranslation::canBeBuilt(f.dims, r)) return good(false); AccessFunctionRotoTranslation rt(ctx, f.dims, r); IndexSet s; boxes(h, f.dims, 1, s); if (s.empty()) return good(false);
  MultidimensionalRange b = *s.rangesBegin(); S g = pts(rt.map(b)), w = image(f, pts(b)); if (g != w) return bad("map-box", str(pts(b)) + " -> " + str(g) + " expected " + str(w)); return good(w.size() > 2);
}
static Out c14(H &h, const F &f) {
  IndexSet parent, acc; S w = boxes(h, f.dims, 1 + h.rnd(4), parent), img = image(f, w), a; int mode = h.rnd(3);
  if (mode == 0) a = boxes(h, f.res.size(), h.rnd(5), acc); else { for (auto &p : img) if (h.rnd(3)) { P q = p; if (mode == 2 && h.rnd(4) == 0) q[h.rnd(q.size())] += h.between(-2, 2); a.insert(q); acc += pt(q); } if (h.rnd(3) == 0) { P q; for (size_t i = 0; i < f.res.size(); ++i) q.push_back(h.between(-4, 6)); a.insert(q); acc += pt(q); } }
  S e; for (auto &p : w) { S i = image(f, p); bool in = true; for (auto &q : i) if (!a.count(q)) in = false; if (in) e.insert(p); }
  for (auto &x : kinds(f)) { Out o = same(x.second->inverseMap(acc, parent), e, "inverse-map:" + x.first, "accessed " + str(a) + ", candidates " + str(w)); if (!o.ok()) return o; }
  return good(e.size() && e.size() < w.size());
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    mlir::MLIRContext c(mlir::MLIRContext::Threading::DISABLED); ctx = &c;
    uint64_t lim = h.thorough() ? 3000000 : 60000, base = h.seed * 1000003;
    for (uint64_t i = 0; i < lim && h.more(); ++i) {
      uint64_t sd = base + i;
      auto go = [&h, sd, i](std::string *log) -> Out {
        h.rng.seed(sd); unsigned d = 1 + h.rnd(i % 8 == 7 ? 5 : 3), r = 1 + h.rnd(4); auto show = [&](const F &f) { if (log) *log += (log->empty() ? "" : "; ") + str(f); };
        if (h.prop == "C10") { F f = func(h, h.rnd(12) ? d : 0, r, i % 3); if (i % 5 == 4) addSpaces(h, f); show(f); return c10(h, f); }
        if (h.prop == "C11") { bool mv = h.rnd(3) == 0; F f = func(h, d, r, mv ? 2 : i % 2); if (mv && h.rnd(2)) addSpaces(h, f); r = f.res.size(); F g = func(h, r, 1 + h.rnd(3), i % 3); if (mv) once(h, g); if (h.rnd(5) == 0) addSpaces(h, g); show(f); show(g); return c11(h, f, g); }
        if (h.prop == "C12") { if (h.rnd(3)) r = d; F f = func(h, d, r, i % 8 ? 0 : 1); if (h.rnd(8) == 0 && r > 1) f.res[r - 1] = f.res[0]; show(f); return c12(h, f, i % 8); }
        if (h.prop == "C13") { F f = func(h, d, r, i % 2 ? 0 : i % 3); show(f); if (i % 4 == 1) return c13box(h, f); return c13(h, f); }
        F f = func(h, d, r, i % 4 ? 0 : 1 + h.rnd(2)); if (h.rnd(4) == 0) for (auto &e : f.res) if (h.rnd(2)) e = leaf('c', h.between(-3, 4)); show(f); return c14(h, f);
      };
      h.test([&] { std::string l; go(&l); return l; }, [&] { return go(nullptr); });
    }
  });
}
