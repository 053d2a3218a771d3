// C16-C18: incidence matrices and local matching solutions against explicit sets of pairs.
#include "access_gen.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/LocalMatchingSolutionsImpl.h"
#include "marco/Modeling/MCIM.h"
using namespace marco::modeling::internal;
typedef std::set<std::pair<P, P>> Q;
static std::string str(const Q &q) { std::string s = "{"; for (auto &p : q) { if (s.size() > 300) { s += ".."; break; } s += str(p.first) + str(p.second) + " "; } return s + "}"; }
struct Mx { std::unique_ptr<MCIM> m; Q q; S eq, va; };
static Q pairs(const MCIM &m, const S &eq, const S &va) { Q q; for (auto &e : eq) for (auto &v : va) if (m.get(pt(e), pt(v))) q.insert({e, v}); return q; }
static Out check(const Mx &x, const std::string &op) {
  if (pts(x.m->getEquationSpace()) != x.eq || pts(x.m->getVariableSpace()) != x.va) return bad("space:" + op, "wrong index spaces after " + op);
  Q g = pairs(*x.m, x.eq, x.va); if (g != x.q) return bad("pairs:" + op, "after " + op + ": " + str(g) + " expected " + str(x.q));
  if (x.m->empty() != x.q.empty()) return bad("empty:" + op, "empty() after " + op + " with " + str(x.q));
  return good();
}
static S rows(const Q &q) { S s; for (auto &p : q) s.insert(p.second); return s; }
static S cols(const Q &q) { S s; for (auto &p : q) s.insert(p.first); return s; }
static Out flat(const Mx &x) { Out o = same(x.m->flattenRows(), rows(x.q), "flattenRows", str(x.q)); if (!o.ok()) return o; return same(x.m->flattenColumns(), cols(x.q), "flattenColumns", str(x.q)); }
static P any(H &h, const S &s) { auto it = s.begin(); std::advance(it, h.rnd(s.size())); return *it; }
static S meet(const S &a, const S &b) { S r; for (auto &p : a) if (b.count(p)) r.insert(p); return r; }
static std::unique_ptr<AccessFunction> rep(H &h, const F &f) { Kinds k = kinds(f); return std::move(k[h.rnd(k.size())].second); }
static F small(H &h, unsigned er, unsigned vr, int kind) { // values near the variable space
  F f = func(h, er, vr, kind); if (h.rnd(3) == 0) for (auto &e : f.res) if (h.rnd(2)) e = leaf('c', h.between(0, 3)); else e = h.rnd(2) ? leaf('d', h.rnd(er)) : node('+', leaf('d', h.rnd(er)), leaf('c', h.between(-1, 1))); return f;
}
static Out history(H &h, std::string *log) {
  auto say = [&](const std::string &s) { if (log) *log += s + "; "; };
  unsigned er = 1 + h.rnd(2), vr = 1 + h.rnd(2); IndexSet eqs, vas; S eq, va; auto lay = [&](unsigned r, IndexSet &s) { return boxes(h, r, 1 + h.rnd(2), s, 0, r == 1 ? 3 : 1); }; eq = lay(er, eqs); va = lay(vr, vas);
  auto fresh = [&] { Mx x; x.m = std::make_unique<MCIM>(eqs, vas); x.eq = eq; x.va = va; return x; };
  std::vector<Mx> ms; ms.push_back(fresh()); ms.push_back(fresh()); std::vector<F> fs; for (int i = 0; i < 4; ++i) fs.push_back(small(h, er, vr, h.rnd(3) ? 0 : 1));
  say("E=" + str(eq)); say("V=" + str(va)); bool nt = false, spaces = h.prop == "C17";
  auto addAccess = [&](Mx &x, const F &f, const S &on) { for (auto &e : on) { S i = image(f, e); for (auto &v : i) if (x.va.count(v)) x.q.insert({e, v}); } };
  int n = 3 + h.rnd(14);
  for (int i = 0; i < n; ++i) {
    int k = h.rnd(ms.size()), j = h.rnd(ms.size()); Mx &a = ms[k], &b = ms[j]; bool comparable = a.eq == b.eq && a.va == b.va; std::string w = "m" + std::to_string(k), op, op2 = "m" + std::to_string(j); if (a.eq.empty() || a.va.empty()) { ms[k] = fresh(); continue; }
    switch (h.rnd(spaces ? 15 : 11)) {
    case 0: case 1: { P e = any(h, a.eq), v = any(h, a.va); op = "set"; say(w + ".set" + str(e) + str(v)); a.m->set(pt(e), pt(v)); a.q.insert({e, v}); break; }
    case 2: { P e = any(h, a.eq), v = any(h, a.va); if (a.q.size() && h.rnd(3)) { auto it = a.q.begin(); std::advance(it, h.rnd(a.q.size())); e = it->first; v = it->second; } op = "unset"; say(w + ".unset" + str(e) + str(v)); a.m->unset(pt(e), pt(v)); a.q.erase({e, v}); break; }
    case 3: case 4: { F &f = fs[h.rnd(fs.size())]; op = "apply"; say(w + ".apply " + str(f)); a.m->apply(*rep(h, f)); addAccess(a, f, a.eq); break; }
    case 5: { F &f = fs[h.rnd(fs.size())]; IndexSet s; S on; int c = 1 + h.rnd(3); for (int t = 0; t < c; ++t) { P e = any(h, a.eq); s += pt(e); on.insert(e); } op = "apply-set"; say(w + ".apply " + str(f) + " on " + str(on)); a.m->apply(s, *rep(h, f)); addAccess(a, f, on); break; }
    case 6: { if (!comparable || a.m->getEquationSpace() != b.m->getEquationSpace()) continue; op = k == j ? "add-self" : "add"; say(w + "+=" + op2); if (h.rnd(2)) *a.m += *b.m; else *a.m = *a.m + *b.m; a.q.insert(b.q.begin(), b.q.end()); break; }
    case 7: case 8: { if (!comparable) continue; op = k == j ? "subtract-self" : "subtract"; say(w + "-=" + op2); Q d; for (auto &p : a.q) if (!b.q.count(p)) d.insert(p); if (h.rnd(2)) *a.m -= *b.m; else *a.m = *a.m - *b.m; a.q = d; nt |= !d.empty(); break; }
    case 9: { if (!comparable) continue; if ((*a.m == *b.m) != (a.q == b.q)) { say(w + "==" + op2); return bad("equality", str(a.q) + " and " + str(b.q)); } if ((*a.m != *b.m) != (a.q != b.q)) return bad("inequality", str(a.q) + " and " + str(b.q)); Mx c; c.m = std::make_unique<MCIM>(*a.m); c.q = a.q; c.eq = a.eq; c.va = a.va; say("m2=copy of " + w); if (ms.size() < 3) ms.push_back(std::move(c)); else ms[2] = std::move(c); continue; }
    case 10: { if (h.rnd(4)) continue; op = "clear"; say(w + ".clear"); a.m->clear(); a.q.clear(); break; }
    case 11: case 12: { bool r = h.rnd(2); S f; IndexSet s = IndexSet(); const S &sp = r ? a.eq : a.va; for (auto &p : sp) if (h.rnd(2)) { f.insert(p); s += pt(p); } if (h.rnd(3) == 0) { S extra = boxes(h, r ? er : vr, 1, s, 0, 3); f = pts(s); } Mx c; c.eq = a.eq; c.va = a.va; for (auto &p : a.q) if (f.count(r ? p.first : p.second)) c.q.insert(p); c.m = std::make_unique<MCIM>(r ? a.m->filterRows(s) : a.m->filterColumns(s)); op = r ? "filterRows" : "filterColumns"; say("m" + std::to_string(k) + " = " + w + "." + op + str(f)); nt |= !c.q.empty() && c.q.size() < a.q.size(); a = std::move(c); break; }
    case 13: { IndexSet e2, v2; S ne = lay(er, e2), nv = lay(vr, v2); if (h.rnd(3) == 0) { ne = a.eq; e2 = a.m->getEquationSpace(); } if (h.rnd(3) == 0) { nv = a.va; v2 = a.m->getVariableSpace(); } op = "withSpace"; say(w + "=" + w + ".withSpace " + str(ne) + str(nv)); Mx c; c.eq = ne; c.va = nv; for (auto &p : a.q) if (ne.count(p.first) && nv.count(p.second)) c.q.insert(p); c.m = std::make_unique<MCIM>(a.m->withSpace(std::make_shared<const IndexSet>(e2), std::make_shared<const IndexSet>(v2))); nt |= !c.q.empty(); a = std::move(c); break; }
    case 14: { bool r = h.rnd(2); IndexSet s2; S ns = lay(r ? er : vr, s2); op = r ? "setEquationSpace" : "setVariableSpace"; say(w + "." + op + str(ns)); if (r) a.m->setEquationSpace(std::make_shared<const IndexSet>(s2)); else a.m->setVariableSpace(std::make_shared<const IndexSet>(s2)); Q d; for (auto &p : a.q) if (ns.count(r ? p.first : p.second)) d.insert(p); a.q = d; (r ? a.eq : a.va) = ns; nt |= !d.empty(); break; }
    }
    for (auto &x : ms) { Out o = check(x, op); if (!o.ok()) return o; o = flat(x); if (!o.ok() && spaces) return o; }
  }
  return good(nt);
}
static Out matching(const Q &g, const std::string &k) { S e, v; for (auto &p : g) if (!e.insert(p.first).second) return bad("row-twice:" + k, str(g)); else if (!v.insert(p.second).second) return bad("column-twice:" + k, str(g)); return good(); }
static Out solutions(LocalMatchingSolutions &&s, const Q &all, const S &eq, const S &va, bool reverse, const std::string &k) {
  Q cover; std::vector<Q> got(s.size());
  if (all.size() && s.size() == 0) return bad("none:" + k, "no solution for " + str(all));
  auto one = [&](size_t i) { MCIM &m = s[i]; got[i] = pairs(m, eq, va); };
  if (reverse) for (size_t i = s.size(); i-- > 0;) one(i); else for (size_t i = 0; i < s.size(); ++i) one(i);
  size_t n = 0; for (auto it = s.begin(), e = s.end(); it != e; ++it, ++n) { Q g = pairs(*it, eq, va); if (g != got[n]) return bad("iteration:" + k, "solution " + std::to_string(n)); } if (n != s.size()) return bad("count:" + k, std::to_string(n) + " of " + std::to_string(s.size()));
  for (auto &g : got) { if (g.empty()) return bad("empty:" + k, "an empty solution"); Out o = matching(g, k); if (!o.ok()) return o; for (auto &p : g) if (!all.count(p)) return bad("outside:" + k, str(g) + " of " + str(all)); cover.insert(g.begin(), g.end()); }
  if (cover != all) return bad("cover:" + k, str(cover) + " expected " + str(all));
  return good(all.size() > 2);
}
static Out local(H &h, std::string *log, int mode) {
  auto say = [&](const std::string &s) { if (log) *log += s + "; "; };
  unsigned er = 1 + h.rnd(3), vr = 1 + h.rnd(2); IndexSet eqs, vas; S eq = boxes(h, er, 1 + h.rnd(2), eqs, 0, er == 1 ? 3 : 1), va; say("E=" + str(eq)); std::vector<F> fs; int n = 1 + h.rnd(3);
  for (int i = 0; i < n; ++i) { int kd = mode == 0 ? h.rnd(3) : h.rnd(2); F f = small(h, er, vr, kd); if (mode == 0 && h.rnd(5) == 0) for (auto &e : f.res) { e = leaf('r', h.between(0, 2)); e->id = e->v + 1 + h.rnd(3); } fs.push_back(f); say(str(f)); }
  Q all; for (auto &f : fs) for (auto &e : eq) for (auto &v : image(f, e)) { all.insert({e, v}); va.insert(v); }
  for (auto &v : va) vas += pt(v);
  if (mode == 0) { llvm::SmallVector<std::unique_ptr<AccessFunction>> afs; for (auto &f : fs) afs.push_back(rep(h, f)); return solutions(solveLocalMatchingProblem(eqs, vas, afs), all, eq, va, h.rnd(4) == 0, "access-functions"); }
  MCIM m(eqs, vas); for (auto &f : fs) m.apply(*rep(h, f)); int c = h.rnd(5); for (int i = 0; i < c; ++i) { P e = any(h, eq), v = any(h, va); if (h.rnd(2)) { m.set(pt(e), pt(v)); all.insert({e, v}); say("set" + str(e) + str(v)); } else { m.unset(pt(e), pt(v)); all.erase({e, v}); say("unset" + str(e) + str(v)); } }
  if (isValidLocalMatchingSolution(m) != matching(all, "").ok()) return bad("validity", "isValidLocalMatchingSolution of " + str(all));
  return solutions(solveLocalMatchingProblem(m), all, eq, va, h.rnd(4) == 0, "matrix");
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    mlir::MLIRContext c(mlir::MLIRContext::Threading::DISABLED); ctx = &c;
    uint64_t lim = h.thorough() ? 3000000 : 60000, base = h.seed * 1000003;
    for (uint64_t i = 0; i < lim && h.more(); ++i) {
      uint64_t sd = base + i;
      auto go = [&h, sd, i](std::string *log) -> Out { h.rng.seed(sd); if (h.prop == "C18") return local(h, log, i % 2); return history(h, log); };
      h.test([&] { std::string l; go(&l); return l; }, [&] { return go(nullptr); });
    }
  });
}
