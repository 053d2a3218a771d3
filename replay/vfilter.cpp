// C27: variable filters against a reference reader written from the grammar of the option:
//   filter := { ';' | element } ; element := der '(' id ')' | '/' regex '/' | id [ '[' range { ',' range } ']' ] ; range := bound ':' bound ; bound := integer | '$'
#include "common.h"
#include "marco/VariableFilter/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
using namespace marco;
typedef std::vector<std::pair<int64_t, int64_t>> Rs;
struct El { int k; std::string s; Rs r; }; // 0 variable, 1 derivative, 2 regular expression
struct Tk { char k; std::string s; int64_t v = 0; }; // i identifier, d der, n number, r regex, 0 end, ! error, else the symbol
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool nd(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
struct Big {};
static std::vector<Tk> lex(const std::string &t, bool &big) {
  std::vector<Tk> r; size_t p = 0, n = t.size();
  for (;;) {
    while (p < n && (t[p] == ' ' || (t[p] >= 9 && t[p] <= 13))) ++p;
    if (p >= n) { r.push_back({0, ""}); return r; }
    char c = t[p]; size_t q = p;
    if (nd(c)) { while (q < n && (nd(t[q]) || dig(t[q]) || t[q] == '.')) ++q; std::string s = t.substr(p, q - p); r.push_back({s == "der" ? 'd' : 'i', s}); p = q; continue; }
    if (dig(c)) { __int128 v = 0; while (q < n && dig(t[q])) { v = v * 10 + (t[q] - '0'); if (v > INT64_MAX) { big = true; v = INT64_MAX; } ++q; } r.push_back({'n', "", (int64_t)v}); p = q; continue; }
    if (c == '/') { q = t.find('/', p + 1); if (q == std::string::npos) { r.push_back({'!', ""}); return r; } r.push_back({'r', t.substr(p + 1, q - p - 1)}); p = q + 1; continue; }
    if (strchr("()[],;:$", c)) { r.push_back({c, ""}); ++p; continue; }
    r.push_back({'!', ""}); return r;
  }
}
static bool parse(const std::vector<Tk> &t, std::vector<El> &out) {
  size_t i = 0; auto k = [&](size_t j) { return j < t.size() ? t[j].k : '!'; };
  while (k(i) != 0) {
    if (k(i) == ';') { ++i; continue; }
    if (k(i) == 'd') { if (k(i + 1) != '(' || k(i + 2) != 'i' || k(i + 3) != ')') return false; out.push_back({1, t[i + 2].s, {}}); i += 4; continue; }
    if (k(i) == 'r') { if (t[i].s.empty() || !llvm::Regex(t[i].s).isValid()) return false; out.push_back({2, t[i].s, {}}); ++i; continue; }
    if (k(i) != 'i') return false;
    El e{0, t[i].s, {}}; ++i;
    if (k(i) == '[') {
      do {
        ++i; int64_t b[2];
        for (int j = 0; j < 2; ++j) { if (k(i) == '$') b[j] = -1; else if (k(i) == 'n') b[j] = t[i].v; else return false; ++i; if (j == 0) { if (k(i) != ':') return false; ++i; } }
        e.r.push_back({b[0], b[1]});
      } while (k(i) == ',');
      if (k(i) != ']') return false; ++i;
    }
    out.push_back(e);
  }
  return true;
}
struct Counter : clang::DiagnosticConsumer { unsigned n = 0; void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &d) override { if (l >= clang::DiagnosticsEngine::Error) ++n; } };
static Rs toRs(llvm::ArrayRef<vf::Range> a) { Rs r; for (auto &x : a) r.push_back({x.hasLowerBound() ? x.getLowerBound() : -1, x.hasUpperBound() ? x.getUpperBound() : -1}); return r; }
static std::string str(const Rs &r) { std::string s = "["; for (auto &x : r) s += std::to_string(x.first) + ":" + std::to_string(x.second) + ","; return s + "]"; }
static std::string str(const std::vector<std::pair<bool, Rs>> &v) { std::string s; for (auto &x : v) s += (x.first ? "visible" : "hidden") + str(x.second) + " "; return s; }
static Out check(const std::string &t) {
  bool big = false; auto toks = lex(t, big); std::vector<El> want; bool ok = parse(toks, want);
  if (big) return good(false); // literals beyond 64 bits are not specified
  VariableFilter f; auto file = std::make_shared<SourceFile>("Variables filter"); auto buf = llvm::MemoryBuffer::getMemBuffer(llvm::StringRef(t.c_str(), t.size())); file->setMemoryBuffer(buf.get());
  clang::SourceManagerForFile sm(file->getFileName(), t); auto ref = sm.get().getFileManager().getVirtualFileRef(file->getFileName(), 0, 0);
  sm.get().createFileID(ref, clang::SourceLocation(), clang::SrcMgr::C_User); sm.get().overrideFileContents(ref, *buf);
  auto *cnt = new Counter; clang::DiagnosticsEngine de(llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs()), new clang::DiagnosticOptions(), cnt); de.setSourceManager(&sm.get());
  bool got = vf::Parser(f, de, sm.get(), file).run();
  if (got && !ok) return bad("accepted", "a text outside the grammar was accepted");
  if (!got && ok) return bad("rejected", "a filter of the grammar was rejected");
  if (!got) { if (!cnt->n) return bad("silent", "rejected without a diagnostic"); if (VariableFilter::fromString(llvm::StringRef(t.c_str(), t.size()))) return bad("accepted", "fromString returned a filter for a rejected text"); return good(toks.size() > 2); }
  if (cnt->n) return bad("diagnostic", "accepted, but an error was reported");
  auto fs = VariableFilter::fromString(llvm::StringRef(t.c_str(), t.size()));
  if (!fs) return bad("rejected", "fromString returned nothing for an accepted filter");
  for (int which = 0; which < 2; ++which) {
    const VariableFilter &g = which ? *fs : f; std::string w = which ? " (fromString)" : "";
    if (g.isEnabled() != !want.empty()) return bad("enabled", "isEnabled() is " + std::to_string(g.isEnabled()) + w);
    std::map<std::string, std::vector<Rs>> v, d; std::vector<std::string> rx;
    for (auto &e : want) { if (e.k == 0) v[e.s].push_back(e.r); else if (e.k == 1) d[e.s].push_back(e.r); else rx.push_back(e.s); }
    std::map<std::string, std::vector<Rs>> gv, gd; for (auto &e : g.variables) for (auto &x : e.second) gv[e.first().str()].push_back(toRs(x.getRanges()));
    for (auto &e : g.derivatives) for (auto &x : e.second) gd[e.first().str()].push_back(toRs(x.getRanges()));
    if (gv != v) return bad("variables", "the recorded variables differ from the listed ones" + w); if (gd != d) return bad("derivatives", "the recorded derivatives differ from the listed ones" + w);
    if (std::vector<std::string>(g.regex.begin(), g.regex.end()) != rx) return bad("regex", "the recorded regular expressions differ from the listed ones" + w);
    std::set<std::string> names{"x", "zz", "x.y", "der"}; for (auto &e : want) if (e.k < 2) names.insert(e.s);
    for (auto &nm : names) for (unsigned rank = 0; rank < 5; ++rank) {
      bool m = false, md = false; for (auto &e : rx) { m |= llvm::Regex(e).match(nm); md |= llvm::Regex(e).match("der(" + nm + ")"); }
      std::vector<std::pair<bool, Rs>> wi, gi;
      if (v.count(nm)) for (auto &r : v[nm]) { Rs q = r; q.resize(rank, {-1, -1}); wi.push_back({true, q}); } else wi.push_back({want.empty() || m, Rs(rank, {-1, -1})});
      for (auto &x : g.getVariableInfo(nm, rank)) gi.push_back({x.isVisible(), toRs(x.getRanges())});
      if (gi != wi) return bad("variable-info", "getVariableInfo(" + nm + "," + std::to_string(rank) + ") is " + str(gi) + "expected " + str(wi) + w);
      std::vector<std::pair<bool, Rs>> wd{{md || d.count(nm), Rs(rank, {-1, -1})}}, gdi; for (auto &x : g.getVariableDerInfo(nm, rank)) gdi.push_back({x.isVisible(), toRs(x.getRanges())});
      if (gdi != wd) return bad("derivative-info", "getVariableDerInfo(" + nm + "," + std::to_string(rank) + ") is " + str(gdi) + "expected " + str(wd) + w);
    }
  }
  return good(want.size() >= 1);
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    auto go = [&](std::string t) { h.test([=] { return t; }, [=] { return check(t); }); };
    static const std::vector<std::string> al = {"x", "y1", "der", "(", ")", "[", "]", ",", ";", ":", "$", "0", "12", "/a.*/", "//", "/(/", "#", "/un"};
    go(""); go(" ");
    // every continuation of viable prefixes by up to two tokens
    static const std::vector<std::string> pre = {"", "x", "x [", "x [ 1", "x [ 1 :", "x [ 1 : 2", "x [ $ : $ ,", "x [ 1 : 2 , 3 : $", "x [ 1 : 2 ]", "der", "der (", "der ( x", "der ( x )", ";", "; ;", "/a/", "x ; y [ 3 : 4 ] ; der ( z ) ;", "x x", "x [ 3 : $ ] ; x [ 5 : 6 ]"};
    for (auto &p : pre) { go(p); for (auto &a : al) { go(p + " " + a); go(p + a); for (auto &b : al) { go(p + " " + a + " " + b); go(p + " " + a + b); } } }
    for (auto &a : al) for (auto &b : al) for (auto &c : al) go(a + " " + b + " " + c);
    for (int c = 1; c < 256; ++c) { go(std::string(1, (char)c)); go(std::string("x") + (char)c + "y"); go(std::string("x [") + (char)c + "1:2]"); go(std::string("/a") + (char)c + "/"); }
    for (const char *n : {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775806", "00017", "1000000000000"}) { go(std::string("x[") + n + ":" + n + "]"); go(std::string("x[$:") + n + ",1:2]"); go(std::string("x[0:") + n + "]; x[1:1]"); }
    uint64_t lim = h.thorough() ? 2000000 : 40000;
    static const char *ids[] = {"x", "y", "x.y", "der1", "dder", "_a", "Der", "a1b", "z", "longerIdentifier.with.parts_2"};
    for (uint64_t i = 0; i < lim && h.more(); ++i) {
      std::string t; auto sp = [&] { uint64_t r = h.rnd(8); if (r == 0) t += " "; else if (r == 1) t += "\n"; else if (r == 2) t += " \t "; };
      int n = h.rnd(h.rnd(5) ? 5 : 14);
      for (int j = 0; j < n; ++j) {
        sp(); uint64_t k = h.rnd(10);
        auto bound = [&] { sp(); if (h.rnd(3) == 0) t += "$"; else t += std::to_string(h.rnd(5) ? h.rnd(20) : h.rnd(1ull << 62)); sp(); };
        if (k < 3) t += ids[h.rnd(10)];
        else if (k < 6) { t += ids[h.rnd(10)]; sp(); t += "["; int m = 1 + h.rnd(4); for (int q = 0; q < m; ++q) { if (q) t += ","; bound(); t += ":"; bound(); } t += "]"; }
        else if (k < 8) { t += "der"; sp(); t += "("; sp(); t += ids[h.rnd(10)]; sp(); t += ")"; }
        else if (k == 8) { static const char *rx[] = {"/x/", "/^x.*$/", "/der\\(x\\)/", "/[a-z]+/", "/a|b/", "/.*/", "/ /", "/[/"}; t += rx[h.rnd(8)]; }
        else t += al[h.rnd(al.size())];
        sp(); uint64_t s = h.rnd(8); if (s < 6) t += ";"; else if (s == 6) t += ";;"; else t += " ";
      }
      if (h.rnd(5) == 0 && !t.empty()) t.resize(h.rnd(t.size())); if (h.rnd(8) == 0 && !t.empty()) t.erase(h.rnd(t.size()), 1);
      go(t);
    }
  });
}
