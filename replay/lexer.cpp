// C19, C21, C22: literals and tokens against a reference tokenizer written from the language definition.
#include "common.h"
#include "marco/Lexer/IntegerLexer.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include "marco/VariableFilter/LexerStateMachine.h"
#include "llvm/Support/MemoryBuffer.h"
#include <algorithm>
#include <utility>
using namespace marco;
namespace bm = marco::parser::bmodelica;
typedef bm::TokenKind K;
typedef vf::TokenKind V;
static const char *KW[] = {"algorithm","and","annotation","block","break","class","connect","connector","constant","constrainedby","der","discrete","each","else","elseif","elsewhen","encapsulated","end","enumeration","equation","expandable","extends","external","false","final","flow","for","function","if","import","impure","in","initial","inner","input","loop","model","not","operator","or","outer","output","package","parameter","partial","protected","public","pure","record","redeclare","replaceable","return","stream","then","true","type","when","while","within"};
static const K KWK[] = {K::Algorithm,K::And,K::Annotation,K::Block,K::Break,K::Class,K::Connect,K::Connector,K::Constant,K::ConstrainedBy,K::Der,K::Discrete,K::Each,K::Else,K::ElseIf,K::ElseWhen,K::Encapsulated,K::End,K::Enumeration,K::Equation,K::Expandable,K::Extends,K::External,K::False,K::Final,K::Flow,K::For,K::Function,K::If,K::Import,K::Impure,K::In,K::Initial,K::Inner,K::Input,K::Loop,K::Model,K::Not,K::Operator,K::Or,K::Outer,K::Output,K::Package,K::Parameter,K::Partial,K::Protected,K::Public,K::Pure,K::Record,K::Redeclare,K::Replaceable,K::Return,K::Stream,K::Then,K::True,K::Type,K::When,K::While,K::Within};
static const char *SY[] = {".+",".-",".*","./",".^","==","<>","<=",">=",":=","+","-","*","/","^",".","<",">",",",";",":","(",")","[","]","{","}","="};
static const K SYK[] = {K::PlusEW,K::MinusEW,K::ProductEW,K::DivisionEW,K::PowEW,K::Equal,K::NotEqual,K::LessEqual,K::GreaterEqual,K::AssignmentOperator,K::Plus,K::Minus,K::Product,K::Division,K::Pow,K::Dot,K::Less,K::Greater,K::Comma,K::Semicolon,K::Colon,K::LPar,K::RPar,K::LSquare,K::RSquare,K::LCurly,K::RCurly,K::EqualityOperator};
static const int NKW = sizeof(KW) / sizeof(*KW), NSY = sizeof(SY) / sizeof(*SY);
struct Tk { int kind; size_t b, e; std::string str; __int128 num = -1; bool err = false, eof = false; };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool nd(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// Base Modelica: the token at or after position p
static Tk ref(const std::string &t, size_t p) {
  size_t n = t.size(); auto at = [&](size_t i) { return i < n ? t[i] : '\0'; };
  Tk k; auto error = [&](size_t b) { k.kind = (int)K::Error; k.err = true; k.b = b; k.e = n; return k; };
  for (;;) {
    if (p < n && ws(t[p])) { ++p; continue; }
    if (at(p) == '/' && at(p + 1) == '/') { size_t q = t.find('\n', p); p = q == std::string::npos ? n : q + 1; continue; }
    if (at(p) == '/' && at(p + 1) == '*') { size_t q = t.find("*/", p + 2); if (q == std::string::npos) return error(p); p = q + 2; continue; }
    break;
  }
  k.b = p;
  if (p >= n) { k.kind = (int)K::EndOfFile; k.eof = true; k.e = n; return k; }
  char c = t[p];
  if (nd(c) || (c == '$' && nd(at(p + 1)))) {
    size_t q = p + 1; while (q < n && (nd(t[q]) || dig(t[q]))) ++q;
    k.e = q; std::string s = t.substr(p, q - p); k.kind = (int)K::Identifier; k.str = s;
    for (int i = 0; i < NKW; ++i) if (s == KW[i]) { k.kind = (int)KWK[i]; k.str.clear(); }
    return k;
  }
  if (c == '\'' || c == '"') {
    std::string v; size_t q = p + 1;
    while (q < n && t[q] != c) {
      if (t[q] == '\\') { ++q; if (q >= n) break; static const char *es = "abfnrtv"; static const char *ev = "\a\b\f\n\r\t\v"; const char *f = strchr(es, t[q]); v += f && *f ? ev[f - es] : t[q]; ++q; }
      else v += t[q++];
    }
    if (q >= n) return error(p);
    k.kind = c == '"' ? (int)K::String : (int)K::Identifier; k.str = v; k.e = q + 1; return k;
  }
  if (dig(c)) {
    size_t q = p; __int128 v = 0; while (dig(at(q))) { if (v >= 0) v = v * 10 + (t[q] - '0'); if (v > (__int128)INT64_MAX) v = -1; ++q; }
    k.kind = (int)K::Integer; k.num = v;
    if (at(q) == '.') { k.kind = (int)K::FloatingPoint; ++q; while (dig(at(q))) ++q; }
    if (at(q) == 'e' || at(q) == 'E') { k.kind = (int)K::FloatingPoint; ++q; if (at(q) == '+' || at(q) == '-') ++q; if (!dig(at(q))) return error(p); while (dig(at(q))) ++q; }
    k.e = q; return k;
  }
  for (int i = 0; i < NSY; ++i) if (t.compare(p, strlen(SY[i]), SY[i]) == 0) { k.kind = (int)SYK[i]; k.e = p + strlen(SY[i]); return k; }
  return error(p);
}
static Tk refv(const std::string &t, size_t p) {
  size_t n = t.size(); Tk k; auto at = [&](size_t i) { return i < n ? t[i] : '\0'; };
  while (p < n && ws(t[p])) ++p;
  k.b = p; k.e = p + 1;
  if (p >= n) { k.kind = (int)V::EndOfFile; k.eof = true; return k; }
  char c = t[p];
  if (nd(c)) { size_t q = p; while (nd(at(q)) || dig(at(q)) || at(q) == '.') ++q; k.e = q; k.str = t.substr(p, q - p); k.kind = (int)V::Identifier; if (k.str == "der") { k.kind = (int)V::DerKeyword; k.str.clear(); } return k; }
  if (dig(c)) { size_t q = p; __int128 v = 0; while (dig(at(q))) { if (v >= 0) v = v * 10 + (t[q] - '0'); if (v > (__int128)INT64_MAX) v = -1; ++q; } k.e = q; k.kind = (int)V::Integer; k.num = v; return k; }
  if (c == '/') { size_t q = t.find('/', p + 1); if (q == std::string::npos) { k.kind = (int)V::Error; k.err = true; return k; } k.kind = (int)V::Regex; k.str = t.substr(p + 1, q - p - 1); k.e = q + 1; return k; }
  static const char *s = "()[],;:$"; static const V sk[] = {V::LPar, V::RPar, V::LSquare, V::RSquare, V::Comma, V::Semicolons, V::Colons, V::Dollar};
  if (const char *f = strchr(s, c)) { k.kind = (int)sk[f - s]; return k; }
  k.kind = (int)V::Error; k.err = true; return k;
}
static std::pair<int64_t, int64_t> posOf(const std::string &t, size_t i) { int64_t l = 1, c = 0; for (size_t j = 0; j <= i && j < t.size(); ++j) { if (t[j] == '\n') { ++l; c = 0; } else ++c; } return {l, c}; }
static std::string d(const std::string &k, const Tk &w) { return k + " at offset " + std::to_string(w.b); }
// what: 0 tokens, 1 locations
template <class L, class Kind, class Ref> static Out runLexer(const std::string &t, int what, Ref rf, Kind ident, Kind str, Kind integer, std::string nm) {
  auto file = std::make_shared<SourceFile>("t"); auto buf = llvm::MemoryBuffer::getMemBuffer(llvm::StringRef(t.c_str(), t.size())); file->setMemoryBuffer(buf.get());
  L lx(file); size_t p = 0; size_t cnt = 0;
  for (;; ++cnt) {
    Tk w = rf(t, p); auto g = lx.scan();
    if (w.err) { if (what == 0 && (int)g.getKind() != w.kind) return bad(nm + "-error", d("no error token, got " + std::string(toString(g.getKind())), w)); break; }
    if (what == 0) {
      if ((int)g.getKind() != w.kind) return bad(nm + "-kind", d(std::string("got ") + toString(g.getKind()) + " expected " + toString((Kind)w.kind), w));
      if (w.kind == (int)ident || w.kind == (int)str) { if (g.getString() != w.str) return bad(nm + "-value", d("got '" + g.getString() + "' expected '" + w.str + "'", w)); }
      if (w.kind == (int)integer && w.num >= 0 && g.getInt() != (int64_t)w.num) return bad(nm + "-value", d("got " + std::to_string(g.getInt()), w));
    } else if (!w.eof && (int)g.getKind() == w.kind) {
      auto b = posOf(t, w.b), e = posOf(t, w.e - 1); auto lo = g.getLocation();
      if (lo.begin.line != b.first || lo.begin.column != b.second || lo.end.line != e.first || lo.end.column != e.second)
        return bad(nm + "-location", d("got " + std::to_string(lo.begin.line) + ":" + std::to_string(lo.begin.column) + "-" + std::to_string(lo.end.line) + ":" + std::to_string(lo.end.column) + " expected " + std::to_string(b.first) + ":" + std::to_string(b.second) + "-" + std::to_string(e.first) + ":" + std::to_string(e.second), w));
    } else if (!w.eof) break; // a wrong token: not a matter of locations
    if (w.eof) { if (what == 0) for (int i = 0; i < 2; ++i) if ((int)lx.scan().getKind() != w.kind) return bad(nm + "-eof", "no end-of-file token after the end"); break; }
    p = w.e;
  }
  return good(cnt >= 2);
}
static Out both(const std::string &t, int what) {
  Out o = runLexer<lexer::Lexer<bm::StateMachine>, K>(t, what, ref, K::Identifier, K::String, K::Integer, "BaseModelica");
  if (what == 1 && o.ok()) { bool nt = o.nontrivial; o = runLexer<lexer::Lexer<vf::LexerStateMachine>, V>(t, what, refv, V::Identifier, V::Regex, V::Integer, "VariableFilter"); o.nontrivial |= nt; }
  return o;
}
static Out numbers(int base, const std::vector<std::vector<int>> &hist);
template <unsigned B> static Out numB(const std::vector<std::vector<int>> &hist) {
  lexer::IntegerLexer<B> l; bool nt = false;
  for (size_t i = 0; i < hist.size(); ++i) {
    if (i) { l.reset(); if (l.get() != 0) return bad("reset", "get() returns " + std::to_string(l.get()) + " after reset()"); }
    unsigned __int128 v = 0; bool fits = true;
    if (l.get() != 0) return bad("fresh", "a fresh accumulator holds " + std::to_string(l.get()));
    for (int dgt : hist[i]) {
      v = v * B + (unsigned)dgt; if (v > (unsigned __int128)INT64_MAX) fits = false;
      int64_t r = (l += dgt).get();
      if (!fits) break;
      if (l.get() != (int64_t)v || r != (int64_t)v) return bad("value", "got " + std::to_string(l.get()) + " expected " + std::to_string((int64_t)v));
      nt |= v >= B;
    }
  }
  return good(nt);
}
template <unsigned... I> static Out numSel(int base, const std::vector<std::vector<int>> &h, std::integer_sequence<unsigned, I...>) {
  Out o; ((base == (int)I + 2 ? (o = numB<I + 2>(h), 0) : 0), ...); return o;
}
static Out numbers(int base, const std::vector<std::vector<int>> &h) { return numSel(base, h, std::make_integer_sequence<unsigned, 35>()); }
static std::string show(int base, const std::vector<std::vector<int>> &h) { std::string s = "base " + std::to_string(base) + ":"; for (auto &x : h) { s += " "; if (x.empty()) s += "''"; for (int dg : x) s += dg < 10 ? char('0' + dg) : char('a' + dg - 10); } return s; }

static void literals(H &h) {
  auto go = [&](int b, std::vector<std::vector<int>> hist) { h.test([=] { return show(b, hist); }, [=] { return numbers(b, hist); }); };
  for (int b : {2, 8, 10, 16}) for (int x = 0; x < b; ++x) { go(b, {{x}}); for (int y = 0; y < b; ++y) { go(b, {{x, y}}); for (int z = 0; z < b; ++z) go(b, {{x, y, z}}); } }
  for (int b = 2; b <= 36; ++b)
    for (int64_t dlt = -3; dlt <= 0; ++dlt) {
      uint64_t v = (uint64_t)INT64_MAX + dlt; std::vector<int> ds; while (v) { ds.push_back(v % b); v /= b; } std::reverse(ds.begin(), ds.end()); go(b, {ds}); go(b, {{1}, ds, {0, 1}});
    }
  uint64_t lim = h.thorough() ? 3000000 : 200000;
  for (uint64_t i = 0; i < lim && h.more(); ++i) {
    int b = 2 + h.rnd(35); std::vector<std::vector<int>> hist(1 + h.rnd(3));
    for (auto &x : hist) { int n = h.rnd(h.rnd(4) ? 8 : 66); for (int j = 0; j < n; ++j) x.push_back(h.rnd(3) ? h.rnd(b) : h.rnd(2) ? 0 : b - 1); }
    go(b, hist);
  }
}
static std::string piece(H &h) {
  static const char *m[] = {"1", "0", "12", "1.", "1.5", "1e3", "1e", "2.e-4", "1E+", "1..2", "9223372036854775807", "00012", "x", "_y1", "$a", "$1", "$", "'q'", "'a b'", "'\\''", "'x", "\"s\"", "\"a\\n\"", "\"\\\"\"", "\"un", "// c\n", "//", "/* c */", "/**/", "/*/", "/* * /*/", "/***/", "/*\n\n*/", "/* un", "#", "@", "!", "~", "|", "a.b", "x.*y", "1.*2", "1./2", ".5", "..", "...", "=", "==", "=== ", "<", "<=", "<>", "><", ":=", "::=", "\\", "\n", "\r\n", "\t", " ", "\v", "x/y", "der(x)", "x.1", "/re gex/", "/r", "//r/", "\xc3\xa9", "\x7f", "0x1"};
  uint64_t r = h.rnd(10);
  if (r < 3) return KW[h.rnd(NKW)]; if (r < 5) return SY[h.rnd(NSY)];
  if (r == 5) { std::string s = KW[h.rnd(NKW)]; uint64_t q = h.rnd(3); if (q == 0) s.pop_back(); else if (q == 1) s += "ax_1Z"[h.rnd(5)]; else s[h.rnd(s.size())] ^= 32; return s; }
  return m[h.rnd(sizeof(m) / sizeof(*m))];
}
static void texts(H &h, int what) {
  auto go = [&](std::string t) { h.test([=] { return t; }, [=] { return both(t, what); }); };
  for (int i = 0; i < NKW; ++i) { go(KW[i]); go(std::string(KW[i]) + "1"); go(std::string("\n  ") + KW[i] + "(" + KW[i] + ")"); }
  for (int i = 0; i < NSY; ++i) for (int j = 0; j < NSY; ++j) { go(std::string(SY[i]) + SY[j]); go(std::string("a") + SY[i] + "1" + SY[j] + "b"); }
  for (int c = 1; c < 256; ++c) { go(std::string(1, (char)c)); go(std::string("a") + (char)c + "b"); go(std::string("\"\\") + (char)c + "\""); go(std::string("'\\") + (char)c + "'"); }
  static const std::string al = "ae1.+-*/'\"\\\n=<>:($E ^_,;"; int maxLen = h.thorough() ? 4 : 3;
  std::vector<std::string> cur{""};
  for (int len = 1; len <= maxLen; ++len) { std::vector<std::string> nxt; for (auto &s : cur) for (char c : al) { nxt.push_back(s + c); go(nxt.back()); } cur.swap(nxt); }
  uint64_t lim = h.thorough() ? 5000000 : 150000;
  for (uint64_t i = 0; i < lim && h.more(); ++i) {
    std::string t; int n = 1 + h.rnd(h.rnd(6) ? 6 : 40);
    for (int j = 0; j < n; ++j) { if (h.rnd(8) == 0) { int m = 1 + h.rnd(4); while (m--) t += al[h.rnd(al.size())]; } else t += piece(h); uint64_t r = h.rnd(6); if (r < 2) t += ' '; else if (r == 2) t += '\n'; }
    if (h.rnd(4) == 0 && !t.empty()) t.resize(h.rnd(t.size()));
    if (h.rnd(30) == 0) t += std::string(200, "a1 "[h.rnd(3)]);
    go(t);
  }
}
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    if (h.prop == "C19") literals(h);
    else if (h.prop == "C21") texts(h, 0);
    else if (h.prop == "C22") texts(h, 1);
  });
}
