// C23-C25: the Base Modelica parser against a reference parser written from the grammar, over token sequences.
#include "common.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <optional>
using namespace marco; using namespace marco::ast; using namespace marco::ast::bmodelica;
typedef std::string St; typedef std::vector<St> Tk;
static const std::set<St> KW = {"algorithm", "and", "annotation", "block", "break", "class", "connect", "connector", "constant", "constrainedby", "der", "discrete", "each", "else", "elseif", "elsewhen", "encapsulated", "end", "enumeration", "equation", "expandable", "extends", "external", "false", "final", "flow", "for", "function", "if", "import", "impure", "in", "initial", "inner", "input", "loop", "model", "not", "operator", "or", "outer", "output", "package", "parameter", "partial", "protected", "public", "pure", "record", "redeclare", "replaceable", "return", "stream", "then", "true", "type", "when", "while", "within"};
static bool isId(const St &t) { return !t.empty() && (isalpha((unsigned char)t[0]) || t[0] == '_') && !KW.count(t); }
static bool isInt(const St &t) { if (t.empty()) return false; for (char c : t) if (!isdigit((unsigned char)c)) return false; return true; }
static bool isFlt(const St &t) { return !t.empty() && isdigit((unsigned char)t[0]) && !isInt(t); }
static bool isStr(const St &t) { return !t.empty() && t[0] == '"'; }
static St num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return St("f") + b; }
// ---------------------------------------------------------------- reference parser: text of the tree, or rejection
struct Rej {};
struct Ref {
  const Tk &t; size_t i = 0; explicit Ref(const Tk &t) : t(t) {}
  bool powChain = false, oddTuple = false;
  St k(size_t o = 0) const { return i + o < t.size() ? t[i + o] : St(); }
  bool acc(const char *s) { if (k() == s) { ++i; return true; } return false; }
  void exp(const char *s) { if (!acc(s)) throw Rej(); }
  St id() { if (!isId(k())) throw Rej(); return t[i++]; }
  void optStr() { if (isStr(k())) ++i; }
  // expressions
  St expr() { if (acc("if")) { St c = expr(); exp("then"); St a = expr(); exp("else"); St b = expr(); return "(ifelse " + c + " " + a + " " + b + ")"; }
    St a = lor(); if (!acc(":")) return a; St b = lor(); if (!acc(":")) return "(range " + a + " " + b + ")"; return "(range " + a + " " + b + " " + lor() + ")"; }
  St lor() { St a = land(); if (k() != "or") return a; a = "(or " + a; while (acc("or")) a += " " + land(); return a + ")"; }
  St land() { St a = lnot(); if (k() != "and") return a; a = "(and " + a; while (acc("and")) a += " " + lnot(); return a + ")"; }
  St lnot() { if (acc("not")) return "(not " + rel() + ")"; return rel(); }
  St rel() { St a = arith(); for (const char *o : {">=", ">", "<=", "<", "==", "<>"}) if (acc(o)) return St("(") + o + " " + a + " " + arith() + ")"; return a; }
  St arith() { bool n = false; if (acc("-")) n = true; else acc("+"); St a = term(); if (n) a = "(neg " + a + ")"; for (;;) { St o = k(); if (o != "+" && o != ".+" && o != "-" && o != ".-") return a; ++i; a = "(" + o + " " + a + " " + term() + ")"; } }
  St term() { St a = factor(); for (;;) { St o = k(); if (o != "*" && o != ".*" && o != "/" && o != "./") return a; ++i; a = "(" + o + " " + a + " " + factor() + ")"; } }
  St factor() { St a = prim(); int n = 0; for (;;) { St o = k(); if (o != "^" && o != ".^") return a; if (n++) powChain = true; ++i; a = "(" + o + " " + a + " " + prim() + ")"; } }
  St list(const std::vector<St> &v) { St s; for (auto &x : v) s += " " + x; return s; }
  std::vector<St> outs() { std::vector<St> v; while (k() != ")") { if (acc(",")) { v.push_back("dummy"); continue; } v.push_back(expr()); if (k() != ")") { exp(","); if (k() == ")") oddTuple = true; } } return v; }
  St prim() {
    St x = k(), r;
    if (isInt(x)) { ++i; return "i" + std::to_string(strtoull(x.c_str(), 0, 10)); }
    if (isFlt(x)) { ++i; return num(strtod(x.c_str(), 0)); }
    if (isStr(x)) { ++i; return "s" + x; }
    if (x == "true" || x == "false") { ++i; return x; }
    if (acc("(")) { auto v = outs(); exp(")"); r = v.size() == 1 ? v[0] : "(tuple" + list(v) + ")"; if (v.size() == 1 && v[0] == "dummy") oddTuple = true; }
    else if (acc("{")) { std::vector<St> v{expr()}; St f; if (acc(",")) do v.push_back(expr()); while (acc(",")); else if (acc("for")) f = fors(); exp("}"); r = f.empty() ? "(array" + list(v) + ")" : "(arrayfor" + list(v) + f + ")"; }
    else if (acc("der")) r = "(call (ref (der))" + args() + ")";
    else if (isId(x)) { St c = cref(); if (k() != "(") return c; r = "(call " + c + args() + ")"; }
    else throw Rej();
    if (k() == "[") r = "(subscription " + r + subs() + ")";
    return r;
  }
  St cref() { St r = acc(".") ? "(gref" : "(ref"; r += " " + entry(); while (acc(".")) r += " " + entry(); return r + ")"; }
  St entry() { St r = "(" + id(); if (k() == "[") r += subs(); return r + ")"; }
  St subs() { exp("["); St r; do r += acc(":") ? St(" (sub :)") : " (sub " + expr() + ")"; while (acc(",")); exp("]"); return r; }
  St fors() { St r; do { r += " (for " + id(); if (acc("in")) r += " " + expr(); r += ")"; } while (acc(",")); return r; }
  St named() { St r; do { St n = id(); exp("="); r += " (named " + n + " (arg " + expr() + "))"; } while (acc(",")); return r; }
  St args() { exp("("); if (acc(")")) return ""; St r;
    if (isId(k()) && k(1) == "=") r = named();
    else { St e = expr(); if (acc("for")) r = " (red " + e + fors() + ")"; else { r = " (arg " + e + ")"; while (acc(",")) { if (isId(k()) && k(1) == "=") { r += named(); break; } r += " (arg " + expr() + ")"; } } }
    exp(")"); return r; }
  // equations and statements
  St eq() {
    if (acc("if")) { St r = "(ifeq " + expr(); exp("then"); r += eqs({"elseif", "else", "end"}); while (acc("elseif")) { r += " elseif " + expr(); exp("then"); r += eqs({"elseif", "else", "end"}); } if (acc("else")) { St e = eqs({"end"}); if (e != " {}") r += " else" + e; } exp("end"); exp("if"); return r + ")"; }
    if (acc("for")) { St r = "(foreq" + fors(); exp("loop"); r += eqs({"end"}); exp("end"); exp("for"); return r + ")"; }
    if (acc("when")) { St r = "(wheneq " + expr(); exp("then"); r += eqs({"elsewhen", "else", "end"}); while (acc("elsewhen")) { r += " elsewhen " + expr(); exp("then"); r += eqs({"elsewhen", "else", "end"}); } if (acc("else")) { St e = eqs({"end"}); if (e != " {}") r += " else" + e; } exp("end"); exp("when"); return r + ")"; }
    St l = expr(); exp("="); St r = expr(); optStr(); return "(eq " + l + " " + r + ")";
  }
  St eqs(std::set<St> stop) { St r = " {"; while (!stop.count(k())) { r += eq(); exp(";"); } return r + "}"; }
  St sts(std::set<St> stop) { St r = " {"; while (!stop.count(k())) { r += st(); exp(";"); } return r + "}"; }
  St st() {
    if (acc("if")) { St r = "(if " + expr(); exp("then"); r += sts({"elseif", "else", "end"}); while (k() != "else" && k() != "end") { exp("elseif"); r += " elseif " + expr(); exp("then"); r += sts({"elseif", "else", "end"}); } if (acc("else")) r += " else" + sts({"end"}); exp("end"); exp("if"); return r + ")"; }
    if (acc("for")) { St r = "(for" + fors(); exp("loop"); r += sts({"end"}); exp("end"); exp("for"); return r + ")"; }
    if (acc("while")) { St r = "(while " + expr(); exp("loop"); r += sts({"end"}); exp("end"); exp("while"); return r + ")"; }
    if (acc("when")) { St r = "(when " + expr(); exp("then"); r += sts({"end"}); exp("end"); exp("when"); return r + ")"; }
    if (acc("break")) return "(break)"; if (acc("return")) return "(return)";
    if (acc("(")) { auto v = outs(); exp(")"); exp(":="); St f = cref(); return "(assign (" + list(v) + " ) (call " + f + args() + "))"; }
    St d = cref(); if (k() == "(") return "(callst (call " + d + args() + "))";
    exp(":="); return "(assign ( " + d + " ) " + expr() + ")";
  }
  // classes
  St mod() { if (acc("=") || acc(":=")) return "(mod " + expr() + ")"; St c = cmod(); if (acc("=")) return "(mod " + c + " " + expr() + ")"; return "(mod " + c + ")"; }
  St cmod() { exp("("); St r = "[";
    do { if (k() == "redeclare") throw Rej(); bool e = acc("each"), f = acc("final"); if (k() == "replaceable") throw Rej(); r += St("(") + (e ? "each " : "") + (f ? "final " : "") + id(); if (k() == "(" || k() == "=" || k() == ":=") r += " " + mod(); r += ")"; } while (acc(","));
    exp(")"); return r + "]"; }
  St annot() { exp("annotation"); return cmod(); }
  St element(bool pub) {
    acc("final"); St p; if (acc("discrete")) p += "discrete "; else if (acc("parameter")) p += "parameter "; else if (acc("constant")) p += "constant "; if (acc("input")) p += "input "; else if (acc("output")) p += "output ";
    bool g = acc("."); St ty = id(); if (ty != "Real" && ty != "Integer" && ty != "Boolean" && ty != "String") { if (g) ty = "." + ty; while (acc(".")) ty += "." + id(); }
    if (acc("[")) { ty += "["; do { if (acc(":")) ty += " :"; else if (isInt(k()) && (k(1) == "," || k(1) == "]")) ty += " i" + std::to_string(strtoull(t[i++].c_str(), 0, 10)); else ty += " " + expr(); } while (acc(",")); exp("]"); ty += "]"; }
    St n = id(), m; if (k() == "(" || k() == "=") m = " " + mod(); optStr(); if (k() == "annotation") annot();
    return "(" + p + ty + " " + n + (pub ? " public" : " protected") + m + ")";
  }
  St elements(bool pub) { static const std::set<St> stop = {"public", "protected", "function", "equation", "initial", "algorithm", "end", "class", "model", "package", "record", "external", "annotation"}; St r; while (!stop.count(k())) { r += element(pub); exp(";"); } return r; }
  St cls() {
    St kind; bool pure = true;
    if (acc("operator")) { if (acc("record")) kind = "record"; else { exp("function"); kind = "function"; } }
    else if (acc("model") || acc("class")) kind = "model"; else if (acc("record")) kind = "record"; else if (acc("package")) kind = "package"; else if (acc("function")) kind = "function";
    else if (acc("pure")) { acc("operator"); exp("function"); kind = "function"; } else if (acc("impure")) { pure = false; acc("operator"); exp("function"); kind = "function"; } else throw Rej();
    if (kind == "function") kind += pure ? "" : " impure";
    St n = id();
    if (kind.substr(0, 8) == "function" && acc("=")) { exp("der"); exp("("); St r = "(derfunction " + n + " " + expr(); while (acc(",")) r += " " + expr(); exp(")"); optStr(); exp(";"); return r + ")"; }
    optStr(); St mem, eqS, alg, inner, rest; bool first = true;
    while (k() != "end" && k() != "annotation" && k() != "external") {
      if (k() == "initial" && k(1) == "equation") { i += 2; eqS += " (initial" + section(true) + ")"; continue; }
      if (acc("equation")) { eqS += " (" + section(true) + ")"; continue; }
      if (k() == "initial" && k(1) == "algorithm") { i += 2; alg += " (initial" + section(false) + ")"; continue; }
      if (acc("algorithm")) { alg += " (" + section(false) + ")"; continue; }
      if (k() == "class" || k() == "function" || k() == "model" || k() == "package" || k() == "record") { inner += " " + cls(); continue; }
      if (acc("public")) { mem += elements(true); first = false; continue; } if (acc("protected")) { mem += elements(false); first = false; continue; }
      if (!first || k() == "initial") throw Rej(); mem += elements(true);
    }
    if (acc("external")) { rest += " external"; if (isStr(k())) rest += " s" + t[i++]; else rest += " s\"C\""; if (k() == "." || isId(k())) { rest += " ("; if (!(isId(k()) && k(1) == "(")) { rest += cref() + " = "; exp("="); } rest += id(); exp("("); while (k() != ")") { rest += " " + expr(); if (k() != ")") exp(","); } exp(")"); rest += ")"; } if (k() != ";") rest += " extannotation " + annot(); exp(";"); }
    if (k() == "annotation") { rest += " annotation " + annot(); exp(";"); }
    exp("end"); if (id() != n) throw Rej(); exp(";");
    return "(" + kind + " " + n + " members{" + mem + "} equations{" + eqS + "} algorithms{" + alg + "} inner{" + inner + "}" + rest + ")";
  }
  St section(bool eqn) { std::set<St> stop = {"public", "protected", "initial", "equation", "algorithm", "external", "annotation", "end"}; return eqn ? eqs(stop) : sts(stop); }
  St root() { St r; while (i < t.size()) r += cls() + "\n"; return r; }
};
// ---------------------------------------------------------------- the real tree as text
static St E(const ASTNode *n); static St L(const ASTNode *n);
template <class R> static St all(const R &r) { St s; for (auto &x : r) s += " " + E(&*x); return s; }
static St subsOf(const ComponentReferenceEntry *e) { St r; for (size_t i = 0; i < e->getNumOfSubscripts(); ++i) r += " " + E(e->getSubscript(i)); return r; }
static St E(const ASTNode *n) {
  if (!n) return "<null>";
  if (auto *x = n->dyn_cast<Operation>()) { static const char *nm[] = {"unknown", "neg", "+", ".+", "-", ".-", "*", ".*", "/", "./", "ifelse", ">", ">=", "==", "<>", "<=", "<", "and", "or", "not", "subscription", "^", ".^", "range"}; St r = St("(") + nm[(int)x->getOperationKind()]; for (size_t i = 0; i < x->getNumOfArguments(); ++i) r += " " + E(x->getArguments()[i].get()); return r + ")"; }
  if (auto *x = n->dyn_cast<Constant>()) return x->visit([](const auto &v) -> St { using T = std::decay_t<decltype(v)>; if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false"; else if constexpr (std::is_same_v<T, int64_t>) return "i" + std::to_string(v); else if constexpr (std::is_same_v<T, double>) return num(v); else return "s\"" + v + "\""; });
  if (auto *x = n->dyn_cast<ComponentReference>()) { if (x->isDummy()) return "dummy"; St r = x->isGlobalLookup() ? "(gref" : "(ref"; for (size_t i = 0; i < x->getPathLength(); ++i) { auto *e = x->getElement(i); r += " (" + e->getName().str() + subsOf(e) + ")"; } return r + ")"; }
  if (auto *x = n->dyn_cast<Subscript>()) return x->isUnbounded() ? "(sub :)" : "(sub " + E(x->getExpression()) + ")";
  if (auto *x = n->dyn_cast<Tuple>()) { St r = "(tuple"; for (size_t i = 0; i < x->size(); ++i) r += " " + E(x->getExpression(i)); return r + ")"; }
  if (auto *x = n->dyn_cast<ArrayConstant>()) { St r = "(array"; for (size_t i = 0; i < x->size(); ++i) r += " " + E((*x)[i]); return r + ")"; }
  if (auto *x = n->dyn_cast<ArrayForGenerator>()) { St r = "(arrayfor " + E(x->getValue()); for (unsigned i = 0; i < x->getNumIndices(); ++i) r += " " + E(x->getIndex(i)); return r + ")"; }
  if (auto *x = n->dyn_cast<ForIndex>()) return "(for " + x->getName().str() + (x->hasExpression() ? " " + E(x->getExpression()) : "") + ")";
  if (auto *x = n->dyn_cast<Call>()) { St r = "(call " + E(x->getCallee()); for (size_t i = 0; i < x->getNumOfArguments(); ++i) r += " " + E(x->getArgument(i)); return r + ")"; }
  if (auto *x = n->dyn_cast<ExpressionFunctionArgument>()) return "(arg " + E(x->getExpression()) + ")";
  if (auto *x = n->dyn_cast<NamedFunctionArgument>()) return "(named " + x->getName().str() + " " + E(x->getValue()) + ")";
  if (auto *x = n->dyn_cast<ReductionFunctionArgument>()) { St r = "(red " + E(x->getExpression()); for (size_t i = 0; i < x->getNumOfForIndices(); ++i) r += " " + E(x->getForIndex(i)); return r + ")"; }
  return L(n);
}
static St M(const Modification *m);
static St CM(const ClassModification *c) { St r = "["; for (auto &a : c->getArguments()) { auto *e = a->dyn_cast<ElementModification>(); if (!e) { r += "<?>"; continue; } r += St("(") + (e->hasEachProperty() ? "each " : "") + (e->hasFinalProperty() ? "final " : "") + e->getName().str(); if (e->hasModification()) r += " " + M(e->getModification()); r += ")"; } return r + "]"; }
static St M(const Modification *m) { St r = "(mod"; if (m->hasClassModification()) r += " " + CM(m->getClassModification()); if (m->hasExpression()) r += " " + E(m->getExpression()); return r + ")"; }
static St block(const StatementsBlock *b) { St r = " {"; for (size_t i = 0; i < b->size(); ++i) r += E((*b)[i]); return r + "}"; }
template <class R> static St body(const R &v) { St r = " {"; for (auto &x : v) r += E(x.get()); return r + "}"; }
static St L(const ASTNode *n) {
  if (auto *x = n->dyn_cast<EqualityEquation>()) return "(eq " + E(x->getLhsExpression()) + " " + E(x->getRhsExpression()) + ")";
  if (auto *x = n->dyn_cast<IfEquation>()) { St r = "(ifeq " + E(x->getIfCondition()) + " {"; for (size_t i = 0; i < x->getNumOfIfEquations(); ++i) r += E(x->getIfEquation(i)); r += "}"; for (size_t j = 0; j < x->getNumOfElseIfConditions(); ++j) { r += " elseif " + E(x->getElseIfCondition(j)) + " {"; for (size_t i = 0; i < x->getNumOfElseIfEquations(j); ++i) r += E(x->getElseIfEquation(j, i)); r += "}"; } if (x->hasElseEquations()) { r += " else {"; for (size_t i = 0; i < x->getNumOfElseEquations(); ++i) r += E(x->getElseEquation(i)); r += "}"; } return r + ")"; }
  if (auto *x = n->dyn_cast<WhenEquation>()) { St r = "(wheneq " + E(x->getWhenCondition()) + " {"; for (size_t i = 0; i < x->getNumOfWhenEquations(); ++i) r += E(x->getWhenEquation(i)); r += "}"; for (size_t j = 0; j < x->getNumOfElseWhenConditions(); ++j) { r += " elsewhen " + E(x->getElseWhenCondition(j)) + " {"; for (size_t i = 0; i < x->getNumOfElseWhenEquations(j); ++i) r += E(x->getElseWhenEquation(j, i)); r += "}"; } if (x->hasElseEquations()) { r += " else {"; for (size_t i = 0; i < x->getNumOfElseEquations(); ++i) r += E(x->getElseEquation(i)); r += "}"; } return r + ")"; }
  if (auto *x = n->dyn_cast<ForEquation>()) { St r = "(foreq"; for (size_t i = 0; i < x->getNumOfForIndices(); ++i) r += " " + E(x->getForIndex(i)); r += " {"; for (size_t i = 0; i < x->getNumOfEquations(); ++i) r += E(x->getEquation(i)); return r + "})"; }
  if (auto *x = n->dyn_cast<IfStatement>()) { St r = "(if " + E(x->getIfCondition()) + block(x->getIfBlock()); for (size_t i = 0; i < x->getNumOfElseIfBlocks(); ++i) r += " elseif " + E(x->getElseIfCondition(i)) + block(x->getElseIfBlock(i)); if (x->hasElseBlock()) r += " else" + block(x->getElseBlock()); return r + ")"; }
  if (auto *x = n->dyn_cast<ForStatement>()) return "(for" + all(x->getForIndices()) + body(x->getStatements()) + ")";
  if (auto *x = n->dyn_cast<WhileStatement>()) return "(while " + E(x->getCondition()) + body(x->getStatements()) + ")";
  if (auto *x = n->dyn_cast<WhenStatement>()) return "(when " + E(x->getCondition()) + body(x->getStatements()) + ")";
  if (n->isa<BreakStatement>()) return "(break)"; if (n->isa<ReturnStatement>()) return "(return)";
  if (auto *x = n->dyn_cast<CallStatement>()) return "(callst " + E(x->getCall()) + ")";
  if (auto *x = n->dyn_cast<AssignmentStatement>()) { St r = "(assign ("; auto *d = x->getDestinations(); for (size_t i = 0; i < d->size(); ++i) r += " " + E(d->getExpression(i)); return r + " ) " + E(x->getExpression()) + ")"; }
  return "<?>";
}
static St C(const ASTNode *n) {
  if (auto *x = n->dyn_cast<PartialDerFunction>()) { St r = "(derfunction " + x->getName().str() + " " + E(x->getDerivedFunction()); for (auto &v : x->getIndependentVariables()) r += " " + E(v.get()); return r + ")"; }
  auto *c = n->dyn_cast<Class>(); if (!c) return "<?>"; St kind = n->isa<Model>() ? "model" : n->isa<Record>() ? "record" : n->isa<Package>() ? "package" : n->isa<StandardFunction>() ? (n->dyn_cast<StandardFunction>()->isPure() ? "function" : "function impure") : "<?>";
  St r = "(" + kind + " " + c->getName().str() + " members{";
  for (auto &v : c->getVariables()) { auto *m = v->dyn_cast<Member>(); auto *ty = m->getType(); auto *tp = m->getTypePrefix(); St p; if (tp->isDiscrete()) p += "discrete "; if (tp->isParameter()) p += "parameter "; if (tp->isConstant()) p += "constant "; if (tp->isInput()) p += "input "; if (tp->isOutput()) p += "output "; St t;
    if (auto *b = ty->dyn_cast<BuiltInType>()) { switch (b->getBuiltInTypeKind()) { case BuiltInType::Kind::Boolean: t = "Boolean"; break; case BuiltInType::Kind::Integer: t = "Integer"; break; case BuiltInType::Kind::Real: t = "Real"; break; case BuiltInType::Kind::String: t = "String"; break; } } else { auto *u = ty->dyn_cast<UserDefinedType>(); if (u->isGlobalLookup()) t = "."; for (size_t i = 0; i < u->getPathLength(); ++i) t += (i ? "." : "") + u->getElement(i).str(); }
    if (!ty->getDimensions().empty()) { t += "["; for (auto &d : ty->getDimensions()) { auto *a = d->dyn_cast<ArrayDimension>(); t += " "; if (a->hasExpression()) t += E(a->getExpression()); else if (a->isDynamic()) t += ":"; else t += "i" + std::to_string(a->getNumericSize()); } t += "]"; }
    r += "(" + p + t + " " + m->getName().str() + (m->isPublic() ? " public" : " protected") + (m->hasModification() ? " " + M(m->getModification()) : "") + ")"; }
  r += "} equations{"; for (auto &s : c->getEquationSections()) { auto *e = s->dyn_cast<EquationSection>(); r += St(" (") + (e->isInitial() ? "initial" : "") + " {"; for (size_t i = 0; i < e->getNumOfEquations(); ++i) r += E(e->getEquation(i)); r += "})"; }
  r += "} algorithms{"; for (auto &s : c->getAlgorithms()) { auto *a = s->dyn_cast<Algorithm>(); r += St(" (") + (a->isInitial() ? "initial" : "") + " {"; for (size_t i = 0; i < a->size(); ++i) r += E((*a)[i]); r += "})"; }
  r += "} inner{"; for (auto &x : c->getInnerClasses()) r += " " + C(x.get()); r += "}";
  if (c->isExternal()) { r += " external"; if (!c->getExternalLanguage().empty()) r += " s\"" + c->getExternalLanguage().str() + "\""; if (c->hasExternalFunctionCall()) { auto *f = c->getExternalFunctionCall(); r += " ("; if (f->hasDestination()) r += E(f->getDestination()) + " = "; r += f->getCallee().str(); for (size_t i = 0; i < f->getNumOfArguments(); ++i) r += " " + E(f->getArgument(i)); r += ")"; } if (c->hasExternalAnnotation()) r += " extannotation " + CM(c->getExternalAnnotation()->getProperties()); }
  if (c->hasAnnotation()) r += " annotation " + CM(c->getAnnotation()->getProperties());
  return r + ")";
}
struct Counter : clang::DiagnosticConsumer { unsigned n = 0; void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &d) override { if (l >= clang::DiagnosticsEngine::Error) ++n; } };
struct Got { bool ok = false; unsigned diags = 0; St tree, what; };
static Got real(const St &t) {
  Got g; auto file = std::make_shared<SourceFile>("model.mo"); auto buf = llvm::MemoryBuffer::getMemBuffer(llvm::StringRef(t.c_str(), t.size())); file->setMemoryBuffer(buf.get());
  clang::SourceManagerForFile sm(file->getFileName(), t); auto *cnt = new Counter; clang::DiagnosticsEngine de(llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs()), new clang::DiagnosticOptions(), cnt); de.setSourceManager(&sm.get());
  parser::bmodelica::Parser p(de, sm.get(), file); auto r = p.parseRoot(); g.ok = r.has_value(); g.diags = cnt->n;
  if (g.ok) { if (!*r) { g.what = "null tree"; return g; } auto *root = (*r)->dyn_cast<Root>(); if (!root) { g.what = "not a root"; return g; } for (auto &c : root->getInnerClasses()) g.tree += C(c.get()) + "\n"; }
  return g;
}
static Out silent(const Got &g) { if (!g.ok && !g.diags) return bad("silent", "rejected without a diagnostic"); if (g.ok && g.diags) return bad("diagnostic", "accepted, but an error was reported"); if (g.ok && !g.what.empty()) return bad("null", g.what); return good(); }
static Out check(const St &prop, const Tk &t, const St &text) {
  Got g = real(text); if (prop == "C24") return silent(g);
  Ref ref(t); std::optional<St> want; try { want = ref.root(); } catch (Rej) {}
  if (ref.powChain || ref.oddTuple) return good(false);
  if (!want && g.ok) return bad("accepted", "a text outside the grammar was accepted as " + g.tree);
  if (want && !g.ok) return bad("rejected", "a text of the grammar was rejected; expected " + *want);
  if (!want) return good(false);
  if (*want != g.tree) return bad("tree", "parsed as " + g.tree + " expected " + *want);
  return good(t.size() > 12);
}
// ---------------------------------------------------------------- generator
struct Gen {
  H &h; Tk t; int budget; Gen(H &h, int b) : h(h), budget(b) {}
  void p(std::initializer_list<const char *> l) { for (auto *s : l) t.push_back(s); }
  bool r(int n) { return h.rnd(n) == 0; }
  St id() { static const char *v[] = {"x", "y", "z", "a1", "b", "longName_2", "k", "notx", "ender", "i"}; return v[h.rnd(10)]; }
  void expr(int d) { if (--budget < 0) d = 0; if (d > 0 && r(9)) { p({"if"}); expr(d - 1); p({"then"}); expr(d - 1); p({"else"}); expr(d - 1); return; } lor(d); if (r(10)) { p({":"}); lor(d - 1); if (r(2)) { p({":"}); lor(d - 1); } } }
  void lor(int d) { land(d); while (d > 0 && r(7)) { p({"or"}); land(d - 1); } }
  void land(int d) { lnot(d); while (d > 0 && r(7)) { p({"and"}); lnot(d - 1); } }
  void lnot(int d) { if (r(8)) p({"not"}); rel(d); }
  void rel(int d) { static const char *o[] = {">=", ">", "<=", "<", "==", "<>"}; arith(d); if (d > 0 && r(6)) { t.push_back(o[h.rnd(6)]); arith(d - 1); } }
  void arith(int d) { static const char *o[] = {"+", "-", ".+", ".-"}; if (r(6)) p({"-"}); else if (r(10)) p({"+"}); term(d); while (d > 0 && r(3)) { t.push_back(o[h.rnd(4)]); term(d - 1); } }
  void term(int d) { static const char *o[] = {"*", "/", ".*", "./"}; factor(d); while (d > 0 && r(4)) { t.push_back(o[h.rnd(4)]); factor(d - 1); } }
  void factor(int d) { prim(d); if (d > 0 && r(6)) { p({r(3) ? ".^" : "^"}); prim(d - 1); } }
  void prim(int d) {
    int k = d <= 0 || --budget < 0 ? h.rnd(6) : h.rnd(14);
    switch (k) {
    case 0: t.push_back(std::to_string(h.rnd(r(4) ? 1000000000000ull : 30))); break; case 1: { static const char *v[] = {"1.5", "0.25", "3.0", "1e3", "2.5e2", "10."}; t.push_back(v[h.rnd(6)]); break; } case 2: { static const char *v[] = {"\"s\"", "\"\"", "\"a b\"", "\"if\""}; if (r(2)) { t.push_back(v[h.rnd(4)]); break; } t.push_back(r(2) ? "true" : "false"); break; }
    case 3: case 4: case 5: t.push_back(id()); break;
    case 6: case 7: p({"("}); expr(d - 1); p({")"}); tail(d); break;
    case 8: p({"("}); if (r(5)) p({","}); expr(d - 1); do { p({","}); if (r(5)) p({","}); expr(d - 1); } while (r(3)); p({")"}); tail(d); break;
    case 9: p({"{"}); expr(d - 1); if (r(3)) { p({"for"}); fors(d); } else while (r(2)) { p({","}); expr(d - 1); } p({"}"}); tail(d); break;
    case 10: p({"der"}); args(d); tail(d); break;
    case 11: cref(d); args(d); tail(d); break;
    default: cref(d);
    }
  }
  void tail(int d) { if (r(6)) subs(d); }
  void cref(int d) { t.push_back(id()); if (r(4)) subs(d); while (r(4)) { p({"."}); t.push_back(id()); if (r(4)) subs(d); } }
  void subs(int d) { p({"["}); do { if (r(4)) p({":"}); else expr(d - 1); } while (r(3) && (p({","}), true)); p({"]"}); }
  void fors(int d) { do { t.push_back(id()); if (!r(4)) { p({"in"}); expr(d - 1); } } while (r(3) && (p({","}), true)); }
  void named(int d) { do { t.push_back(id()); p({"="}); expr(d - 1); } while (r(2) && (p({","}), true)); }
  void args(int d) { p({"("}); if (!r(6)) { if (r(6)) named(d); else { expr(d - 1); if (r(6)) { p({"for"}); fors(d); } else while (r(3)) { p({","}); if (r(5)) { named(d); break; } expr(d - 1); } } } p({")"}); }
  void eqs(int d) { int n = h.rnd(3); for (int i = 0; i < n; ++i) { eq(d - 1); p({";"}); } }
  void sts(int d) { int n = h.rnd(3); for (int i = 0; i < n; ++i) { st(d - 1); p({";"}); } }
  int ed() { return h.rnd(3); }
  void eq(int d) {
    int k = d <= 0 || --budget < 0 ? 9 : h.rnd(10);
    if (k == 0) { p({"if"}); expr(ed()); p({"then"}); eqs(d); while (r(2)) { p({"elseif"}); expr(ed()); p({"then"}); eqs(d); } if (r(2)) { p({"else"}); eqs(d); } p({"end", "if"}); }
    else if (k == 1) { p({"for"}); fors(ed()); p({"loop"}); eqs(d); p({"end", "for"}); }
    else if (k == 2) { p({"when"}); expr(ed()); p({"then"}); eqs(d); while (r(2)) { p({"elsewhen"}); expr(ed()); p({"then"}); eqs(d); } if (r(4)) { p({"else"}); eqs(d); } p({"end", "when"}); }
    else { expr(ed()); p({"="}); expr(ed()); if (r(6)) p({"\"comment\""}); }
  }
  void st(int d) {
    int k = d <= 0 || --budget < 0 ? 5 + h.rnd(5) : h.rnd(12);
    if (k == 0) { p({"if"}); expr(ed()); p({"then"}); sts(d); while (r(2)) { p({"elseif"}); expr(ed()); p({"then"}); sts(d); } if (r(2)) { p({"else"}); sts(d); } p({"end", "if"}); }
    else if (k == 1) { p({"for"}); fors(ed()); p({"loop"}); sts(d); p({"end", "for"}); }
    else if (k == 2) { p({"while"}); expr(ed()); p({"loop"}); sts(d); p({"end", "while"}); }
    else if (k == 3) { p({"when"}); expr(ed()); p({"then"}); sts(d); p({"end", "when"}); }
    else if (k == 4) p({r(2) ? "break" : "return"});
    else if (k == 5) { p({"("}); if (r(4)) p({","}); cref(1); while (r(2)) { p({","}); if (r(4)) p({","}); cref(1); } p({")", ":="}); cref(0); args(ed()); }
    else if (k == 6) { cref(1); args(ed()); }
    else { if (r(8)) p({"."}); cref(1); p({":="}); expr(ed()); }
  }
  void mod(int d) { if (r(2)) { p({"="}); expr(ed()); return; } cmod(d); if (r(3)) { p({"="}); expr(ed()); } }
  void cmod(int d) { static const char *n[] = {"start", "fixed", "min", "x", "inverse"}; p({"("}); do { if (r(5)) p({"each"}); if (r(6)) p({"final"}); t.push_back(n[h.rnd(5)]); if (!r(5)) { if (d > 0) mod(d - 1); else { p({"="}); expr(1); } } } while (r(2) && (p({","}), true)); p({")"}); }
  void element() { static const char *ty[] = {"Real", "Integer", "Boolean", "String", "MyType"}; if (r(8)) p({"final"}); if (r(4)) { static const char *v[] = {"discrete", "parameter", "constant"}; t.push_back(v[h.rnd(3)]); } if (r(5)) p({r(2) ? "input" : "output"});
    int k = h.rnd(5); if (k == 4) { if (r(3)) p({"."}); t.push_back("MyType"); while (r(3)) { p({"."}); t.push_back(id()); } } else t.push_back(ty[k]);
    if (r(3)) { p({"["}); do { if (r(4)) p({":"}); else if (r(2)) t.push_back(std::to_string(1 + h.rnd(9))); else expr(1); } while (r(3) && (p({","}), true)); p({"]"}); }
    t.push_back(id()); if (r(3)) mod(2); if (r(8)) p({"\"comment\""}); if (r(12)) { p({"annotation"}); cmod(1); } p({";"}); }
  void cls(int d, bool top) {
    static const char *kd[] = {"model", "class", "function", "record", "package"}; int k = h.rnd(5); bool fn = false;
    if (top && r(8)) { int q = h.rnd(5); if (q == 0) p({"operator", "record"}); else { fn = true; if (q == 1) p({"operator", "function"}); else if (q == 2) p({"pure", "function"}); else if (q == 3) p({"impure", "function"}); else p({"impure", "operator", "function"}); } } else { t.push_back(kd[k]); fn = k == 2; }
    St n = id(); t.push_back(n);
    if (fn && r(8)) { p({"=", "der", "("}); cref(0); while (r(2)) { p({","}); cref(0); } p({")"}); if (r(3)) p({"\"comment\""}); p({";"}); return; }
    if (r(6)) p({"\"class comment\""}); int m = h.rnd(4); for (int i = 0; i < m; ++i) element(); int s = h.rnd(4);
    for (int i = 0; i < s; ++i) { int q = h.rnd(7); if (q < 2) { if (r(3)) p({"initial"}); p({"equation"}); int c = h.rnd(4); for (int j = 0; j < c; ++j) { eq(2); p({";"}); } } else if (q < 4) { if (r(3)) p({"initial"}); p({"algorithm"}); int c = h.rnd(4); for (int j = 0; j < c; ++j) { st(2); p({";"}); } } else if (q == 4) { if (d > 0) cls(d - 1, false); } else { p({q == 5 ? "public" : "protected"}); int c = h.rnd(3); for (int j = 0; j < c; ++j) element(); } }
    if (r(8)) { p({"external"}); if (r(2)) p({"\"C\""}); if (r(2)) { if (r(2)) { cref(0); p({"="}); } t.push_back(id()); p({"("}); int c = h.rnd(3); for (int j = 0; j < c; ++j) { if (j) p({","}); expr(1); } p({")"}); } if (r(3)) { p({"annotation"}); cmod(1); } p({";"}); }
    if (r(8)) { p({"annotation"}); cmod(1); p({";"}); }
    p({"end"}); t.push_back(n); p({";"});
  }
};
static const std::vector<St> ALL = {"algorithm", "and", "annotation", "class", "constant", "der", "discrete", "each", "else", "elseif", "elsewhen", "end", "equation", "external", "false", "final", "for", "function", "if", "impure", "in", "initial", "input", "loop", "model", "not", "operator", "or", "output", "package", "parameter", "protected", "public", "pure", "record", "redeclare", "replaceable", "return", "then", "true", "when", "while", "break", "x", "y", "M", "1", "2.5", "\"s\"", "+", "-", ".+", ".-", "*", "/", ".*", "./", "^", ".^", "=", "==", "<>", "<", "<=", ">", ">=", ":=", "(", ")", "[", "]", "{", "}", ",", ";", ":", "."};
static St spaced(H &h, const Tk &t) { St s; for (auto &x : t) { s += x; int k = h.rnd(30); s += k == 0 ? "\n" : k == 1 ? " /* c */ " : k == 2 ? "\t" : k == 3 ? " // c\n" : " "; } return s; }
static void mutate(H &h, Tk &t) { int n = 1 + h.rnd(2); for (int i = 0; i < n && !t.empty(); ++i) { size_t p = h.rnd(t.size()); switch (h.rnd(4)) { case 0: t.erase(t.begin() + p); break; case 1: t.insert(t.begin() + p, ALL[h.rnd(ALL.size())]); break; case 2: t[p] = ALL[h.rnd(ALL.size())]; break; case 3: if (h.rnd(3) == 0) t.resize(p); else std::swap(t[p], t[h.rnd(t.size())]); break; } } }
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](H &h) {
    const St prop = h.prop;
    auto go = [&](const Tk &t, const St &s) { h.test([=] { return s; }, [=] { return check(prop, t, s); }); };
    auto join = [](const Tk &t) { St s; for (auto &x : t) s += x + " "; return s; };
    auto words = [](const char *s) { Tk t; St c; bool q = false; for (; *s; ++s) { if (*s == '"') q = !q; if (*s == ' ' && !q) { if (!c.empty()) t.push_back(c); c.clear(); } else c += *s; } if (!c.empty()) t.push_back(c); return t; };
    if (prop == "C23") { // every pair and triple of binary operators, with and without signs and parentheses
      static const char *ops[] = {"or", "and", "<", "==", ">=", "+", "-", ".+", "*", "/", "./", "^", ".^", ":"};
      for (auto *a : ops) for (auto *b : ops) { for (auto *f : {"x $ y # z", "not x $ not y # z", "- x $ y # - z", "( x $ y ) # z", "x $ ( y # z )", "if x $ y then y # z else x $ z # y", "f ( x $ y , z ) # { x , y $ z }", "x [ y $ z ] # y"}) { St s = f; auto rep = [&](char c, const char *o) { size_t p; while ((p = s.find(c)) != St::npos) s.replace(p, 1, o); }; rep('$', a); rep('#', b); Tk t = words(("model M equation x = " + s + " ; end M ;").c_str()); go(t, join(t)); } for (auto *c : ops) { Tk t = words((St("model M equation x = x ") + a + " y " + b + " z " + c + " k ; end M ;").c_str()); go(t, join(t)); } }
    } else {
      static const char *bodies[] = {"", "Real x ;", "Real x ; public", "public Real x ;", "equation", "equation x = y ;", "algorithm", "algorithm x := y ;", "initial equation x = 1 ;", "initial algorithm x := 1 ;", "equation if x then", "equation if x then x = 1 ; elseif y then", "equation for i in x loop", "equation when x then x = 1 ; elsewhen y then", "algorithm if x then", "algorithm while x loop", "algorithm when x then", "algorithm for i in 1 : 2 loop x := 1 ;", "algorithm ( x , y ) := f ( x ) ;", "algorithm f (", "function f end f ;", "protected function f end f ;", "equation x = (", "equation x = f ( x ,", "equation x = { x", "equation x = a [", "Real x [", "Real x (", "external", "external \"C\"", "external \"C\" x =", "annotation ( x = 1 ) ;", "Real x ; annotation ("};
      for (auto *b : bodies) for (auto *e : {"", "end M ;"}) { Tk t = words((St("model M ") + b + " " + e).c_str()); go(t, join(t)); for (auto &a : ALL) { Tk u = words((St("model M ") + b + " " + a + " " + e).c_str()); go(u, join(u)); Tk v = words((St("model M ") + b + " " + a + " ; " + e).c_str()); go(v, join(v)); if (prop == "C24" && *e) for (auto &c : ALL) { Tk w = words((St("model M ") + b + " " + a + " " + c + " " + e).c_str()); go(w, join(w)); } } }
      for (auto &a : ALL) for (auto &b : ALL) { Tk t{a, b}; go(t, join(t)); Tk u{a, "M", b}; go(u, join(u)); }
    }
    uint64_t lim = h.thorough() ? 5000000 : 150000, base = h.seed * 1000003;
    for (uint64_t i = 0; i < lim && h.more(); ++i) {
      h.rng.seed(base + i); Gen g(h, 10 + h.rnd(60));
      if (prop == "C23") { g.p({"model", "M", "equation"}); if (h.rnd(2)) { g.p({"x", "="}); g.expr(1 + h.rnd(5)); } else { g.expr(1 + h.rnd(4)); g.p({"="}); g.expr(1 + h.rnd(4)); } g.p({";", "end", "M", ";"}); }
      else { g.cls(2, true); if (h.rnd(6) == 0) g.cls(1, true); }
      Tk t = g.t; bool mut = h.rnd(prop == "C24" ? 2 : 4) == 0; if (mut) mutate(h, t); St s = spaced(h, t);
      if (prop == "C24" && h.rnd(4) == 0) { int n = 1 + h.rnd(4); for (int q = 0; q < n && !s.empty(); ++q) { size_t p = h.rnd(s.size()); switch (h.rnd(3)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, (char)(1 + h.rnd(255))); break; default: s.resize(p); } } }
      go(t, s);
    }
  });
}
