%drop Parser.sourceManager
%ghostfield Parser.gt : Seq<int>
%ghostfield Parser.gp : int
%ghosttype clang::DiagnosticsEngine = int
%prelude
// ---- the tokens of the text
pub open spec fn nxt(t: Seq<int>, a: int) -> (int, Token) { choose|x: (int, Token)| tok_ok(t, skip_end(t, a), x.0, x.1) }
pub open spec fn nx(t: Seq<int>, a: int) -> int { nxt(t, a).0 }
pub open spec fn kd(t: Seq<int>, a: int) -> TokenKind { nxt(t, a).1.kind }
pub open spec fn sv(t: Seq<int>, a: int) -> Seq<int> { tstr(nxt(t, a).1)->0 }
pub open spec fn iv(t: Seq<int>, a: int) -> int { tint(nxt(t, a).1) }
// every integer literal of the text fits in 64 bits
pub open spec fn fits(t: Seq<int>) -> bool { text_ok(t) && forall|b: int, e: int| #![trigger dval(t, b, e)] dig_run(t, b, e) ==> dval(t, b, e) <= 9223372036854775807 }
pub proof fn lemma_det(t: Seq<int>, a: int, e: int, tok: Token)
    requires tok_ok(t, skip_end(t, a), e, tok), fits(t)
    ensures tok_ok(t, skip_end(t, a), nx(t, a), nxt(t, a).1), tok.kind == kd(t, a),
        has_lexeme(tok) ==> e == nx(t, a) && a < e <= t.len(),
        tok.kind == TokenKind::Identifier || tok.kind == TokenKind::Regex ==> tstr(tok) is Some && tstr(tok)->0 == sv(t, a),
        tok.kind == TokenKind::Integer ==> (tok.value is A1) && tint(tok) == iv(t, a) && iv(t, a) >= 0,
{
    let b = skip_end(t, a); let w = (e, tok); lemma_skip_end(t, a);
    assert(tok_ok(t, b, w.0, w.1));
    let x = nxt(t, a);
    assert(tok_ok(t, b, x.0, x.1));
    if at(t, b) != 0 {
        if idstart(at(t, b)) { if e < x.0 { assert(idc(at(t, e))); } if x.0 < e { assert(idc(at(t, x.0))); } }
        else if dig(at(t, b)) { if e < x.0 { assert(dig(at(t, e))); } if x.0 < e { assert(dig(at(t, x.0))); } assert(dval(t, b, e) <= 9223372036854775807); }
        else if at(t, b) == 47 { if e < x.0 { assert(at(t, e - 1) != 47 && at(t, e - 1) != 0); } if x.0 < e { assert(at(t, x.0 - 1) != 47 && at(t, x.0 - 1) != 0); } }
    }
}
pub open spec fn same(x: Token, y: Token) -> bool { x.kind == y.kind && (x.kind == TokenKind::Identifier || x.kind == TokenKind::Regex ==> tstr(x) is Some && tstr(x)->0 == tstr(y)->0) && (x.kind == TokenKind::Integer ==> (x.value is A1) && tint(x) == tint(y)) }
// ghost state of the parser: gt is the text, gp the position of the look-ahead
pub open spec fn on(p: Parser) -> bool { fits(p.gt) && 0 <= p.gp <= p.gt.len() && p.lookahead.len() == 1 && same(p.lookahead[0], nxt(p.gt, p.gp).1) && tok_ok(p.gt, skip_end(p.gt, p.gp), nx(p.gt, p.gp), nxt(p.gt, p.gp).1)
    && (has_lexeme(nxt(p.gt, p.gp).1) ==> p.gp < nx(p.gt, p.gp) <= p.gt.len() && stands(p.lexer, p.gt, nx(p.gt, p.gp)) && p.lexer.currentPosition == pos(p.gt, nx(p.gt, p.gp) - 1)) }
pub open spec fn cur(p: Parser, a: int) -> bool { same(p.token, nxt(p.gt, a).1) }
// ---- the grammar
pub open spec fn g_index(t: Seq<int>, a: int) -> Option<(int, int)> { if kd(t, a) == TokenKind::Dollar { Some((-1, nx(t, a))) } else if kd(t, a) == TokenKind::Integer { Some((iv(t, a), nx(t, a))) } else { None } }
pub open spec fn g_range(t: Seq<int>, a: int) -> Option<(Range, int)> {
    match g_index(t, a) { None => None, Some(l) => if kd(t, l.1) != TokenKind::Colons { None } else { match g_index(t, nx(t, l.1)) { None => None, Some(u) => Some((Range { lowerBound: l.0, upperBound: u.0 }, u.1)) } } } }
pub open spec fn g_more(t: Seq<int>, a: int, acc: Seq<Range>) -> Option<(Seq<Range>, int)> decreases t.len() - a {
    if kd(t, a) == TokenKind::Comma { match g_range(t, nx(t, a)) { None => None, Some(r) => if a < r.1 <= t.len() { g_more(t, r.1, acc.push(r.0)) } else { None } } } else { Some((acc, a)) } }
pub open spec fn g_array(t: Seq<int>, a: int) -> Option<(Seq<Range>, int)> {
    if kd(t, a) != TokenKind::LSquare { None } else { match g_range(t, nx(t, a)) { None => None, Some(r) => match g_more(t, r.1, seq![r.0]) { None => None, Some(m) => if kd(t, m.1) == TokenKind::RSquare { Some((m.0, nx(t, m.1))) } else { None } } } } }
pub open spec fn g_id(t: Seq<int>, a: int) -> Option<(Seq<int>, int)> { if kd(t, a) == TokenKind::Identifier { Some((sv(t, a), nx(t, a))) } else { None } }
pub open spec fn g_der(t: Seq<int>, a: int) -> Option<(Seq<int>, int)> {
    if kd(t, a) == TokenKind::DerKeyword && kd(t, nx(t, a)) == TokenKind::LPar { match g_id(t, nx(t, nx(t, a))) { None => None, Some(i) => if kd(t, i.1) == TokenKind::RPar { Some((i.0, nx(t, i.1))) } else { None } } } else { None } }
pub open spec fn g_regex(t: Seq<int>, a: int) -> Option<(Seq<int>, int)> { if kd(t, a) == TokenKind::Regex && sv(t, a).len() > 0 && regex_valid(sv(t, a)) { Some((sv(t, a), nx(t, a))) } else { None } }
pub open spec fn bag(m: Map<Seq<int>, Seq<Tracker>>, k: Seq<int>) -> Seq<Tracker> { if m.dom().contains(k) { m[k] } else { Seq::empty() } }
pub open spec fn with_var(f: VariableFilter, x: Tracker) -> VariableFilter { VariableFilter { variables: f.variables.insert(x.name, bag(f.variables, x.name).push(x)), enabled: true, ..f } }
pub open spec fn with_der(f: VariableFilter, x: Tracker) -> VariableFilter { VariableFilter { derivatives: f.derivatives.insert(x.name, bag(f.derivatives, x.name).push(x)), enabled: true, ..f } }
pub open spec fn with_regex(f: VariableFilter, x: Seq<int>) -> VariableFilter { VariableFilter { regex: f.regex.push(x), enabled: true, ..f } }
pub open spec fn g_elem(t: Seq<int>, a: int, f: VariableFilter) -> Option<(VariableFilter, int)> {
    if kd(t, a) == TokenKind::DerKeyword { match g_der(t, a) { None => None, Some(d) => Some((with_der(f, Tracker { name: d.0, ranges: Seq::empty() }), d.1)) } }
    else if kd(t, a) == TokenKind::Regex { match g_regex(t, a) { None => None, Some(d) => Some((with_regex(f, d.0), d.1)) } }
    else { match g_id(t, a) { None => None, Some(i) => if kd(t, i.1) == TokenKind::LSquare { match g_array(t, i.1) { None => None, Some(r) => Some((with_var(f, Tracker { name: i.0, ranges: r.0 }), r.1)) } } else { Some((with_var(f, Tracker { name: i.0, ranges: Seq::empty() }), i.1)) } } }
}
// the filter read from a on, added to f; None: rejected
pub open spec fn g_run(t: Seq<int>, a: int, f: VariableFilter) -> Option<VariableFilter> decreases t.len() - a {
    if kd(t, a) == TokenKind::EndOfFile { Some(f) }
    else if kd(t, a) == TokenKind::Semicolons { if a < nx(t, a) <= t.len() { g_run(t, nx(t, a), f) } else { None } }
    else { match g_elem(t, a, f) { None => None, Some(r) => if a < r.1 <= t.len() { g_run(t, r.1, r.0) } else { None } } }
}
pub open spec fn quiet(p: Parser, q: Parser) -> bool { p.vf == q.vf && p.diagnosticsEngine == q.diagnosticsEngine }
pub open spec fn rejected(p: Parser, q: Parser) -> bool { p.vf == q.vf && p.diagnosticsEngine < q.diagnosticsEngine }
%end
%fn marco::vf::Parser::emitUnexpectedTokenError(marco::vf::Token const&, marco::vf::TokenKind)
%name Vp_err
%trusted reports a diagnostic
%ens
- post_this == (Parser { diagnosticsEngine: this.diagnosticsEngine + 1, ..this })
%endfn
%fn marco::vf::Parser::advance()
%name Vp_advance
%with Vx_scan t = this.gt; a = nx(this.gt, this.gp)
%req
- on(this) && has_lexeme(nxt(this.gt, this.gp).1)
%ens
- [the next token is looked at] on(post_this) && post_this.gt == this.gt && post_this.gp == nx(this.gt, this.gp)
- [the look-ahead becomes the current token] cur(post_this, this.gp)
- post_this.vf == this.vf && post_this.diagnosticsEngine == this.diagnosticsEngine
%entry
lemma_det(this.gt, this.gp, nx(this.gt, this.gp), nxt(this.gt, this.gp).1);
%aftercall Vx_scan
this = Parser { gp: nx(this.gt, this.gp), ..this };
%exit
assert forall|e: int, tok: Token| #[trigger] tok_ok(this.gt, skip_end(this.gt, this.gp), e, tok) implies same(tok, nxt(this.gt, this.gp).1) && tok_ok(this.gt, skip_end(this.gt, this.gp), nx(this.gt, this.gp), nxt(this.gt, this.gp).1) && (has_lexeme(tok) ==> e == nx(this.gt, this.gp) && this.gp < e <= this.gt.len()) by { lemma_det(this.gt, this.gp, e, tok); }
%loop 1
%inv
- this.token == old_this.lookahead[0] && this.lookahead.len() == 1 && this.lexer == old_this.lexer && this.vf == old_this.vf && this.diagnosticsEngine == old_this.diagnosticsEngine && this.gt == old_this.gt && this.gp == old_this.gp && @e == 1 && 0 <= @i < 1
%dec
- 1 - @i
%endloop
%endfn
%fn marco::vf::Parser::emitEmptyRegexError(marco::SourceRange const&)
%name Vp_errEmpty
%trusted reports one diagnostic and changes nothing else
%ens
- post_this == (Parser { diagnosticsEngine: this.diagnosticsEngine + 1, ..this })
%endfn
%fn marco::vf::Parser::emitInvalidRegexError(marco::SourceRange const&)
%name Vp_errInvalid
%trusted reports one diagnostic and changes nothing else
%ens
- post_this == (Parser { diagnosticsEngine: this.diagnosticsEngine + 1, ..this })
%endfn
%fn marco::vf::Parser::parseArrayIndex()
%name Vp_index
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_index(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0 == (g_index(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_index(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%endfn
%fn marco::vf::Parser::parseArrayRange()
%name Vp_range
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_range(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0 == (g_range(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_range(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%endfn
%fn marco::vf::Parser::parseArray(marco::vf::VariableExpression)
%name Vp_array
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_array(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0.variable == variable && ret->0.ranges == (g_array(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_array(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%loop 1
%inv
- on(this) && this.gt == old_this.gt && old_this.gp < this.gp && quiet(old_this, this)
- [the ranges so far] kd(this.gt, old_this.gp) == TokenKind::LSquare && g_range(this.gt, nx(this.gt, old_this.gp)) is Some && g_more(this.gt, this.gp, @ranges) == g_more(this.gt, (g_range(this.gt, nx(this.gt, old_this.gp))->0).1, seq![(g_range(this.gt, nx(this.gt, old_this.gp))->0).0])
%dec
- this.gt.len() - this.gp
%endloop
%endfn
%fn marco::vf::Parser::parseVariableExpression()
%name Vp_id
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_id(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0.identifier == (g_id(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_id(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%endfn
%fn marco::vf::Parser::parseDer()
%name Vp_der
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_der(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0.derivedVariable.identifier == (g_der(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_der(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%endfn
%fn marco::vf::Parser::parseRegex()
%name Vp_regex
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret is Some <==> g_regex(this.gt, this.gp) is Some
- [the result is what the text says, and reading goes on behind it] ret is Some ==> ret->0.regex == (g_regex(this.gt, this.gp)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_regex(this.gt, this.gp)->0).1 && this.gp < post_this.gp && quiet(this, post_this)
- [a rejected text is diagnosed] ret is None ==> rejected(this, post_this)
%endfn
%fn marco::vf::Parser::parseListElement()
%name Vp_elem
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret <==> g_elem(this.gt, this.gp, this.vf) is Some
- [the filter receives exactly what the text says] ret ==> post_this.vf == (g_elem(this.gt, this.gp, this.vf)->0).0 && on(post_this) && post_this.gt == this.gt && post_this.gp == (g_elem(this.gt, this.gp, this.vf)->0).1 && this.gp < post_this.gp && post_this.diagnosticsEngine == this.diagnosticsEngine
- [a rejected text is diagnosed] !ret ==> rejected(this, post_this)
%exit
assert(ret ==> post_this.vf.variables =~= ((g_elem(old_this.gt, old_this.gp, old_this.vf)->0).0).variables);
assert(ret ==> post_this.vf.derivatives =~= ((g_elem(old_this.gt, old_this.gp, old_this.vf)->0).0).derivatives);
assert(ret ==> post_this.vf.regex =~= ((g_elem(old_this.gt, old_this.gp, old_this.vf)->0).0).regex);
%endfn
%fn marco::vf::Parser::run()
%name Vp_run
%req
- on(this)
%ens
- [accepted exactly when the grammar accepts] ret <==> g_run(this.gt, this.gp, this.vf) is Some
- [the filter receives exactly what the text says, in order] ret ==> post_this.vf == g_run(this.gt, this.gp, this.vf)->0 && post_this.diagnosticsEngine == this.diagnosticsEngine
- [a rejected text is diagnosed] !ret ==> post_this.diagnosticsEngine > this.diagnosticsEngine
%loop 1
%inv
- on(this) && this.gt == old_this.gt && old_this.gp <= this.gp && this.diagnosticsEngine == old_this.diagnosticsEngine
- [what remains to be read] g_run(this.gt, this.gp, this.vf) == g_run(old_this.gt, old_this.gp, old_this.vf)
%dec
- this.gt.len() - this.gp
%endloop
%endfn
