%prelude
pub open spec fn esc_of(c: int) -> int { if c == 97 { 7 } else if c == 98 { 8 } else if c == 102 { 12 } else if c == 110 { 10 } else if c == 114 { 13 } else if c == 116 { 9 } else if c == 118 { 11 } else { c } }
// ---- what may be skipped: white space and comments
pub open spec fn line_end(t: Seq<int>, k: int) -> int decreases t.len() - k { if k >= t.len() { k } else if at(t, k) == 10 { k + 1 } else { line_end(t, k + 1) } }
pub open spec fn bc_end(t: Seq<int>, k: int) -> int decreases t.len() - k { if k >= t.len() { -1 } else if at(t, k) == 42 && at(t, k + 1) == 47 { k + 2 } else { bc_end(t, k + 1) } }
pub open spec fn lc_start(t: Seq<int>, b: int) -> bool { at(t, b) == 47 && at(t, b + 1) == 47 }
pub open spec fn bc_start(t: Seq<int>, b: int) -> bool { at(t, b) == 47 && at(t, b + 1) == 42 }
pub open spec fn skip_end(t: Seq<int>, k: int) -> int decreases (if k < t.len() { t.len() - k } else { 0 }) {
    if k >= t.len() { k }
    else if spc(at(t, k)) { skip_end(t, k + 1) }
    else if lc_start(t, k) && line_end(t, k + 2) > k { skip_end(t, line_end(t, k + 2)) }
    else if bc_start(t, k) && bc_end(t, k + 2) > k { skip_end(t, bc_end(t, k + 2)) }
    else { k }
}
pub proof fn lemma_line_end(t: Seq<int>, k: int) ensures line_end(t, k) >= k decreases t.len() - k { if k < t.len() && at(t, k) != 10 { lemma_line_end(t, k + 1); } }
pub proof fn lemma_bc_end(t: Seq<int>, k: int) ensures bc_end(t, k) == -1 || bc_end(t, k) >= k + 2 decreases t.len() - k { if k < t.len() && !(at(t, k) == 42 && at(t, k + 1) == 47) { lemma_bc_end(t, k + 1); } }
// ---- quoted lexemes starting (after the quote) at s
pub open spec fn q_esc(t: Seq<int>, s: int, k: int) -> bool decreases k - s { if k <= s { false } else { at(t, k - 1) == 92 && !q_esc(t, s, k - 1) } }
pub open spec fn q_val(t: Seq<int>, s: int, k: int) -> Seq<int> decreases k - s {
    if k <= s { Seq::empty() } else if q_esc(t, s, k - 1) { q_val(t, s, k - 1).push(esc_of(at(t, k - 1))) } else if at(t, k - 1) == 92 { q_val(t, s, k - 1) } else { q_val(t, s, k - 1).push(at(t, k - 1)) } }
pub open spec fn q_open(t: Seq<int>, q: int, s: int, k: int) -> bool decreases k - s { if k <= s { true } else { q_open(t, q, s, k - 1) && (q_esc(t, s, k - 1) || at(t, k - 1) != q) } }
pub open spec fn q_closed(t: Seq<int>, q: int, s: int, e: int) -> bool { s < e <= t.len() && q_open(t, q, s, e - 1) && !q_esc(t, s, e - 1) && at(t, e - 1) == q }
pub proof fn lemma_q_open(t: Seq<int>, q: int, s: int, k: int, j: int) requires q_open(t, q, s, k), j <= k ensures q_open(t, q, s, j) decreases k - j { if j < k && k > s { lemma_q_open(t, q, s, k - 1, j); } }
// ---- numbers: 1 integral part, 2 fractional part, 3 after e, 4 after the sign, 5 exponent
pub open spec fn n_next(s: int, c: int) -> int {
    if s == 0 { if dig(c) { 1 } else { -1 } }
    else if s == 1 { if dig(c) { 1 } else if c == 46 { 2 } else if c == 101 || c == 69 { 3 } else { -1 } }
    else if s == 2 { if dig(c) { 2 } else if c == 101 || c == 69 { 3 } else { -1 } }
    else if s == 3 { if c == 43 || c == 45 { 4 } else if dig(c) { 5 } else { -1 } }
    else if s == 4 || s == 5 { if dig(c) { 5 } else { -1 } }
    else { -1 }
}
pub open spec fn nst(t: Seq<int>, b: int, k: int) -> int decreases k - b { if k <= b { 0 } else { n_next(nst(t, b, k - 1), at(t, k - 1)) } }
pub proof fn lemma_dval(t: Seq<int>, b: int, k: int) requires nst(t, b, k) == 1 || k <= b ensures dval(t, b, k) >= 0 decreases k - b { if k > b { lemma_dval(t, b, k - 1); } }
// ---- identifiers
pub open spec fn id_start(t: Seq<int>, b: int) -> bool { ndig(at(t, b)) || (at(t, b) == 36 && ndig(at(t, b + 1))) }
pub open spec fn idc(c: int) -> bool { dig(c) || ndig(c) }
pub open spec fn id_run(t: Seq<int>, b: int, e: int) -> bool { id_start(t, b) && (forall|k: int| b < k < e ==> idc(#[trigger] at(t, k))) }
// ---- symbols
pub open spec fn sym2(c: int, d: int) -> Option<TokenKind> {
    if c == 46 { if d == 43 { Some(TokenKind::PlusEW) } else if d == 45 { Some(TokenKind::MinusEW) } else if d == 42 { Some(TokenKind::ProductEW) } else if d == 47 { Some(TokenKind::DivisionEW) } else if d == 94 { Some(TokenKind::PowEW) } else { None } }
    else if c == 61 && d == 61 { Some(TokenKind::Equal) }
    else if c == 60 && d == 62 { Some(TokenKind::NotEqual) }
    else if c == 60 && d == 61 { Some(TokenKind::LessEqual) }
    else if c == 62 && d == 61 { Some(TokenKind::GreaterEqual) }
    else if c == 58 && d == 61 { Some(TokenKind::AssignmentOperator) }
    else { None }
}
pub open spec fn sym1(c: int) -> Option<TokenKind> {
    if c == 43 { Some(TokenKind::Plus) } else if c == 45 { Some(TokenKind::Minus) } else if c == 42 { Some(TokenKind::Product) } else if c == 47 { Some(TokenKind::Division) } else if c == 94 { Some(TokenKind::Pow) }
    else if c == 46 { Some(TokenKind::Dot) } else if c == 60 { Some(TokenKind::Less) } else if c == 62 { Some(TokenKind::Greater) } else if c == 44 { Some(TokenKind::Comma) } else if c == 59 { Some(TokenKind::Semicolon) }
    else if c == 58 { Some(TokenKind::Colon) } else if c == 40 { Some(TokenKind::LPar) } else if c == 41 { Some(TokenKind::RPar) } else if c == 91 { Some(TokenKind::LSquare) } else if c == 93 { Some(TokenKind::RSquare) }
    else if c == 123 { Some(TokenKind::LCurly) } else if c == 125 { Some(TokenKind::RCurly) } else if c == 61 { Some(TokenKind::EqualityOperator) } else { None }
}
// ---- reserved words
#[verifier::opaque]
pub open spec fn kwmap() -> Map<Seq<int>, TokenKind> { Map::<Seq<int>, TokenKind>::empty()
    .insert(str"algorithm", TokenKind::Algorithm)
    .insert(str"and", TokenKind::And)
    .insert(str"annotation", TokenKind::Annotation)
    .insert(str"block", TokenKind::Block)
    .insert(str"break", TokenKind::Break)
    .insert(str"class", TokenKind::Class)
    .insert(str"connect", TokenKind::Connect)
    .insert(str"connector", TokenKind::Connector)
    .insert(str"constant", TokenKind::Constant)
    .insert(str"constrainedby", TokenKind::ConstrainedBy)
    .insert(str"der", TokenKind::Der)
    .insert(str"discrete", TokenKind::Discrete)
    .insert(str"each", TokenKind::Each)
    .insert(str"else", TokenKind::Else)
    .insert(str"elseif", TokenKind::ElseIf)
    .insert(str"elsewhen", TokenKind::ElseWhen)
    .insert(str"encapsulated", TokenKind::Encapsulated)
    .insert(str"end", TokenKind::End)
    .insert(str"enumeration", TokenKind::Enumeration)
    .insert(str"equation", TokenKind::Equation)
    .insert(str"expandable", TokenKind::Expandable)
    .insert(str"extends", TokenKind::Extends)
    .insert(str"external", TokenKind::External)
    .insert(str"false", TokenKind::False)
    .insert(str"final", TokenKind::Final)
    .insert(str"flow", TokenKind::Flow)
    .insert(str"for", TokenKind::For)
    .insert(str"function", TokenKind::Function)
    .insert(str"if", TokenKind::If)
    .insert(str"import", TokenKind::Import)
    .insert(str"impure", TokenKind::Impure)
    .insert(str"in", TokenKind::In)
    .insert(str"initial", TokenKind::Initial)
    .insert(str"inner", TokenKind::Inner)
    .insert(str"input", TokenKind::Input)
    .insert(str"loop", TokenKind::Loop)
    .insert(str"model", TokenKind::Model)
    .insert(str"not", TokenKind::Not)
    .insert(str"operator", TokenKind::Operator)
    .insert(str"or", TokenKind::Or)
    .insert(str"outer", TokenKind::Outer)
    .insert(str"output", TokenKind::Output)
    .insert(str"package", TokenKind::Package)
    .insert(str"parameter", TokenKind::Parameter)
    .insert(str"partial", TokenKind::Partial)
    .insert(str"protected", TokenKind::Protected)
    .insert(str"public", TokenKind::Public)
    .insert(str"pure", TokenKind::Pure)
    .insert(str"record", TokenKind::Record)
    .insert(str"redeclare", TokenKind::Redeclare)
    .insert(str"replaceable", TokenKind::Replaceable)
    .insert(str"return", TokenKind::Return)
    .insert(str"stream", TokenKind::Stream)
    .insert(str"then", TokenKind::Then)
    .insert(str"true", TokenKind::True)
    .insert(str"type", TokenKind::Type)
    .insert(str"when", TokenKind::When)
    .insert(str"while", TokenKind::While)
    .insert(str"within", TokenKind::Within)
}
// ---- the token of the lexeme [b, e)
pub open spec fn tstr(tok: Token) -> Option<Seq<int>> { match tok.value { Variant_Seqint_int_Real::A0(s) => Some(s), _ => None } }
pub open spec fn tint(tok: Token) -> int { match tok.value { Variant_Seqint_int_Real::A1(s) => s, _ => -1 } }
pub open spec fn tok_id(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b < e <= t.len() && id_run(t, b, e) && !idc(at(t, e))
    && (if kwmap().dom().contains(sub(t, b, e)) { tok.kind == kwmap()[sub(t, b, e)] } else { tok.kind == TokenKind::Identifier && tstr(tok) == Some(sub(t, b, e)) })
}
pub open spec fn tok_quoted(t: Seq<int>, q: int, kind: TokenKind, b: int, e: int, tok: Token) -> bool {
    (q_closed(t, q, b + 1, e) && tok.kind == kind && tstr(tok) == Some(q_val(t, b + 1, e - 1)))
    || (q_open(t, q, b + 1, t.len() as int) && tok.kind == TokenKind::Error)
}
pub open spec fn tok_num(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b < e <= t.len() && n_next(nst(t, b, e), at(t, e)) == -1
    && (if nst(t, b, e) == 1 { tok.kind == TokenKind::Integer && lit_ok(t, b, e, tint(tok)) } else if nst(t, b, e) == 2 || nst(t, b, e) == 5 { tok.kind == TokenKind::FloatingPoint } else { (nst(t, b, e) == 3 || nst(t, b, e) == 4) && tok.kind == TokenKind::Error })
}
pub open spec fn tok_sym(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    match sym2(at(t, b), at(t, b + 1)) { Some(k) => tok.kind == k && e == b + 2,
      None => match sym1(at(t, b)) { Some(k) => tok.kind == k && e == b + 1, None => tok.kind == TokenKind::Error } }
}
pub open spec fn tok_ok(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b < e && (
    if at(t, b) == 0 { tok.kind == TokenKind::EndOfFile }
    else if bc_start(t, b) { tok.kind == TokenKind::Error && bc_end(t, b + 2) == -1 }
    else if id_start(t, b) { tok_id(t, b, e, tok) }
    else if at(t, b) == 39 { tok_quoted(t, 39, TokenKind::Identifier, b, e, tok) }
    else if dig(at(t, b)) { tok_num(t, b, e, tok) }
    else if at(t, b) == 34 { tok_quoted(t, 34, TokenKind::String, b, e, tok) }
    else { !spc(at(t, b)) && !lc_start(t, b) && tok_sym(t, b, e, tok) })
}
pub open spec fn has_lexeme(tok: Token) -> bool { tok.kind != TokenKind::EndOfFile && tok.kind != TokenKind::Error }
pub open spec fn loc_ok(t: Seq<int>, b: int, e: int, tok: Token) -> bool { has_lexeme(tok) ==> tok.location.begin == pos(t, b) && tok.location.end == pos(t, e - 1) }
// ---- state of the machine after the characters before n have been consumed; b: begin of the lexeme, a: begin of the skipped region
pub open spec fn ready(m: StateMachine, t: Seq<int>, i: int) -> bool { text_ok(t) && m.current == at(t, i) && m.next == at(t, i + 1) && m.reservedKeywords == kwmap() && fl_wf(m.numberLexer) && -1 <= i < 4611686018427387904 && m.numberLexer.fractionalLeadingZeros <= t.len() + 8 }
pub open spec fn pend(m: StateMachine, t: Seq<int>, a: int, b: int, n: int) -> bool {
    a >= 0 &&
    if m.state == StateMachine_State::Normal { skip_end(t, a) == skip_end(t, n) && n <= t.len() }
    else if m.state == StateMachine_State::End { n >= t.len() && a == n }
    else { a <= b && n <= t.len() + 1 && (b < n || (b == n && (m.state == StateMachine_State::ParsingIdentifier || m.state == StateMachine_State::ParsingNumber))) && pend_in(m, t, b, n) && skip_end(t, a) == skip_end(t, b) && at(t, b) != 0 }
}
pub open spec fn pend_in(m: StateMachine, t: Seq<int>, b: int, n: int) -> bool {
    match m.state {
        StateMachine_State::ParsingIdentifier => id_run(t, b, n) && m.identifier == sub(t, b, n) && (n > b ==> idc(at(t, n))),
        StateMachine_State::ParsingQIdentifier => at(t, b) == 39 && !q_esc(t, b + 1, n) && q_open(t, 39, b + 1, n) && m.identifier == q_val(t, b + 1, n),
        StateMachine_State::ParsingQIdentifierBackSlash => at(t, b) == 39 && q_esc(t, b + 1, n) && q_open(t, 39, b + 1, n) && m.identifier == q_val(t, b + 1, n) && n <= t.len(),
        StateMachine_State::ParsingString => at(t, b) == 34 && !q_esc(t, b + 1, n) && q_open(t, 34, b + 1, n) && m.stringValue == q_val(t, b + 1, n),
        StateMachine_State::ParsingBackSlash => at(t, b) == 34 && q_esc(t, b + 1, n) && q_open(t, 34, b + 1, n) && m.stringValue == q_val(t, b + 1, n) && n <= t.len(),
        StateMachine_State::ParsingNumber => dig(at(t, b)) && (n == b || (nst(t, b, n) == 1 && n_next(1, at(t, n)) != -1)) && lit_ok(t, b, n, m.numberLexer.upperPart.value) && fl_small(m, b, n),
        StateMachine_State::ParsingFloat => dig(at(t, b)) && nst(t, b, n) == 2 && n_next(2, at(t, n)) != -1 && fl_small(m, b, n),
        StateMachine_State::ParsingFloatExponentSign => dig(at(t, b)) && nst(t, b, n) == 3 && n_next(3, at(t, n)) == 4,
        StateMachine_State::ParsingFloatExponent => dig(at(t, b)) && (nst(t, b, n) == 3 || nst(t, b, n) == 4 || nst(t, b, n) == 5) && dig(at(t, n)),
        StateMachine_State::ParsingSingleLineComment => lc_start(t, b) && at(t, n) != 0 && (n >= b + 2 ==> line_end(t, b + 2) == line_end(t, n)),
        StateMachine_State::ParsingMultiLineCommentBegin => bc_start(t, b) && n == b + 1,
        StateMachine_State::ParsingMultiLineComment => bc_start(t, b) && n >= b + 2 && bc_end(t, b + 2) == bc_end(t, n),
        StateMachine_State::IgnoredCharacter => bc_start(t, b) && bc_end(t, b + 2) == n + 1 && n < t.len(),
        StateMachine_State::ParsingElementWiseSymbol => at(t, b) == 46 && n == b + 1 && sym2(46, at(t, n)) != None::<TokenKind>,
        StateMachine_State::ParsingEqualSymbol => at(t, b) == 61 && n == b + 1 && at(t, n) == 61,
        StateMachine_State::ParsingLessSymbol => at(t, b) == 60 && n == b + 1 && (at(t, n) == 61 || at(t, n) == 62),
        StateMachine_State::ParsingGreaterSymbol => at(t, b) == 62 && n == b + 1 && at(t, n) == 61,
        StateMachine_State::ParsingColonSymbol => at(t, b) == 58 && n == b + 1 && at(t, n) == 61,
        _ => false,
    }
}
pub open spec fn fl_small(m: StateMachine, b: int, n: int) -> bool { m.numberLexer.fractionalLeadingZeros <= n - b }
// the machine knows the position of the current character and of the beginning of the lexeme
pub open spec fn in_lexeme(m: StateMachine) -> bool { m.state != StateMachine_State::Normal && m.state != StateMachine_State::End }
pub open spec fn placed(m: StateMachine, t: Seq<int>, b: int, i: int) -> bool { m.currentPosition == pos(t, i) && (in_lexeme(m) ==> m.beginPosition == pos(t, b)) }
// result of one step: r is the token, if any; i the consumed character
pub open spec fn done_ok(m: StateMachine, t: Seq<int>, a: int, b: int, i: int, r: Option<Token>) -> bool {
    match r {
        None => pend(m, t, a, b, i + 1),
        Some(tok) => (m.state == StateMachine_State::Normal || m.state == StateMachine_State::End)
            && (at(t, b) == 0 ==> m.state == StateMachine_State::End) && (tok.kind != TokenKind::Error && at(t, b) != 0 ==> m.state == StateMachine_State::Normal && i < t.len())
            && (m.state == StateMachine_State::End ==> at(t, i) == 0) && skip_end(t, a) == b && tok_ok(t, b, i + 1, tok),
    }
}
// ---- the lexer: a state machine and the last character read
pub open spec fn up(l: Lexer) -> StateMachine {
    StateMachine { reservedKeywords: l.reservedKeywords, state: l.state, current: l.current, next: l.next, identifier: l.identifier, stringValue: l.stringValue, numberLexer: l.numberLexer, error: l.error, currentPosition: l.currentPosition, beginPosition: l.beginPosition, endPosition: l.endPosition }
}
// the lexer stands before the character a: everything before it has been consumed
pub open spec fn stands(l: Lexer, t: Seq<int>, a: int) -> bool {
    0 <= a && ready(up(l), t, a - 1) && l.lastChar == at(t, a)
    && ((l.state == StateMachine_State::Normal && a <= t.len()) || (l.state == StateMachine_State::End && a >= t.len()))
}
pub open spec fn scanned(l: Lexer, t: Seq<int>, a: int, e: int, tok: Token) -> bool {
    tok_ok(t, skip_end(t, a), e, tok) && (tok.kind != TokenKind::Error ==> stands(l, t, e)) && (at(t, skip_end(t, a)) == 0 ==> l.state == StateMachine_State::End)
}
pub proof fn lemma_skip_end(t: Seq<int>, k: int) ensures skip_end(t, k) >= k decreases (if k < t.len() { t.len() - k } else { 0 })
{ if k < t.len() { if spc(at(t, k)) { lemma_skip_end(t, k + 1); } else if lc_start(t, k) && line_end(t, k + 2) > k { lemma_skip_end(t, line_end(t, k + 2)); } else if bc_start(t, k) && bc_end(t, k + 2) > k { lemma_skip_end(t, bc_end(t, k + 2)); } } }
// Every scan consumes at least one character; the consumed region is skipped text followed by one lexeme.
pub proof fn lemma_progress(t: Seq<int>, a: int, e: int, tok: Token) requires tok_ok(t, skip_end(t, a), e, tok) ensures a <= skip_end(t, a) < e { lemma_skip_end(t, a); }
%end

%fn (anonymous namespace)::isDigit(char)
%name isDigit
%optional
%ens
- [decimal digits] ret == dig(c)
%endfn
%fn (anonymous namespace)::isNonDigit(char)
%name isNonDigit
%optional
%ens
- [letters and underscore] ret == ndig(c)
%endfn
%fn (anonymous namespace)::escapedChar(char)
%name escapedChar
%optional
%ens
- [escape sequences denote their character] ret == esc_of(c)
%endfn
%fn marco::parser::bmodelica::StateMachine::advance(char)
%name Sm_advance
%ghost t: Seq<int>, i: int
%req
- ready(this, t, i) && c == at(t, i + 2) && i < 4611686018427387903
- [position before the character] this.currentPosition == pos(t, i)
%ens
- [one character is consumed] post_this == (StateMachine { current: at(t, i + 1), next: at(t, i + 2), currentPosition: post_this.currentPosition, ..this })
- [position of the consumed character] post_this.currentPosition == pos(t, i + 1)
%entry
lemma_pos_bound(t, i);
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingIdentifier>()
%name Sm_scan_ParsingIdentifier
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingIdentifier && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
assert(sub(t, b, i).push(at(t, i)) =~= sub(t, b, i + 1));
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingQIdentifier>()
%name Sm_scan_ParsingQIdentifier
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingQIdentifier && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingNumber>()
%name Sm_scan_ParsingNumber
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingNumber && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
lemma_dval(t, b, i); assert(nst(t, b, i + 1) == n_next(nst(t, b, i), at(t, i))); assert(i < t.len());
assert(dig(at(t, i)) ==> dval(t, b, i + 1) == dval(t, b, i) * 10 + (at(t, i) - 48));
assert(i == b ==> dval(t, b, i) == 0 && nst(t, b, i) == 0);
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingFloat>()
%name Sm_scan_ParsingFloat
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingFloat && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingFloatExponentSign>()
%name Sm_scan_ParsingFloatExponentSign
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingFloatExponentSign && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingFloatExponent>()
%name Sm_scan_ParsingFloatExponent
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingFloatExponent && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingString>()
%name Sm_scan_ParsingString
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingString && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingSingleLineComment>()
%name Sm_scan_ParsingSingleLineComment
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingSingleLineComment && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
lemma_line_end(t, b + 2); lemma_line_end(t, i); lemma_line_end(t, i + 1); lemma_line_end(t, i + 2);
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingMultiLineCommentBegin>()
%name Sm_scan_ParsingMultiLineCommentBegin
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingMultiLineCommentBegin && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingMultiLineComment>()
%name Sm_scan_ParsingMultiLineComment
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingMultiLineComment && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingBackSlash>()
%name Sm_scan_ParsingBackSlash
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingBackSlash && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingQIdentifierBackSlash>()
%name Sm_scan_ParsingQIdentifierBackSlash
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingQIdentifierBackSlash && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingElementWiseSymbol>()
%name Sm_scan_ParsingElementWiseSymbol
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingElementWiseSymbol && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingEqualSymbol>()
%name Sm_scan_ParsingEqualSymbol
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingEqualSymbol && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingLessSymbol>()
%name Sm_scan_ParsingLessSymbol
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingLessSymbol && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingGreaterSymbol>()
%name Sm_scan_ParsingGreaterSymbol
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingGreaterSymbol && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::ParsingColonSymbol>()
%name Sm_scan_ParsingColonSymbol
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::ParsingColonSymbol && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::IgnoredCharacter>()
%name Sm_scan_IgnoredCharacter
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == StateMachine_State::IgnoredCharacter && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%endfn

%fn marco::parser::bmodelica::StateMachine::scan<State::Normal>()
%name Sm_scan_Normal
%ghost t: Seq<int>, a: int, i: int
%with Sm_scan_ParsingIdentifier b = i
%with Sm_scan_ParsingNumber b = i
%req
- ready(this, t, i)
- this.state == StateMachine_State::Normal && pend(this, t, a, 0, i) && a <= i
- [position at entry] this.currentPosition == pos(t, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, i, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, i, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, i, i + 1, ret->0)
%entry
assert(sub(t, i, i) =~= Seq::<int>::empty());
reveal_with_fuel(q_esc, 2); reveal_with_fuel(q_open, 2); reveal_with_fuel(q_val, 2);
%endfn
%fn marco::parser::bmodelica::StateMachine::step(char)
%name Sm_step
%ghost t: Seq<int>, a: int, b: int, i: int
%with Sm_advance i = (i - 1)
%req
- ready(this, t, i - 1) && i < 4611686018427387903
- c == at(t, i + 1)
- pend(this, t, a, b, i) && 0 <= a <= i
- [position at entry] placed(this, t, b, i - 1)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, if this.state == StateMachine_State::Normal || this.state == StateMachine_State::End { i } else { b }, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, if this.state == StateMachine_State::Normal || this.state == StateMachine_State::End { i } else { b }, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, if this.state == StateMachine_State::Normal || this.state == StateMachine_State::End { i } else { b }, i + 1, ret->0)
%endfn
%fn marco::parser::bmodelica::StateMachine::StateMachine(std::shared_ptr<marco::SourceFile> const&, char)
%name Sm_new
%ghost t: Seq<int>
%req
- text_ok(t) && first == at(t, 0)
%ens
- [the machine starts before the first character] ready(ret, t, -1) && ret.state == StateMachine_State::Normal
- [position before the first character] ret.currentPosition == pos(t, -1)
- [the reserved words are those of the language] ret.reservedKeywords == kwmap()
%entry
reveal(kwmap);
%endfn
%fn marco::lexer::Lexer<marco::parser::bmodelica::StateMachine>::scan()
%name Lx_scan
%ghost t: Seq<int>, a: int
%with Sm_step b = gb; i = gi
%model getNext = at(t, gi + 1)
%req
- stands(this, t, a) && a < 4611686018427380000
- [position at entry] this.currentPosition == pos(t, a - 1)
%ens
- [a token is the longest lexeme after the skipped text, and the next scan starts behind it] exists|e: int| scanned(post_this, t, a, e, ret)
- [location of the token is that of its lexeme] exists|e: int| #[trigger] loc_ok(t, skip_end(t, a), e, ret) && scanned(post_this, t, a, e, ret) && post_this.currentPosition == pos(t, e - 1)
%entry
let ghost mut gi: int = a;
let ghost mut gb: int = a;
%loop 1
%inv
- a <= gi
- @token is None ==> a <= gb && (@this.state == StateMachine_State::End || gi <= t.len() + 1) && pend(up(@this), t, a, gb, gi) && ready(up(@this), t, gi - 1) && @this.lastChar == at(t, gi)
- @token is Some ==> scanned(@this, t, a, gi, @token->0)
- [position in the loop] this.currentPosition == pos(t, gi - 1) && (@token is None ==> placed(up(@this), t, gb, gi - 1)) && (@token is Some ==> loc_ok(t, skip_end(t, a), gi, @token->0))
%dec
- if @token is Some { 0 } else { max_(1, t.len() + 5 - gi) }
%begin
let ghost st0 = this.state;
%end
if st0 == StateMachine_State::Normal || st0 == StateMachine_State::End { gb = gi; }
gi = gi + 1;
%endloop
%endfn
