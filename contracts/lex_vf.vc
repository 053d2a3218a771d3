%alias StateMachine::Token = marco::vf::Token
%prelude
// ---- the variable filter lexer
pub open spec fn idstart(c: int) -> bool { ndig(c) }
pub open spec fn idc(c: int) -> bool { dig(c) || ndig(c) || c == 46 }
pub open spec fn id_run(t: Seq<int>, b: int, e: int) -> bool { idstart(at(t, b)) && (forall|k: int| b < k < e ==> idc(#[trigger] at(t, k))) }
pub open spec fn dig_run(t: Seq<int>, b: int, e: int) -> bool { forall|k: int| b <= k < e ==> dig(#[trigger] at(t, k)) }
pub open spec fn rx_run(t: Seq<int>, b: int, e: int) -> bool { at(t, b) == 47 && (forall|k: int| b < k < e ==> at(t, k) != 47 && #[trigger] at(t, k) != 0) }
pub open spec fn skip_end(t: Seq<int>, k: int) -> int decreases (if k < t.len() { t.len() - k } else { 0 }) { if k < t.len() && spc(at(t, k)) { skip_end(t, k + 1) } else { k } }
pub open spec fn sym1(c: int) -> Option<TokenKind> {
    if c == 40 { Some(TokenKind::LPar) } else if c == 41 { Some(TokenKind::RPar) } else if c == 91 { Some(TokenKind::LSquare) } else if c == 93 { Some(TokenKind::RSquare) }
    else if c == 44 { Some(TokenKind::Comma) } else if c == 59 { Some(TokenKind::Semicolons) } else if c == 58 { Some(TokenKind::Colons) } else if c == 36 { Some(TokenKind::Dollar) } else { None }
}
pub open spec fn tstr(tok: Token) -> Option<Seq<int>> { match tok.value { Variant_Seqint_int::A0(s) => Some(s), _ => None } }
pub open spec fn tint(tok: Token) -> int { match tok.value { Variant_Seqint_int::A1(s) => s, _ => -1 } }
pub open spec fn tok_id(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b < e <= t.len() && id_run(t, b, e) && !idc(at(t, e))
    && (if sub(t, b, e) == str"der" { tok.kind == TokenKind::DerKeyword } else { tok.kind == TokenKind::Identifier && tstr(tok) == Some(sub(t, b, e)) })
}
pub open spec fn tok_num(t: Seq<int>, b: int, e: int, tok: Token) -> bool { b < e <= t.len() && dig_run(t, b, e) && !dig(at(t, e)) && tok.kind == TokenKind::Integer && lit_ok(t, b, e, tint(tok)) }
pub open spec fn tok_rx(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b + 2 <= e && rx_run(t, b, e - 1) && (if at(t, e - 1) == 47 { tok.kind == TokenKind::Regex && tstr(tok) == Some(sub(t, b + 1, e - 1)) } else { at(t, e - 1) == 0 && tok.kind == TokenKind::Error })
}
pub open spec fn tok_ok(t: Seq<int>, b: int, e: int, tok: Token) -> bool {
    b < e && (
    if at(t, b) == 0 { tok.kind == TokenKind::EndOfFile }
    else if idstart(at(t, b)) { tok_id(t, b, e, tok) }
    else if dig(at(t, b)) { tok_num(t, b, e, tok) }
    else if at(t, b) == 47 { tok_rx(t, b, e, tok) }
    else { !spc(at(t, b)) && e == b + 1 && tok.kind == (match sym1(at(t, b)) { Some(k) => k, None => TokenKind::Error }) })
}
pub open spec fn has_lexeme(tok: Token) -> bool { tok.kind != TokenKind::EndOfFile && tok.kind != TokenKind::Error }
pub open spec fn loc_ok(t: Seq<int>, b: int, e: int, tok: Token) -> bool { has_lexeme(tok) ==> tok.location.begin == pos(t, b) && tok.location.end == pos(t, e - 1) }
pub open spec fn ready(m: LexerStateMachine, t: Seq<int>, i: int) -> bool {
    text_ok(t) && m.current == at(t, i) && m.next == at(t, i + 1) && m.keywordMap == Map::<Seq<int>, TokenKind>::empty().insert(str"der", TokenKind::DerKeyword)
    && (forall|c: int| #![trigger m.symbols.dom().contains(c)] -128 <= c <= 127 ==> (m.symbols.dom().contains(c) <==> sym1(c) is Some)) && (forall|c: int| -128 <= c <= 127 && sym1(c) is Some ==> #[trigger] m.symbols[c] == sym1(c)->0)
    && -1 <= i < 4611686018427387904
}
pub open spec fn pend(m: LexerStateMachine, t: Seq<int>, a: int, b: int, n: int) -> bool {
    a >= 0 &&
    if m.state == LexerStateMachine_State::Normal { skip_end(t, a) == skip_end(t, n) && n <= t.len() }
    else if m.state == LexerStateMachine_State::End { n >= t.len() && a == n }
    else { a <= b && n <= t.len() + 1 && (b < n || (b == n && m.state != LexerStateMachine_State::ParsingRegex)) && pend_in(m, t, b, n) && skip_end(t, a) == skip_end(t, b) && at(t, b) != 0 }
}
pub open spec fn pend_in(m: LexerStateMachine, t: Seq<int>, b: int, n: int) -> bool {
    match m.state {
        LexerStateMachine_State::ParsingId => id_run(t, b, n) && m.identifier == sub(t, b, n) && (n > b ==> idc(at(t, n))),
        LexerStateMachine_State::ParsingNum => dig(at(t, b)) && dig_run(t, b, n + 1) && lit_ok(t, b, n, m.numberLexer.value),
        LexerStateMachine_State::ParsingRegex => rx_run(t, b, n) && m.regex == sub(t, b + 1, n),
        _ => false,
    }
}
pub open spec fn in_lexeme(m: LexerStateMachine) -> bool { m.state != LexerStateMachine_State::Normal && m.state != LexerStateMachine_State::End }
pub open spec fn placed(m: LexerStateMachine, t: Seq<int>, b: int, i: int) -> bool { m.currentPosition == pos(t, i) && (in_lexeme(m) ==> m.beginPosition == pos(t, b)) }
pub open spec fn done_ok(m: LexerStateMachine, t: Seq<int>, a: int, b: int, i: int, r: Option<Token>) -> bool {
    match r {
        None => pend(m, t, a, b, i + 1),
        Some(tok) => (m.state == LexerStateMachine_State::Normal || m.state == LexerStateMachine_State::End)
            && (at(t, b) == 0 ==> m.state == LexerStateMachine_State::End) && (tok.kind != TokenKind::Error && at(t, b) != 0 ==> m.state == LexerStateMachine_State::Normal && i < t.len())
            && (m.state == LexerStateMachine_State::End ==> at(t, i) == 0) && skip_end(t, a) == b && tok_ok(t, b, i + 1, tok),
    }
}
pub open spec fn up(l: Lexer) -> LexerStateMachine {
    LexerStateMachine { state: l.state, current: l.current, next: l.next, identifier: l.identifier, numberLexer: l.numberLexer, regex: l.regex, currentPosition: l.currentPosition, beginPosition: l.beginPosition, endPosition: l.endPosition, error: l.error, keywordMap: l.keywordMap, symbols: l.symbols }
}
pub open spec fn stands(l: Lexer, t: Seq<int>, a: int) -> bool {
    0 <= a && ready(up(l), t, a - 1) && l.lastChar == at(t, a)
    && ((l.state == LexerStateMachine_State::Normal && a <= t.len()) || (l.state == LexerStateMachine_State::End && a >= t.len()))
}
pub open spec fn scanned(l: Lexer, t: Seq<int>, a: int, e: int, tok: Token) -> bool {
    tok_ok(t, skip_end(t, a), e, tok) && (tok.kind != TokenKind::Error ==> stands(l, t, e)) && (at(t, skip_end(t, a)) == 0 ==> l.state == LexerStateMachine_State::End)
}
pub proof fn lemma_skip_end(t: Seq<int>, k: int) ensures skip_end(t, k) >= k decreases (if k < t.len() { t.len() - k } else { 0 }) { if k < t.len() && spc(at(t, k)) { lemma_skip_end(t, k + 1); } }
// Every scan consumes at least one character; the consumed region is white space followed by one lexeme.
pub proof fn lemma_progress(t: Seq<int>, a: int, e: int, tok: Token) requires tok_ok(t, skip_end(t, a), e, tok) ensures a <= skip_end(t, a) < e { lemma_skip_end(t, a); }
pub proof fn lemma_dval(t: Seq<int>, b: int, k: int) requires dig_run(t, b, k) ensures dval(t, b, k) >= 0 decreases k - b { if k > b { assert(dig(at(t, k - 1))); lemma_dval(t, b, k - 1); } }
%end
%fn (anonymous namespace)::isDigit(char)
%name isDigit
%optional
%ens
- [decimal digits] ret == dig(c)
%endfn
%fn (anonymous namespace)::isNonDigit(char)
%name isNonDigit
%optional
%ens
- [letters and underscore] ret == ndig(c)
%endfn
%fn marco::vf::LexerStateMachine::advance(char)
%name Vm_advance
%ghost t: Seq<int>, i: int
%req
- ready(this, t, i) && c == at(t, i + 2) && i < 4611686018427387903
- [position before the character] this.currentPosition == pos(t, i)
%ens
- [one character is consumed] post_this == (LexerStateMachine { current: at(t, i + 1), next: at(t, i + 2), currentPosition: post_this.currentPosition, ..this })
- [position of the consumed character] post_this.currentPosition == pos(t, i + 1)
%entry
lemma_pos_bound(t, i);
%endfn
%fn marco::vf::LexerStateMachine::scan<State::ParsingId>()
%name Vm_scan_ParsingId
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == LexerStateMachine_State::ParsingId && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
assert(sub(t, b, i).push(at(t, i)) =~= sub(t, b, i + 1));
%endfn
%fn marco::vf::LexerStateMachine::scan<State::ParsingNum>()
%name Vm_scan_ParsingNum
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == LexerStateMachine_State::ParsingNum && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
lemma_dval(t, b, i); assert(dig(at(t, i))); assert(dval(t, b, i + 1) == dval(t, b, i) * 10 + (at(t, i) - 48));
%endfn
%fn marco::vf::LexerStateMachine::scan<State::ParsingRegex>()
%name Vm_scan_ParsingRegex
%ghost t: Seq<int>, a: int, b: int, i: int
%req
- ready(this, t, i)
- this.state == LexerStateMachine_State::ParsingRegex && pend(this, t, a, b, i)
- [position at entry] placed(this, t, b, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, b, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, b, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, b, i + 1, ret->0)
%entry
assert(sub(t, b + 1, i).push(at(t, i)) =~= sub(t, b + 1, i + 1));
%endfn
%fn marco::vf::LexerStateMachine::scan<State::Normal>()
%name Vm_scan_Normal
%ghost t: Seq<int>, a: int, i: int
%with Vm_scan_ParsingId b = i
%with Vm_scan_ParsingNum b = i
%req
- ready(this, t, i)
- this.state == LexerStateMachine_State::Normal && pend(this, t, a, 0, i) && a <= i
- [position at entry] this.currentPosition == pos(t, i)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, i, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, i, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, i, i + 1, ret->0)
%entry
assert(sub(t, i, i) =~= Seq::<int>::empty()); assert(sub(t, i + 1, i + 1) =~= Seq::<int>::empty());
%endfn
%fn marco::vf::LexerStateMachine::step(char)
%name Vm_step
%ghost t: Seq<int>, a: int, b: int, i: int
%with Vm_advance i = (i - 1)
%req
- ready(this, t, i - 1) && i < 4611686018427387903
- c == at(t, i + 1)
- pend(this, t, a, b, i) && 0 <= a <= i
- [position at entry] placed(this, t, b, i - 1)
%ens
- ready(post_this, t, i)
- [the machine makes the right move] done_ok(post_this, t, a, if this.state == LexerStateMachine_State::Normal || this.state == LexerStateMachine_State::End { i } else { b }, i, ret)
- [position of the machine] ret is None ==> placed(post_this, t, if this.state == LexerStateMachine_State::Normal || this.state == LexerStateMachine_State::End { i } else { b }, i)
- [position of the current character] post_this.currentPosition == pos(t, i)
- [location of the token is that of its lexeme] ret is Some ==> loc_ok(t, if this.state == LexerStateMachine_State::Normal || this.state == LexerStateMachine_State::End { i } else { b }, i + 1, ret->0)
%endfn
%fn marco::vf::LexerStateMachine::LexerStateMachine(std::shared_ptr<marco::SourceFile>, char)
%name Vm_new
%ghost t: Seq<int>
%req
- text_ok(t) && first == at(t, 0)
%ens
- [the machine starts before the first character] ready(ret, t, -1) && ret.state == LexerStateMachine_State::Normal
- [position before the first character] ret.currentPosition == pos(t, -1)
%endfn
%fn marco::lexer::Lexer<marco::vf::LexerStateMachine>::scan()
%name Vx_scan
%ghost t: Seq<int>, a: int
%with Vm_step b = gb; i = gi
%model getNext = at(t, gi + 1)
%req
- stands(this, t, a) && a < 4611686018427380000
- [position at entry] this.currentPosition == pos(t, a - 1)
%ens
- [a token is the longest lexeme after the skipped text, and the next scan starts behind it] exists|e: int| scanned(post_this, t, a, e, ret)
- [location of the token is that of its lexeme] exists|e: int| #[trigger] loc_ok(t, skip_end(t, a), e, ret) && scanned(post_this, t, a, e, ret) && post_this.currentPosition == pos(t, e - 1)
%entry
let ghost mut gi: int = a;
let ghost mut gb: int = a;
%loop 1
%inv
- a <= gi
- @token is None ==> a <= gb && (@this.state == LexerStateMachine_State::End || gi <= t.len() + 1) && pend(up(@this), t, a, gb, gi) && ready(up(@this), t, gi - 1) && @this.lastChar == at(t, gi)
- @token is Some ==> scanned(@this, t, a, gi, @token->0)
- [position in the loop] this.currentPosition == pos(t, gi - 1) && (@token is None ==> placed(up(@this), t, gb, gi - 1)) && (@token is Some ==> loc_ok(t, skip_end(t, a), gi, @token->0))
%dec
- if @token is Some { 0 } else { max_(1, t.len() + 5 - gi) }
%begin
let ghost st0 = this.state;
%end
if st0 == LexerStateMachine_State::Normal || st0 == LexerStateMachine_State::End { gb = gi; }
gi = gi + 1;
%endloop
%endfn
