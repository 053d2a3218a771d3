%drop Lexer.getNext
%drop SourceFile.buffer
%drop SourcePosition.file
%prelude
// ---- text: t is the text without its terminator
pub open spec fn at(t: Seq<int>, k: int) -> int { if 0 <= k < t.len() { t[k] } else { 0 } }
pub open spec fn text_ok(t: Seq<int>) -> bool { t.len() < 1073741824 && (forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] != 0 && -128 <= t[k] <= 127) }
pub open spec fn sub(t: Seq<int>, b: int, e: int) -> Seq<int> { Seq::new((e - b) as nat, |k: int| at(t, b + k)) }
pub open spec fn p_line(t: Seq<int>, k: int) -> int decreases k + 1 { if k < 0 { 1 } else { p_line(t, k - 1) + if at(t, k) == 10 { 1int } else { 0int } } }
pub open spec fn p_col(t: Seq<int>, k: int) -> int decreases k + 1 { if k < 0 { 0 } else if at(t, k) == 10 { 0 } else { p_col(t, k - 1) + 1 } }
pub open spec fn pos(t: Seq<int>, k: int) -> SourcePosition { SourcePosition { line: p_line(t, k), column: p_col(t, k) } }
pub proof fn lemma_pos_bound(t: Seq<int>, k: int) requires k >= -1 ensures 1 <= p_line(t, k) <= k + 2, 0 <= p_col(t, k) <= k + 1 decreases k + 1 { if k >= 0 { lemma_pos_bound(t, k - 1); } }
// ---- character classes
pub open spec fn dig(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn ndig(c: int) -> bool { 97 <= c <= 122 || 65 <= c <= 90 || c == 95 }
pub open spec fn spc(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn dval(t: Seq<int>, b: int, k: int) -> int decreases k - b { if k <= b { 0 } else { dval(t, b, k - 1) * 10 + (at(t, k - 1) - 48) } }
pub open spec fn lit_ok(t: Seq<int>, b: int, e: int, v: int) -> bool { v >= 0 && (dval(t, b, e) <= 9223372036854775807 ==> v == dval(t, b, e)) }
%end
