%prelude
pub open spec fn i64max() -> int { 9223372036854775807 }
// value of a sequence of digits in a base
pub open spec fn digits_ok(s: Seq<int>, base: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < base }
pub open spec fn num(s: Seq<int>, base: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last(), base) * base + s.last() } }
// one digit: exact whenever the result fits; the accumulator stays a non-negative 64-bit integer in any case
pub open spec fn acc_step(v: int, base: int, d: int, v2: int) -> bool { 0 <= v2 <= i64max() && (v * base + d <= i64max() ==> v2 == v * base + d) }
pub proof fn lemma_digits_prefix(s: Seq<int>, base: int) requires digits_ok(s, base), s.len() > 0 ensures digits_ok(s.drop_last(), base)
{ assert forall|i: int| 0 <= i < s.drop_last().len() implies 0 <= #[trigger] s.drop_last()[i] < base by { assert(s.drop_last()[i] == s[i]); } }
pub proof fn lemma_num_nonneg(s: Seq<int>, base: int) requires base >= 2, digits_ok(s, base) ensures num(s, base) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_digits_prefix(s, base); lemma_num_nonneg(s.drop_last(), base); let a = num(s.drop_last(), base); assert(a * base >= 0) by (nonlinear_arith) requires a >= 0, base >= 2; } }
// Any sequence of += from an empty accumulator gives the exact value of the literal whenever it fits:
// v[k] is the accumulator after k digits.
pub proof fn lemma_literal_value(s: Seq<int>, base: int, v: Seq<int>)
    requires base >= 2, digits_ok(s, base), v.len() == s.len() + 1, v[0] == 0, forall|k: int| 0 <= k < s.len() ==> #[trigger] acc_step(v[k], base, s[k], v[k + 1]),
        num(s, base) <= i64max()
    ensures v.last() == num(s, base)
    decreases s.len()
{
    if s.len() > 0 {
        let h = s.drop_last(); let w = v.drop_last(); let a = num(h, base);
        lemma_digits_prefix(s, base); lemma_num_nonneg(h, base);
        assert(a <= a * base + s.last()) by (nonlinear_arith) requires a >= 0, base >= 2, s.last() >= 0;
        assert forall|k: int| 0 <= k < h.len() implies #[trigger] acc_step(w[k], base, h[k], w[k + 1]) by { assert(acc_step(v[k], base, s[k], v[k + 1])); }
        lemma_literal_value(h, base, w);
        let k = s.len() - 1; assert(acc_step(v[k], base, s[k], v[k + 1]));
    }
}
%end
%foreach B = 2..36
%fn marco::lexer::IntegerLexer<$Bu>::IntegerLexer(long)
%name Int$B_new
%ens
- [a new accumulator holds the given value] ret.value == value
%endfn
%fn marco::lexer::IntegerLexer<$Bu>::operator+=(int)
%name Int$B_add
%req
- 0 <= this.value
- 0 <= i < $B
%ens
- [the accumulated value is exact when it fits] acc_step(this.value, $B, i, post_this.value)
- [the result is the updated accumulator] ret == post_this
%endfn
%fn marco::lexer::IntegerLexer<$Bu>::get() const
%name Int$B_get
%ens
- [get returns the accumulated value] ret == this.value
%endfn
%fn marco::lexer::IntegerLexer<$Bu>::reset()
%name Int$B_reset
%ens
- [reset starts a fresh literal] post_this.value == 0
%endfn
%endforeach
