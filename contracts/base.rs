// Semantics of C++ machine arithmetic over mathematical integers (fixed text, no assumption).
pub open spec fn uwrap64(x: int) -> int { if 0 <= x <= 18446744073709551615 { x } else { x % 18446744073709551616 } }
pub open spec fn uwrap32(x: int) -> int { if 0 <= x <= 4294967295 { x } else { x % 4294967296 } }
pub open spec fn uwrap16(x: int) -> int { if 0 <= x <= 65535 { x } else { x % 65536 } }
pub open spec fn uwrap8(x: int) -> int { if 0 <= x <= 255 { x } else { x % 256 } }
pub open spec fn swrap64(x: int) -> int { if -9223372036854775808 <= x <= 9223372036854775807 { x } else { (x + 9223372036854775808) % 18446744073709551616 - 9223372036854775808 } }
pub open spec fn swrap32(x: int) -> int { if -2147483648 <= x <= 2147483647 { x } else { (x + 2147483648) % 4294967296 - 2147483648 } }
pub open spec fn swrap16(x: int) -> int { if -32768 <= x <= 32767 { x } else { (x + 32768) % 65536 - 32768 } }
pub open spec fn swrap8(x: int) -> int { if -128 <= x <= 127 { x } else { (x + 128) % 256 - 128 } }
pub open spec fn min_(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn max_(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn abs_(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 && b < 0 { -(a / (-b)) } else if b < 0 { (-a) / (-b) } else { 0 } }
pub open spec fn tmod(a: int, b: int) -> int { a - tdiv(a, b) * b }
pub open spec fn udiv(a: int, b: int) -> int { a / b }
pub open spec fn umod(a: int, b: int) -> int { a % b }
pub open spec fn seq_resize<A>(s: Seq<A>, n: int, fill: A) -> Seq<A> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { fill }) }
pub open spec fn bits_count(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bits_count(s.drop_last()) + if s.last() { 1int } else { 0int } } }
// a is a permutation of b (f maps the positions of a to those of b, g back)
pub open spec fn perm_by<A>(a: Seq<A>, b: Seq<A>, f: spec_fn(int) -> int, g: spec_fn(int) -> int) -> bool
{ a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] f(i) < a.len() && a[i] == b[f(i)] && g(f(i)) == i) && (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] g(i) < a.len() && f(g(i)) == i) }
pub open spec fn is_perm<A>(a: Seq<A>, b: Seq<A>) -> bool { exists|f: spec_fn(int) -> int, g: spec_fn(int) -> int| perm_by(a, b, f, g) }
pub uninterp spec fn probe(k: int) -> bool;
// floating point is uninterpreted: nothing is proved about the value of a double
pub struct Real { pub id: int }
pub uninterp spec fn real_add(a: Real, b: Real) -> Real;
pub uninterp spec fn real_sub(a: Real, b: Real) -> Real;
pub uninterp spec fn real_mul(a: Real, b: Real) -> Real;
pub uninterp spec fn real_div(a: Real, b: Real) -> Real;
pub uninterp spec fn real_neg(a: Real) -> Real;
pub uninterp spec fn real_pow(a: Real, b: Real) -> Real;
pub uninterp spec fn real_lt(a: Real, b: Real) -> bool;
pub uninterp spec fn real_le(a: Real, b: Real) -> bool;
pub uninterp spec fn real_eq(a: Real, b: Real) -> bool;
pub uninterp spec fn real_of_int(a: int) -> Real;
pub uninterp spec fn real_lit(a: int) -> Real;
// diagnostics text
pub uninterp spec fn dec_string(a: int) -> Seq<int>;
// white space of the C locale
pub open spec fn c_isspace(c: int) -> int { if c == 32 || 9 <= c <= 13 { 1 } else { 0 } }
// llvm::Regex is not modelled
pub uninterp spec fn regex_valid(s: Seq<int>) -> bool;
// C++ branches on a ghost value: the only trusted executable stub.
#[verifier::external_body]
fn reify(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }
