%prelude
// ---- iteration over a range / a box
pub open spec fn at_begin(s: Seq<Range>) -> Seq<int> { corner(s) }
pub open spec fn is_last(s: Seq<Range>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] p[i] == s[i].end_ - 1 }
// q follows p: last digit position k that can still grow is incremented, later digits restart
pub open spec fn succ_at(s: Seq<Range>, p: Seq<int>, q: Seq<int>, k: int) -> bool {
    0 <= k < s.len() && q.len() == p.len() && p.len() == s.len() && p[k] + 1 < s[k].end_ && q[k] == p[k] + 1
    && (forall|j: int| 0 <= j < k ==> #[trigger] q[j] == p[j])
    && (forall|j: int| k < j < s.len() ==> #[trigger] p[j] == s[j].end_ - 1)
    && (forall|j: int| k < j < s.len() ==> #[trigger] q[j] == s[j].begin_)
}
pub open spec fn succ(s: Seq<Range>, p: Seq<int>, q: Seq<int>) -> bool { exists|k: int| succ_at(s, p, q, k) }
// mixed-radix position of a point inside the box
pub open spec fn lin(s: Seq<Range>, p: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { lin(s, p, n - 1) * rlen(s[n - 1]) + (p[n - 1] - s[n - 1].begin_) } }
pub proof fn lemma_lin_begin(s: Seq<Range>, n: int) requires 0 <= n <= s.len() ensures lin(s, corner(s), n) == 0 decreases n
{ if n > 0 { lemma_lin_begin(s, n - 1); assert(0 * rlen(s[n - 1]) == 0); } }
pub proof fn lemma_lin_same(s: Seq<Range>, p: Seq<int>, q: Seq<int>, n: int) requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> #[trigger] p[j] == q[j] ensures lin(s, p, n) == lin(s, q, n) decreases n
{ if n > 0 { lemma_lin_same(s, p, q, n - 1); assert(p[n - 1] == q[n - 1]); } }
pub proof fn lemma_lin_bound(s: Seq<Range>, p: Seq<int>, n: int) requires swf(s), sin(s, p), 0 <= n <= s.len() ensures 0 <= lin(s, p, n) < bsz(s, n) decreases n
{
    if n > 0 {
        lemma_lin_bound(s, p, n - 1); assert(rwf(s[n - 1])); assert(rin(s[n - 1], p[n - 1]));
        let a = lin(s, p, n - 1); let b = bsz(s, n - 1); let l = rlen(s[n - 1]); let d = p[n - 1] - s[n - 1].begin_;
        assert(0 <= a * l + d < b * l) by (nonlinear_arith) requires 0 <= a <= b - 1, 0 <= d <= l - 1;
    }
}
// C04: each step of the iteration moves exactly one position forward
pub proof fn lemma_lin_succ(s: Seq<Range>, p: Seq<int>, q: Seq<int>, k: int, n: int)
    requires swf(s), succ_at(s, p, q, k), k < n <= s.len()
    ensures lin(s, q, n) == lin(s, p, n) + 1
    decreases n
{
    if n == k + 1 { lemma_lin_same(s, p, q, k); }
    else {
        lemma_lin_succ(s, p, q, k, n - 1);
        let l = rlen(s[n - 1]); let a = lin(s, p, n - 1);
        assert(p[n - 1] == s[n - 1].end_ - 1); assert(q[n - 1] == s[n - 1].begin_);
        assert((a + 1) * l == a * l + l) by (nonlinear_arith);
    }
}
// positions identify points
pub proof fn lemma_lin_inj(s: Seq<Range>, p: Seq<int>, q: Seq<int>, n: int)
    requires swf(s), sin(s, p), sin(s, q), 0 <= n <= s.len(), lin(s, p, n) == lin(s, q, n)
    ensures forall|j: int| 0 <= j < n ==> #[trigger] p[j] == q[j]
    decreases n
{
    if n > 0 {
        assert(rin(s[n - 1], p[n - 1])); assert(rin(s[n - 1], q[n - 1]));
        let l = rlen(s[n - 1]); let a = lin(s, p, n - 1); let b = lin(s, q, n - 1); let d = p[n - 1] - s[n - 1].begin_; let e = q[n - 1] - s[n - 1].begin_;
        assert(a == b) by (nonlinear_arith) requires a * l + d == b * l + e, 0 <= d < l, 0 <= e < l;
        lemma_lin_inj(s, p, q, n - 1);
    }
}
// C04: iteration over a box, stated over the iterator contracts below: the k-th point produced has position k,
// all positions below size() are reached, so every point is produced exactly once.
pub proof fn lemma_last_position(s: Seq<Range>, p: Seq<int>, n: int) requires swf(s), sin(s, p), is_last(s, p), 0 <= n <= s.len() ensures lin(s, p, n) == bsz(s, n) - 1 decreases n
{
    if n > 0 {
        lemma_last_position(s, p, n - 1); let l = rlen(s[n - 1]); let b = bsz(s, n - 1);
        assert(p[n - 1] == s[n - 1].end_ - 1);
        assert((b - 1) * l + (l - 1) == b * l - 1) by (nonlinear_arith);
    }
}
pub proof fn lemma_iteration_order(s: Seq<Range>, p: Seq<int>, q: Seq<int>)
    requires swf(s), sin(s, p), succ(s, p, q)
    ensures sin(s, q), seq_cmp(p, q) < 0, lin(s, q, s.len() as int) == lin(s, p, s.len() as int) + 1
{
    let k = choose|k: int| succ_at(s, p, q, k);
    assert forall|i: int| 0 <= i < s.len() implies rin(#[trigger] s[i], q[i]) by { assert(rin(s[i], p[i])); assert(rwf(s[i])); if i < k { assert(q[i] == p[i]); } else if i > k { assert(q[i] == s[i].begin_); } }
    assert forall|j: int| 0 <= j < k implies p[j] == q[j] by { assert(q[j] == p[j]); }
    lemma_seq_cmp_at(p, q, k);
    lemma_lin_succ(s, p, q, k, s.len() as int);
}
pub proof fn lemma_iteration_visits_each_point_once(s: Seq<Range>, trace: Seq<Seq<int>>, p: Seq<int>) -> (k: int)
    requires swf(s), trace.len() >= 1, trace[0] =~= corner(s), is_last(s, trace.last()), sin(s, p),
        forall|k: int| 0 <= k < trace.len() ==> sin(s, #[trigger] trace[k]),
        forall|k: int| 0 < k < trace.len() ==> succ(s, trace[k - 1], #[trigger] trace[k]),
    ensures trace.len() == bsz(s, s.len() as int), 0 <= k < trace.len(), trace[k] =~= p,
        forall|j: int| 0 <= j < trace.len() && trace[j] =~= p ==> j == k
{
    let n = s.len() as int;
    lemma_trace_positions(s, trace, trace.len() - 1);
    lemma_last_position(s, trace.last(), n); lemma_lin_bound(s, p, n);
    let k = lin(s, p, n);
    lemma_lin_inj(s, p, trace[k], n);
    assert forall|j: int| 0 <= j < trace.len() && trace[j] =~= p implies j == k by { assert(lin(s, trace[j], n) == j); }
    k
}
pub proof fn lemma_trace_positions(s: Seq<Range>, trace: Seq<Seq<int>>, m: int)
    requires swf(s), trace.len() >= 1, trace[0] =~= corner(s), 0 <= m < trace.len(),
        forall|k: int| 0 <= k < trace.len() ==> sin(s, #[trigger] trace[k]),
        forall|k: int| 0 < k < trace.len() ==> succ(s, trace[k - 1], #[trigger] trace[k]),
    ensures forall|k: int| 0 <= k <= m ==> lin(s, #[trigger] trace[k], s.len() as int) == k
    decreases m
{
    if m == 0 { lemma_lin_begin(s, s.len() as int); }
    else { lemma_trace_positions(s, trace, m - 1); lemma_iteration_order(s, trace[m - 1], trace[m]);
      assert forall|k: int| 0 <= k <= m implies lin(s, #[trigger] trace[k], s.len() as int) == k by { if k == m {} } }
}
// iterator state
pub open spec fn rit(r: Range, c: int) -> Range_Iterator { Range_Iterator { current: c, end: r.end_ } }
pub open spec fn it_shape(it: MultidimensionalRange_Iterator, s: Seq<Range>) -> bool {
    it.beginIterators.len() == s.len() && it.currentIterators.len() == s.len() && it.endIterators.len() == s.len() && it.indices.len() == s.len()
    && (forall|i: int| 0 <= i < s.len() ==> #[trigger] it.beginIterators[i] == rit(s[i], s[i].begin_))
    && (forall|i: int| 0 <= i < s.len() ==> #[trigger] it.endIterators[i] == rit(s[i], s[i].end_))
    && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.currentIterators[i]).end == s[i].end_ && s[i].begin_ <= it.currentIterators[i].current <= s[i].end_)
}
pub open spec fn it_at(it: MultidimensionalRange_Iterator, s: Seq<Range>, p: Seq<int>) -> bool {
    it_shape(it, s) && p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.currentIterators[i]).current == p[i]) && it.indices =~= p
}
pub open spec fn it_end(it: MultidimensionalRange_Iterator, s: Seq<Range>) -> bool {
    it_shape(it, s) && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.currentIterators[i]).current == s[i].end_)
}
pub proof fn lemma_end_distinct(a: MultidimensionalRange_Iterator, b: MultidimensionalRange_Iterator, s: Seq<Range>, p: Seq<int>)
    requires swf(s), s.len() > 0, it_at(a, s, p), sin(s, p), it_end(b, s)
    ensures a.currentIterators != b.currentIterators
{ assert(rin(s[0], p[0])); assert(a.currentIterators[0].current != b.currentIterators[0].current); }
%end

%fn marco::modeling::Range::begin() const
%name Range_begin
%ens
- ret == (Range_Iterator { current: this.begin_, end: this.end_ })
%endfn
%fn marco::modeling::Range::end() const
%name Range_end
%ens
- ret == (Range_Iterator { current: this.end_, end: this.end_ })
%endfn
%fn marco::modeling::Range::Iterator::operator==(marco::modeling::Range::Iterator const&) const
%name RangeIt_eq
%ens
- ret == (this == other)
%endfn
%structeq Range::Iterator : true
%fn marco::modeling::Range::Iterator::operator!=(marco::modeling::Range::Iterator const&) const
%name RangeIt_ne
%ens
- ret == (this != other)
%endfn
%fn marco::modeling::Range::Iterator::operator++()
%name RangeIt_inc
%req
- this.current < this.end
%ens
- post_this == (Range_Iterator { current: this.current + 1, end: this.end })
%endfn
%fn marco::modeling::Range::Iterator::operator++(int)
%name RangeIt_postinc
%req
- this.current < this.end
%ens
- ret == this
- post_this == (Range_Iterator { current: this.current + 1, end: this.end })
%endfn
%fn marco::modeling::Range::Iterator::operator*()
%name RangeIt_deref
%ens
- ret == this.current && post_this == this
%endfn

%fn marco::modeling::MultidimensionalRange::Iterator::Iterator(llvm::ArrayRef<marco::modeling::Range>, llvm::function_ref<marco::modeling::Range::Iterator (marco::modeling::Range const&)>)
%inline
%loop 1
%inv
- @this.beginIterators.len() == $i && @this.currentIterators.len() == $i && @this.endIterators.len() == $i && @this.indices.len() == $i
- forall|j: int| 0 <= j < $i ==> #[trigger] @this.beginIterators[j] == rit($seq[j], $seq[j].begin_)
- forall|j: int| 0 <= j < $i ==> #[trigger] @this.endIterators[j] == rit($seq[j], $seq[j].end_)
- forall|j: int| 0 <= j < $i ==> #[trigger] @this.currentIterators[j] == rit($seq[j], if is_begin { $seq[j].begin_ } else { $seq[j].end_ })
- forall|j: int| 0 <= j < $i ==> #[trigger] @this.indices[j] == @this.currentIterators[j].current
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::begin() const
%name Box_begin
%req
- bwf(this)
%ens
- [iteration starts at the smallest point] it_at(ret, this.ranges, corner(this.ranges))
%entry
let ghost is_begin = true;
%exit
assert forall|i: int| 0 <= i < this.ranges.len() implies rwf(#[trigger] this.ranges[i]) by {}
%endfn

%fn marco::modeling::MultidimensionalRange::end() const
%name Box_end
%req
- bwf(this)
%ens
- it_end(ret, this.ranges)
%entry
let ghost is_begin = false;
%endfn

%fn marco::modeling::MultidimensionalRange::Iterator::operator==(marco::modeling::MultidimensionalRange::Iterator const&) const
%name BoxIt_eq
%ens
- ret == (this.currentIterators == it.currentIterators)
%endfn
%fn marco::modeling::MultidimensionalRange::Iterator::operator!=(marco::modeling::MultidimensionalRange::Iterator const&) const
%name BoxIt_ne
%ens
- ret == (this.currentIterators != it.currentIterators)
%endfn
%fn marco::modeling::MultidimensionalRange::Iterator::operator*() const
%name BoxIt_deref
%ens
- ret.values =~= this.indices
%endfn

%fn marco::modeling::MultidimensionalRange::Iterator::fetchNext()
%name BoxIt_fetchNext
%req
- exists|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && it_at(this, s, p)
%ens
- [the next point is produced, or the end is reached after the last one] forall|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && #[trigger] it_at(this, s, p) ==> if is_last(s, p) { it_end(post_this, s) } else { succ(s, p, post_this.indices) && it_at(post_this, s, post_this.indices) }
%entry
let ghost sp = choose|sp: (Seq<Range>, Seq<int>)| swf(sp.0) && sin(sp.0, sp.1) && it_at(this, sp.0, sp.1);
let ghost s = sp.0;
let ghost p = sp.1;
assert(exists|sp: (Seq<Range>, Seq<int>)| swf(sp.0) && sin(sp.0, sp.1) && it_at(this, sp.0, sp.1)) by { let (a, b) = choose|a: Seq<Range>, b: Seq<int>| swf(a) && sin(a, b) && it_at(this, a, b); assert(swf((a, b).0) && sin((a, b).0, (a, b).1) && it_at(this, (a, b).0, (a, b).1)); }
%loop 1
%inv
- !$done
- it_shape(this, s) && this.indices =~= p && this.beginIterators == old_this.beginIterators && this.endIterators == old_this.endIterators
- forall|j: int| 0 <= j < s.len() - $i ==> (#[trigger] this.currentIterators[j]).current == p[j]
- forall|j: int| s.len() - $i <= j < s.len() ==> (#[trigger] this.currentIterators[j]).current == s[j].end_
- forall|j: int| s.len() - $i <= j < s.len() ==> #[trigger] p[j] == s[j].end_ - 1
%loopens
- it_shape(this, s) && this.indices =~= p && this.beginIterators == old_this.beginIterators && this.endIterators == old_this.endIterators
- !$done ==> it_end(this, s) && is_last(s, p)
- $done ==> $ret.0 && 0 <= $ret.1 < s.len()
- $done ==> p[$ret.1] + 1 < s[$ret.1].end_ && this.currentIterators[$ret.1].current == p[$ret.1] + 1
- $done ==> forall|j: int| 0 <= j < $ret.1 ==> (#[trigger] this.currentIterators[j]).current == p[j]
- $done ==> forall|j: int| $ret.1 < j < s.len() ==> #[trigger] p[j] == s[j].end_ - 1
%begin
assert(rin(s[s.len() - $i - 1], p[s.len() - $i - 1]));
%endloop
%loop 2
%inv
- index.0 && pos == index.1 && 0 <= pos < s.len() && size == s.len()
- it_shape(this, s)
- p[pos] + 1 < s[pos].end_
- forall|j: int| pos < j < s.len() ==> #[trigger] p[j] == s[j].end_ - 1
- forall|j: int| 0 <= j < pos ==> (#[trigger] this.currentIterators[j]).current == p[j]
- this.currentIterators[pos].current == p[pos] + 1
- forall|j: int| 0 <= j < pos ==> #[trigger] this.indices[j] == p[j]
- this.indices[pos] == p[pos] + 1
- forall|j: int| pos < j < $i ==> (#[trigger] this.currentIterators[j]).current == s[j].begin_
- forall|j: int| pos < j < $i ==> #[trigger] this.indices[j] == s[j].begin_
- this.beginIterators == old_this.beginIterators
%begin
assert(rwf(s[$i]));
%endloop
%exit
if index.0 { assert(p[index.1] != s[index.1].end_ - 1); assert(!is_last(s, p)); }
if !is_last(s, p) { assert(succ_at(s, p, post_this.indices, index.1)); assert(it_at(post_this, s, post_this.indices)); }
assert forall|s2: Seq<Range>, p2: Seq<int>| swf(s2) && sin(s2, p2) && #[trigger] it_at(old_this, s2, p2) implies s2 =~= s && p2 =~= p by {
  assert forall|i: int| 0 <= i < s.len() implies s2[i] == s[i] by { assert(old_this.beginIterators[i] == rit(s[i], s[i].begin_)); assert(old_this.beginIterators[i] == rit(s2[i], s2[i].begin_)); }
}
%endfn

%fn marco::modeling::MultidimensionalRange::Iterator::operator++()
%name BoxIt_inc
%req
- exists|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && it_at(this, s, p)
%ens
- forall|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && #[trigger] it_at(this, s, p) ==> if is_last(s, p) { it_end(post_this, s) } else { succ(s, p, post_this.indices) && it_at(post_this, s, post_this.indices) }
%endfn
%fn marco::modeling::MultidimensionalRange::Iterator::operator++(int)
%name BoxIt_postinc
%req
- exists|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && it_at(this, s, p)
%ens
- ret == this
- forall|s: Seq<Range>, p: Seq<int>| swf(s) && sin(s, p) && #[trigger] it_at(this, s, p) ==> if is_last(s, p) { it_end(post_this, s) } else { succ(s, p, post_this.indices) && it_at(post_this, s, post_this.indices) }
%endfn
