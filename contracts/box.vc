%prelude
// ---- multidimensional boxes as sets of points (a point = sequence of coordinates)
pub open spec fn bwf(b: MultidimensionalRange) -> bool { forall|i: int| 0 <= i < b.ranges.len() ==> rwf(#[trigger] b.ranges[i]) }
pub open spec fn swf(s: Seq<Range>) -> bool { forall|i: int| 0 <= i < s.len() ==> rwf(#[trigger] s[i]) }
pub open spec fn sin(s: Seq<Range>, p: Seq<int>) -> bool { p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> rin(#[trigger] s[i], p[i])) }
pub open spec fn bin(b: MultidimensionalRange, p: Seq<int>) -> bool { sin(b.ranges, p) }
pub open spec fn bov(a: MultidimensionalRange, b: MultidimensionalRange) -> bool { forall|i: int| 0 <= i < a.ranges.len() ==> rov(#[trigger] a.ranges[i], b.ranges[i]) }
pub open spec fn rle(a: Range, b: Range) -> bool { b.begin_ <= a.begin_ && a.end_ <= b.end_ }
pub open spec fn rint(a: Range, b: Range) -> Range { Range { begin_: max_(a.begin_, b.begin_), end_: min_(a.end_, b.end_) } }
pub open spec fn corner(s: Seq<Range>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].begin_) }
pub proof fn lemma_corner(s: Seq<Range>) requires swf(s) ensures sin(s, corner(s)) { }
// a point of s whose i-th coordinate is v
pub proof fn lemma_point_at(s: Seq<Range>, i: int, v: int) -> (p: Seq<int>)
    requires swf(s), 0 <= i < s.len(), rin(s[i], v)
    ensures sin(s, p), p[i] == v
{ let p = corner(s).update(i, v); lemma_corner(s); p }
pub proof fn lemma_boxes_overlap(a: Seq<Range>, b: Seq<Range>)
    requires swf(a), swf(b), a.len() == b.len()
    ensures (forall|i: int| 0 <= i < a.len() ==> rov(#[trigger] a[i], b[i])) == (exists|p: Seq<int>| sin(a, p) && sin(b, p))
{
    if forall|i: int| 0 <= i < a.len() ==> rov(#[trigger] a[i], b[i]) {
        let p = Seq::new(a.len(), |i: int| max_(a[i].begin_, b[i].begin_));
        assert forall|i: int| 0 <= i < a.len() implies rin(#[trigger] a[i], p[i]) by { assert(rov(a[i], b[i])); assert(rwf(b[i])); }
        assert forall|i: int| 0 <= i < b.len() implies rin(#[trigger] b[i], p[i]) by { assert(rov(a[i], b[i])); assert(rwf(a[i])); }
        assert(sin(a, p) && sin(b, p));
    }
    if exists|p: Seq<int>| sin(a, p) && sin(b, p) {
        let p = choose|p: Seq<int>| sin(a, p) && sin(b, p);
        assert forall|i: int| 0 <= i < a.len() implies rov(#[trigger] a[i], b[i]) by { assert(rin(a[i], p[i])); assert(rin(b[i], p[i])); }
    }
}
pub proof fn lemma_box_subset(a: Seq<Range>, b: Seq<Range>)
    requires swf(a), swf(b), a.len() == b.len()
    ensures (forall|i: int| 0 <= i < a.len() ==> rle(#[trigger] a[i], b[i])) == (forall|p: Seq<int>| #[trigger] sin(a, p) ==> sin(b, p))
{
    if forall|p: Seq<int>| #[trigger] sin(a, p) ==> sin(b, p) {
        assert forall|i: int| 0 <= i < a.len() implies rle(#[trigger] a[i], b[i]) by {
            let p = lemma_point_at(a, i, a[i].begin_); let q = lemma_point_at(a, i, a[i].end_ - 1);
            assert(sin(b, p) && sin(b, q)); assert(rin(b[i], p[i])); assert(rin(b[i], q[i]));
        }
    }
    if forall|i: int| 0 <= i < a.len() ==> rle(#[trigger] a[i], b[i]) {
        assert forall|p: Seq<int>| #[trigger] sin(a, p) implies sin(b, p) by {
            assert forall|i: int| 0 <= i < b.len() implies rin(#[trigger] b[i], p[i]) by { assert(rle(a[i], b[i])); assert(rin(a[i], p[i])); }
        }
    }
}
// two boxes are the same set of points exactly when they are equal dimension by dimension
pub proof fn lemma_box_ext(a: Seq<Range>, b: Seq<Range>)
    requires swf(a), swf(b), a.len() == b.len()
    ensures (a =~= b) == (forall|p: Seq<int>| sin(a, p) <==> sin(b, p))
{
    lemma_box_subset(a, b); lemma_box_subset(b, a);
    if forall|p: Seq<int>| sin(a, p) <==> sin(b, p) {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(rle(a[i], b[i])); assert(rle(b[i], a[i])); }
    }
}
pub proof fn lemma_box_ext_rank(a: Seq<Range>, b: Seq<Range>)
    requires swf(a), swf(b)
    ensures (a =~= b) == (forall|p: Seq<int>| sin(a, p) <==> sin(b, p))
{
    if a.len() == b.len() { lemma_box_ext(a, b); } else { lemma_corner(a); assert(sin(a, corner(a)) && !sin(b, corner(a))); }
}
pub open spec fn bseq_cmp(a: Seq<Range>, b: Seq<Range>) -> int decreases a.len()
{ if a.len() == 0 || b.len() == 0 { 0 } else if rcmp(a[0], b[0]) != 0 { rcmp(a[0], b[0]) } else { bseq_cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) } }
pub open spec fn bcmp(a: MultidimensionalRange, b: MultidimensionalRange) -> int { if a.ranges.len() != b.ranges.len() { cmp_int(a.ranges.len() as int, b.ranges.len() as int) } else { bseq_cmp(a.ranges, b.ranges) } }
pub proof fn lemma_bseq_cmp_at(a: Seq<Range>, b: Seq<Range>, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(), forall|j: int| 0 <= j < k ==> rcmp(#[trigger] a[j], b[j]) == 0
    ensures k < a.len() && rcmp(a[k], b[k]) != 0 ==> bseq_cmp(a, b) == rcmp(a[k], b[k]), k == a.len() ==> bseq_cmp(a, b) == 0
    decreases k
{
    if k > 0 {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        assert(rcmp(a[0], b[0]) == 0);
        assert forall|j: int| 0 <= j < k - 1 implies rcmp(#[trigger] a1[j], b1[j]) == 0 by { assert(a1[j] == a[j + 1]); assert(b1[j] == b[j + 1]); }
        if k < a.len() { assert(a1[k - 1] == a[k] && b1[k - 1] == b[k]); }
        lemma_bseq_cmp_at(a1, b1, k - 1);
    }
}
pub open spec fn rlen(r: Range) -> int { r.end_ - r.begin_ }
pub open spec fn bsz(s: Seq<Range>, n: int) -> int decreases n { if n <= 0 { 1 } else { bsz(s, n - 1) * rlen(s[n - 1]) } }
pub proof fn lemma_bsz_pos(s: Seq<Range>, n: int) requires swf(s), 0 <= n <= s.len() ensures bsz(s, n) >= 1 decreases n
{ if n > 0 { lemma_bsz_pos(s, n - 1); assert(rwf(s[n - 1])); assert(bsz(s, n - 1) * rlen(s[n - 1]) >= 1) by (nonlinear_arith) requires bsz(s, n - 1) >= 1, rlen(s[n - 1]) >= 1; } }
pub proof fn lemma_bsz_mono(s: Seq<Range>, m: int, n: int) requires swf(s), 0 <= m <= n <= s.len() ensures bsz(s, m) <= bsz(s, n) decreases n
{ if m < n { lemma_bsz_mono(s, m, n - 1); lemma_bsz_pos(s, n - 1); assert(rwf(s[n - 1]));
  assert(bsz(s, n - 1) * rlen(s[n - 1]) >= bsz(s, n - 1)) by (nonlinear_arith) requires bsz(s, n - 1) >= 1, rlen(s[n - 1]) >= 1; } }
pub open spec fn fits(s: Seq<Range>) -> bool { forall|i: int| 0 <= i < s.len() ==> rlen(#[trigger] s[i]) <= 0x7fff_ffff_ffff_ffff }
%end

%structeq Range : rwf($x)

%fn marco::modeling::MultidimensionalRange::MultidimensionalRange(marco::modeling::Point)
%name Box_from_point
%req
- forall|i: int| 0 <= i < point.values.len() ==> #[trigger] point.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- bwf(ret) && ret.ranges.len() == point.values.len()
- forall|i: int| 0 <= i < ret.ranges.len() ==> #[trigger] ret.ranges[i] == (Range { begin_: point.values[i], end_: point.values[i] + 1 })
- forall|p: Seq<int>| sin(ret.ranges, p) <==> p =~= point.values
%loop 1
%inv
- this.ranges.len() == $i
- forall|j: int| 0 <= j < $i ==> #[trigger] this.ranges[j] == (Range { begin_: point.values[j], end_: point.values[j] + 1 })
%endloop
%exit
assert forall|p: Seq<int>| sin(ret.ranges, p) implies p =~= point.values by { assert forall|i: int| 0 <= i < p.len() implies p[i] == point.values[i] by { assert(rin(ret.ranges[i], p[i])); } }
%endfn

%fn marco::modeling::MultidimensionalRange::operator==(marco::modeling::Point const&) const
%name Box_eq_point
%req
- bwf(this)
%ens
- ret == (forall|p: Seq<int>| sin(this.ranges, p) <==> p =~= other.values)
%loop 1
%inv
- this.ranges.len() == other.values.len()
- forall|j: int| 0 <= j < $i ==> #[trigger] this.ranges[j].begin_ == other.values[j] && this.ranges[j].end_ == other.values[j] + 1
%begin
assert(rin(this.ranges[$i], this.ranges[$i].begin_)); assert(rin(this.ranges[$i], this.ranges[$i].end_ - 1));
%endloop
%exit
lemma_corner(this.ranges);
if ret {
  assert forall|p: Seq<int>| sin(this.ranges, p) implies p =~= other.values by { assert forall|i: int| 0 <= i < p.len() implies p[i] == other.values[i] by { assert(rin(this.ranges[i], p[i])); } }
  assert forall|p: Seq<int>| p =~= other.values implies sin(this.ranges, p) by {}
} else if forall|p: Seq<int>| sin(this.ranges, p) <==> p =~= other.values {
  assert(sin(this.ranges, corner(this.ranges)));
  assert forall|j: int| 0 <= j < this.ranges.len() implies this.ranges[j].begin_ == other.values[j] && this.ranges[j].end_ == other.values[j] + 1 by {
    let q = lemma_point_at(this.ranges, j, this.ranges[j].end_ - 1); assert(sin(this.ranges, q)); let q0 = lemma_point_at(this.ranges, j, this.ranges[j].begin_); assert(sin(this.ranges, q0));
  }
}
%endfn

%fn marco::modeling::MultidimensionalRange::operator==(marco::modeling::MultidimensionalRange const&) const
%name Box_eq
%req
- bwf(this) && bwf(other)
%ens
- ret == (this == other)
- ret == (forall|p: Seq<int>| sin(this.ranges, p) <==> sin(other.ranges, p))
%loop 1
%inv
- this.ranges.len() == other.ranges.len()
- forall|j: int| 0 <= j < $i ==> this.ranges[j] == other.ranges[j]
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]));
%endloop
%exit
lemma_box_ext_rank(this.ranges, other.ranges);
assert((this.ranges =~= other.ranges) == (this == other));
%endfn

%fn marco::modeling::MultidimensionalRange::operator!=(marco::modeling::Point const&) const
%name Box_ne_point
%req
- bwf(this)
%ens
- ret == !(forall|p: Seq<int>| sin(this.ranges, p) <==> p =~= other.values)
%endfn

%fn marco::modeling::MultidimensionalRange::operator!=(marco::modeling::MultidimensionalRange const&) const
%name Box_ne
%req
- bwf(this) && bwf(other)
%ens
- ret == (this != other)
%endfn

%fn marco::modeling::MultidimensionalRange::operator<(marco::modeling::MultidimensionalRange const&) const
%name Box_lt
%ens
- ret == (bcmp(this, other) < 0)
%endfn

%fn marco::modeling::MultidimensionalRange::operator>(marco::modeling::MultidimensionalRange const&) const
%name Box_gt
%ens
- ret == (bcmp(this, other) > 0)
%endfn

%fn marco::modeling::MultidimensionalRange::compare(marco::modeling::MultidimensionalRange const&) const
%name Box_compare
%ens
- ret == bcmp(this, other)
%loop 1
%inv
- this.ranges.len() == other.ranges.len()
- forall|j: int| 0 <= j < $i ==> rcmp(#[trigger] this.ranges[j], other.ranges[j]) == 0
%begin
lemma_bseq_cmp_at(this.ranges, other.ranges, $i);
%after
lemma_bseq_cmp_at(this.ranges, other.ranges, this.ranges.len() as int);
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::rank() const
%name Box_rank
%ens
- ret == this.ranges.len()
%endfn

%fn marco::modeling::MultidimensionalRange::getSizes(llvm::SmallVectorImpl<unsigned long>&) const
%name Box_getSizes
%req
- bwf(this) && fits(this.ranges)
%ens
- post_sizes =~= sizes + Seq::new(this.ranges.len(), |i: int| rlen(this.ranges[i]))
%loop 1
%inv
- sizes =~= old_sizes + Seq::new($i as nat, |i: int| rlen(this.ranges[i]))
%begin
assert(rwf(this.ranges[$i]));
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::size() const
%name Box_size
%req
- bwf(this) && fits(this.ranges) && bsz(this.ranges, this.ranges.len() as int) <= 0xffff_ffff_ffff_ffff
%ens
- ret == bsz(this.ranges, this.ranges.len() as int)
%loop 1
%inv
- result == bsz(this.ranges, $i)
%begin
assert(rwf(this.ranges[$i])); lemma_bsz_mono(this.ranges, $i + 1, this.ranges.len() as int); lemma_bsz_pos(this.ranges, $i + 1);
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::contains(marco::modeling::Point const&) const
%name Box_contains_point
%req
- this.ranges.len() == other.values.len()
%ens
- ret == sin(this.ranges, other.values)
%loop 1
%inv
- forall|j: int| 0 <= j < $i ==> rin(#[trigger] this.ranges[j], other.values[j])
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::contains(marco::modeling::MultidimensionalRange const&) const
%name Box_contains
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len()
%ens
- ret == (forall|i: int| 0 <= i < this.ranges.len() ==> rle(#[trigger] other.ranges[i], this.ranges[i]))
- ret == (forall|p: Seq<int>| #[trigger] sin(other.ranges, p) ==> sin(this.ranges, p))
%loop 1
%inv
- forall|j: int| 0 <= j < $i ==> rle(#[trigger] other.ranges[j], this.ranges[j])
%begin
assert(rin(other.ranges[$i], other.ranges[$i].begin_)); assert(rin(other.ranges[$i], other.ranges[$i].end_ - 1));
assert(rwf(this.ranges[$i]));
%endloop
%exit
lemma_box_subset(other.ranges, this.ranges);
%endfn

%fn marco::modeling::MultidimensionalRange::overlaps(marco::modeling::MultidimensionalRange const&) const
%name Box_overlaps
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len()
%ens
- ret == bov(this, other)
- ret == (exists|p: Seq<int>| sin(this.ranges, p) && sin(other.ranges, p))
%loop 1
%inv
- forall|j: int| 0 <= j < $i ==> rov(#[trigger] this.ranges[j], other.ranges[j])
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]));
%endloop
%exit
lemma_boxes_overlap(this.ranges, other.ranges);
%endfn

%fn marco::modeling::MultidimensionalRange::anyDimensionOverlaps(marco::modeling::MultidimensionalRange const&) const
%name Box_anyDimensionOverlaps
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len()
%ens
- ret == (exists|i: int| 0 <= i < this.ranges.len() && rov(#[trigger] this.ranges[i], other.ranges[i]))
%loop 1
%inv
- forall|j: int| 0 <= j < $i ==> !rov(#[trigger] this.ranges[j], other.ranges[j])
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]));
%endloop
%endfn

%fn marco::modeling::MultidimensionalRange::intersect(marco::modeling::MultidimensionalRange const&) const
%name Box_intersect
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len() && bov(this, other)
%ens
- bwf(ret) && ret.ranges.len() == this.ranges.len()
- forall|i: int| 0 <= i < this.ranges.len() ==> #[trigger] ret.ranges[i] == rint(this.ranges[i], other.ranges[i])
- forall|p: Seq<int>| sin(ret.ranges, p) <==> sin(this.ranges, p) && sin(other.ranges, p)
%loop 1
%inv
- intersectionRanges.len() == $i
- forall|j: int| 0 <= j < $i ==> #[trigger] intersectionRanges[j] == rint(this.ranges[j], other.ranges[j])
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]) && rov(this.ranges[$i], other.ranges[$i]));
%endloop
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i]) && rwf(other.ranges[i]) && rov(this.ranges[i], other.ranges[i])); }
lemma_intersect_points(this.ranges, other.ranges, ret.ranges);
%endfn

%fn marco::modeling::MultidimensionalRange::canBeMerged(marco::modeling::MultidimensionalRange const&) const
%name Box_canBeMerged
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len()
%ens
- [merge possible exactly when the boxes differ in one dimension whose ranges touch] ret.0 == (exists|d: int| mergeable_at(this.ranges, other.ranges, d))
- ret.0 ==> mergeable_at(this.ranges, other.ranges, ret.1)
%loop 1
%inv
- !found ==> (forall|j: int| 0 <= j < $i ==> #[trigger] this.ranges[j] == other.ranges[j])
- found ==> 0 <= dimension < $i && touch(this.ranges[dimension], other.ranges[dimension]) && this.ranges[dimension] != other.ranges[dimension]
- found ==> (forall|j: int| 0 <= j < $i && j != dimension ==> #[trigger] this.ranges[j] == other.ranges[j])
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]));
%endloop
%exit
if ret.0 { assert(mergeable_at(this.ranges, other.ranges, ret.1)); } else { assert forall|d: int| !mergeable_at(this.ranges, other.ranges, d) by {} }
%endfn

%fn marco::modeling::MultidimensionalRange::merge(marco::modeling::MultidimensionalRange const&, unsigned long) const
%name Box_merge
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len() && 0 <= dimension < this.ranges.len() && touch(this.ranges[dimension], other.ranges[dimension])
- forall|j: int| 0 <= j < this.ranges.len() && j != dimension ==> #[trigger] this.ranges[j] == other.ranges[j]
%ens
- bwf(ret) && ret.ranges.len() == this.ranges.len()
- [exactly the union] forall|p: Seq<int>| sin(ret.ranges, p) <==> sin(this.ranges, p) || sin(other.ranges, p)
%loop 1
%inv
- mergedRanges.len() == $i
- forall|j: int| 0 <= j < $i && j != dimension ==> #[trigger] mergedRanges[j] == this.ranges[j]
- dimension < $i ==> rwf(mergedRanges[dimension]) && forall|v: int| rin(mergedRanges[dimension], v) <==> rin(this.ranges[dimension], v) || rin(other.ranges[dimension], v)
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]));
%endloop
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i])); }
lemma_merge_points(this.ranges, other.ranges, ret.ranges, dimension);
%endfn

%fn marco::modeling::MultidimensionalRange::subtract(marco::modeling::MultidimensionalRange const&) const
%name Box_subtract
%req
- bwf(this) && bwf(other) && this.ranges.len() == other.ranges.len()
%ens
- [pieces are well-formed boxes of the same rank] forall|k: int| 0 <= k < ret.len() ==> bwf(#[trigger] ret[k]) && ret[k].ranges.len() == this.ranges.len()
- [points are exactly the difference] forall|p: Seq<int>| (sin(this.ranges, p) && !sin(other.ranges, p)) <==> anyin(ret, p)
- [pieces are pairwise disjoint] pdisj(ret)
%loop 1
%inv
- bov(this, other)
- resultRanges.len() == this.ranges.len()
- forall|j: int| 0 <= j < $i ==> #[trigger] resultRanges[j] == rint(this.ranges[j], other.ranges[j])
- forall|j: int| $i <= j < this.ranges.len() ==> #[trigger] resultRanges[j] == this.ranges[j]
- allbox(results, this.ranges.len() as int)
- forall|p: Seq<int>| #[trigger] anyin(results, p) <==> sin(this.ranges, p) && outb(other.ranges, p, $i)
- pdisj(results)
%before
assert forall|p: Seq<int>| #[trigger] anyin(results, p) <==> sin(this.ranges, p) && outb(other.ranges, p, 0) by {}
%begin
assert(rwf(this.ranges[$i]) && rwf(other.ranges[$i]) && rov(this.ranges[$i], other.ranges[$i]));
%end
assert forall|p: Seq<int>| #[trigger] anyin(results, p) <==> sin(this.ranges, p) && outb(other.ranges, p, $i) by { lemma_outb_step(other.ranges, p, $i); }
%after
assert forall|p: Seq<int>| sin(this.ranges, p) implies (outb(other.ranges, p, this.ranges.len() as int) <==> !sin(other.ranges, p)) by { lemma_outb_all(other.ranges, p); }
%endloop
%loop 2
%inv
- resultRanges.len() == this.ranges.len()
- 0 <= i < this.ranges.len()
- forall|j: int| 0 <= j < i ==> #[trigger] resultRanges[j] == rint(this.ranges[j], other.ranges[j])
- forall|j: int| i < j < this.ranges.len() ==> #[trigger] resultRanges[j] == this.ranges[j]
- allbox(results, this.ranges.len() as int)
- forall|p: Seq<int>| #[trigger] anyin(results, p) <==> (sin(this.ranges, p) && outb(other.ranges, p, i)) || (sin(this.ranges, p) && !outb(other.ranges, p, i) && anyr($seq, p[i], $i))
- pdisj(results)
%before
assert forall|p: Seq<int>| #[trigger] anyin(results, p) implies (sin(this.ranges, p) && outb(other.ranges, p, i)) by {}
%begin
%begin
let ghost prev = results;
%end
let nb = results.last();
assert(results =~= prev.push(nb));
assert(nb.ranges =~= resultRanges);
assert forall|p: Seq<int>| #[trigger] anyin(results, p) <==> (sin(this.ranges, p) && outb(other.ranges, p, i)) || (sin(this.ranges, p) && !outb(other.ranges, p, i) && anyr($seq, p[i], $i)) by {
  lemma_anyin_push(prev, nb, p); lemma_piece_points(this.ranges, other.ranges, nb.ranges, $seq[$i - 1], i, p); lemma_anyr_step($seq, p[i], $i);
}
assert forall|p: Seq<int>| #[trigger] bin(nb, p) implies !anyin(prev, p) by {
  lemma_piece_points(this.ranges, other.ranges, nb.ranges, $seq[$i - 1], i, p);
  if anyr($seq, p[i], $i - 1) { let k = choose|k: int| 0 <= k < $i - 1 && rin(#[trigger] $seq[k], p[i]); assert(rin($seq[$i - 1], p[i])); }
}
lemma_pdisj_push(prev, nb);
%endloop
%exit
if !bov(this, other) {
  assert forall|p: Seq<int>| anyin(ret, p) <==> sin(this.ranges, p) by { lemma_anyin_push(Seq::empty(), this, p); assert(ret =~= Seq::<MultidimensionalRange>::empty().push(this)); }
}
%endfn

%prelude
pub open spec fn touch(a: Range, b: Range) -> bool { a.begin_ <= b.end_ && b.begin_ <= a.end_ }
pub open spec fn mergeable_at(a: Seq<Range>, b: Seq<Range>, d: int) -> bool { 0 <= d < a.len() && touch(a[d], b[d]) && a[d] != b[d] && (forall|j: int| 0 <= j < a.len() && j != d ==> #[trigger] a[j] == b[j]) }
pub proof fn lemma_intersect_points(a: Seq<Range>, b: Seq<Range>, r: Seq<Range>)
    requires a.len() == b.len(), r.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] r[i] == rint(a[i], b[i])
    ensures forall|p: Seq<int>| sin(r, p) <==> sin(a, p) && sin(b, p)
{
    assert forall|p: Seq<int>| sin(r, p) <==> sin(a, p) && sin(b, p) by {
        if sin(r, p) { assert forall|i: int| 0 <= i < a.len() implies rin(#[trigger] a[i], p[i]) && rin(b[i], p[i]) by { assert(rin(r[i], p[i])); }
            assert forall|i: int| 0 <= i < b.len() implies rin(#[trigger] b[i], p[i]) by { assert(rin(a[i], p[i])); } }
        if sin(a, p) && sin(b, p) { assert forall|i: int| 0 <= i < r.len() implies rin(#[trigger] r[i], p[i]) by { assert(rin(a[i], p[i])); assert(rin(b[i], p[i])); } }
    }
}
pub proof fn lemma_merge_points(a: Seq<Range>, b: Seq<Range>, r: Seq<Range>, d: int)
    requires a.len() == b.len(), r.len() == a.len(), 0 <= d < a.len(), forall|i: int| 0 <= i < a.len() && i != d ==> #[trigger] a[i] == b[i],
      forall|i: int| 0 <= i < a.len() && i != d ==> #[trigger] r[i] == a[i], forall|v: int| rin(r[d], v) <==> rin(a[d], v) || rin(b[d], v)
    ensures forall|p: Seq<int>| sin(r, p) <==> sin(a, p) || sin(b, p)
{
    assert forall|p: Seq<int>| sin(r, p) <==> sin(a, p) || sin(b, p) by {
        if sin(r, p) {
            assert(rin(r[d], p[d]));
            if rin(a[d], p[d]) { assert forall|i: int| 0 <= i < a.len() implies rin(#[trigger] a[i], p[i]) by { assert(rin(r[i], p[i])); } }
            else { assert forall|i: int| 0 <= i < b.len() implies rin(#[trigger] b[i], p[i]) by { assert(rin(r[i], p[i])); assert(i != d ==> a[i] == b[i]); } }
        }
        if sin(a, p) { assert forall|i: int| 0 <= i < r.len() implies rin(#[trigger] r[i], p[i]) by { assert(rin(a[i], p[i])); } }
        if sin(b, p) { assert forall|i: int| 0 <= i < r.len() implies rin(#[trigger] r[i], p[i]) by { assert(rin(b[i], p[i])); assert(i != d ==> a[i] == b[i]); } }
    }
}
pub open spec fn anyin(s: Seq<MultidimensionalRange>, p: Seq<int>) -> bool { exists|k: int| 0 <= k < s.len() && bin(#[trigger] s[k], p) }
pub open spec fn pdisj(s: Seq<MultidimensionalRange>) -> bool { forall|i: int, j: int, p: Seq<int>| 0 <= i < j < s.len() && #[trigger] bin(s[i], p) ==> !#[trigger] bin(s[j], p) }
pub open spec fn allbox(s: Seq<MultidimensionalRange>, rank: int) -> bool { forall|k: int| 0 <= k < s.len() ==> bwf(#[trigger] s[k]) && s[k].ranges.len() == rank }
// p leaves box b in one of the first n dimensions
pub open spec fn outb(b: Seq<Range>, p: Seq<int>, n: int) -> bool { exists|j: int| 0 <= j < n && !rin(#[trigger] b[j], p[j]) }
pub open spec fn anyr(s: Seq<Range>, v: int, n: int) -> bool { exists|k: int| 0 <= k < n && rin(#[trigger] s[k], v) }
pub proof fn lemma_outb_step(b: Seq<Range>, p: Seq<int>, n: int) requires n >= 1 ensures outb(b, p, n) == (outb(b, p, n - 1) || !rin(b[n - 1], p[n - 1]))
{ if outb(b, p, n) { let j = choose|j: int| 0 <= j < n && !rin(#[trigger] b[j], p[j]); if j < n - 1 { assert(outb(b, p, n - 1)); } } }
pub proof fn lemma_outb_all(b: Seq<Range>, p: Seq<int>) requires p.len() == b.len() ensures outb(b, p, b.len() as int) == !sin(b, p)
{ }
pub proof fn lemma_anyin_push(s: Seq<MultidimensionalRange>, b: MultidimensionalRange, p: Seq<int>) ensures anyin(s.push(b), p) == (anyin(s, p) || bin(b, p))
{
    let t = s.push(b);
    if anyin(s, p) { let k = choose|k: int| 0 <= k < s.len() && bin(#[trigger] s[k], p); assert(t[k] == s[k]); }
    if bin(b, p) { assert(t[s.len() as int] == b); }
    if anyin(t, p) { let k = choose|k: int| 0 <= k < t.len() && bin(#[trigger] t[k], p); if k < s.len() { assert(t[k] == s[k]); } }
}
pub proof fn lemma_pdisj_push(s: Seq<MultidimensionalRange>, b: MultidimensionalRange) requires pdisj(s), forall|p: Seq<int>| #[trigger] bin(b, p) ==> !anyin(s, p) ensures pdisj(s.push(b))
{
    let t = s.push(b);
    assert forall|i: int, j: int, p: Seq<int>| 0 <= i < j < t.len() && #[trigger] bin(t[i], p) implies !#[trigger] bin(t[j], p) by {
        assert(t[i] == s[i]);
        if j < s.len() { assert(t[j] == s[j]); } else { if bin(t[j], p) { assert(bin(b, p)); assert(bin(s[i], p)); assert(anyin(s, p)); } }
    }
}
pub proof fn lemma_anyr_step(s: Seq<Range>, v: int, n: int) requires 1 <= n <= s.len() ensures anyr(s, v, n) == (anyr(s, v, n - 1) || rin(s[n - 1], v))
{ if anyr(s, v, n) { let k = choose|k: int| 0 <= k < n && rin(#[trigger] s[k], v); if k < n - 1 { assert(anyr(s, v, n - 1)); } } }
pub proof fn lemma_piece_points(a: Seq<Range>, b: Seq<Range>, r: Seq<Range>, s: Range, i: int, p: Seq<int>)
    requires a.len() == b.len(), r.len() == a.len(), 0 <= i < a.len(), r[i] == s, a[i].begin_ <= s.begin_, s.end_ <= a[i].end_,
      forall|j: int| 0 <= j < i ==> #[trigger] r[j] == rint(a[j], b[j]), forall|j: int| i < j < a.len() ==> #[trigger] r[j] == a[j]
    ensures sin(r, p) <==> rin(s, p[i]) && sin(a, p) && !outb(b, p, i)
{
    if sin(r, p) {
        assert(rin(r[i], p[i]));
        assert forall|j: int| 0 <= j < a.len() implies rin(#[trigger] a[j], p[j]) by { assert(rin(r[j], p[j])); }
        assert forall|j: int| 0 <= j < i implies rin(#[trigger] b[j], p[j]) by { assert(rin(r[j], p[j])); }
    }
    if rin(s, p[i]) && sin(a, p) && !outb(b, p, i) {
        assert forall|j: int| 0 <= j < r.len() implies rin(#[trigger] r[j], p[j]) by { assert(rin(a[j], p[j])); if j < i { assert(rin(b[j], p[j])); } }
    }
}
%end
