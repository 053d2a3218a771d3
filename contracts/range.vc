%prelude
// A range is well formed when it is not empty; rsz bounds keep its size representable.
pub open spec fn rwf(r: Range) -> bool { r.begin_ < r.end_ }
pub open spec fn rin(r: Range, v: int) -> bool { r.begin_ <= v < r.end_ }
pub open spec fn roverlap(a: Range, b: Range) -> bool { exists|v: int| rin(a, v) && rin(b, v) }
pub open spec fn cmp_int(a: int, b: int) -> int { if a < b { -1 } else if a > b { 1 } else { 0 } }
pub open spec fn rcmp(a: Range, b: Range) -> int { if a.begin_ != b.begin_ { cmp_int(a.begin_, b.begin_) } else { cmp_int(a.end_, b.end_) } }
pub open spec fn rov(a: Range, b: Range) -> bool { a.begin_ < b.end_ && b.begin_ < a.end_ }
pub proof fn lemma_rov(a: Range, b: Range) requires rwf(a), rwf(b) ensures rov(a, b) == roverlap(a, b)
{
    if rov(a, b) { let v = max_(a.begin_, b.begin_); assert(rin(a, v) && rin(b, v)); }
}
%end

%fn marco::modeling::Range::Range(long, long)
%name Range_new
%req
- begin < end
%ens
- ret.begin_ == begin && ret.end_ == end
%endfn

%fn marco::modeling::Range::operator==(long) const
%name Range_eq_point
%req
- rwf(this)
%ens
- ret == (forall|v: int| rin(this, v) <==> v == other)
%exit
if ret { assert forall|v: int| rin(this, v) <==> v == other by {} }
else { assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1)); if this.begin_ == other { assert(this.end_ != other + 1); assert(rin(this, other + 1)); } }
%endfn

%fn marco::modeling::Range::operator!=(long) const
%name Range_ne_point
%req
- rwf(this)
%ens
- ret == !(forall|v: int| rin(this, v) <==> v == other)
%exit
assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1));
if ret { if this.begin_ == other { assert(rin(this, other + 1)); } } else { assert forall|v: int| rin(this, v) <==> v == other by {} }
%endfn

%fn marco::modeling::Range::operator==(marco::modeling::Range const&) const
%name Range_eq
%req
- rwf(this) && rwf(other)
%ens
- ret == (this == other)
- ret == (forall|v: int| rin(this, v) <==> rin(other, v))
%exit
assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1)); assert(rin(other, other.begin_)); assert(rin(other, other.end_ - 1));
%endfn

%fn marco::modeling::Range::operator!=(marco::modeling::Range const&) const
%name Range_ne
%req
- rwf(this) && rwf(other)
%ens
- ret == (this != other)
- ret == !(forall|v: int| rin(this, v) <==> rin(other, v))
%exit
assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1)); assert(rin(other, other.begin_)); assert(rin(other, other.end_ - 1));
%endfn

%fn marco::modeling::Range::operator<(marco::modeling::Range const&) const
%name Range_lt
%ens
- ret == (rcmp(this, other) < 0)
%endfn

%fn marco::modeling::Range::operator>(marco::modeling::Range const&) const
%name Range_gt
%ens
- ret == (rcmp(this, other) > 0)
%endfn

%fn marco::modeling::Range::compare(marco::modeling::Range const&) const
%name Range_compare
%ens
- ret == rcmp(this, other)
%endfn

%fn marco::modeling::Range::size() const
%name Range_size
%req
- rwf(this) && this.end_ - this.begin_ <= 0x7fff_ffff_ffff_ffff
%ens
- ret == this.end_ - this.begin_
%endfn

%fn marco::modeling::Range::contains(long) const
%name Range_contains_point
%ens
- ret == rin(this, value)
%endfn

%fn marco::modeling::Range::contains(marco::modeling::Range const&) const
%name Range_contains
%req
- rwf(this) && rwf(other)
%ens
- ret == (forall|v: int| rin(other, v) ==> rin(this, v))
%exit
assert(rin(other, other.begin_)); assert(rin(other, other.end_ - 1));
%endfn

%fn marco::modeling::Range::overlaps(marco::modeling::Range const&) const
%name Range_overlaps
%req
- rwf(this) && rwf(other)
%ens
- ret == rov(this, other)
- ret == (exists|v: int| rin(this, v) && rin(other, v))
%exit
lemma_rov(this, other);
%endfn

%fn marco::modeling::Range::intersect(marco::modeling::Range const&) const
%name Range_intersect
%req
- rwf(this) && rwf(other) && rov(this, other)
%ens
- rwf(ret)
- ret == (Range { begin_: max_(this.begin_, other.begin_), end_: min_(this.end_, other.end_) })
- forall|v: int| rin(ret, v) <==> rin(this, v) && rin(other, v)
%entry
assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1)); assert(rin(other, other.begin_)); assert(rin(other, other.end_ - 1));
%endfn

%fn marco::modeling::Range::canBeMerged(marco::modeling::Range const&) const
%name Range_canBeMerged
%req
- rwf(this) && rwf(other)
%ens
- ret == (this.begin_ <= other.end_ && other.begin_ <= this.end_)
%endfn

%fn marco::modeling::Range::merge(marco::modeling::Range const&) const
%name Range_merge
%req
- rwf(this) && rwf(other) && this.begin_ <= other.end_ && other.begin_ <= this.end_
%ens
- rwf(ret)
- forall|v: int| rin(ret, v) <==> rin(this, v) || rin(other, v)
- ret == (Range { begin_: min_(this.begin_, other.begin_), end_: max_(this.end_, other.end_) })
%endfn

%fn marco::modeling::Range::subtract(marco::modeling::Range const&) const
%name Range_subtract
%req
- rwf(this) && rwf(other)
%ens
- ret.len() <= 2
- [each piece is a non-empty range] forall|i: int| 0 <= i < ret.len() ==> rwf(#[trigger] ret[i])
- [points are exactly the difference] forall|v: int| (rin(this, v) && !rin(other, v)) <==> (exists|i: int| 0 <= i < ret.len() && rin(#[trigger] ret[i], v))
- [pieces are disjoint] forall|i: int, j: int, v: int| 0 <= i < j < ret.len() && #[trigger] rin(ret[i], v) ==> !#[trigger] rin(ret[j], v)
- forall|i: int| 0 <= i < ret.len() ==> this.begin_ <= (#[trigger] ret[i]).begin_ && ret[i].end_ <= this.end_
%entry
assert(rin(this, this.begin_)); assert(rin(this, this.end_ - 1)); assert(rin(other, other.begin_)); assert(rin(other, other.end_ - 1));
%exit
assert forall|v: int| (rin(this, v) && !rin(other, v)) implies (exists|i: int| 0 <= i < ret.len() && rin(#[trigger] ret[i], v)) by {
  assert(ret.len() >= 1);
  if !rin(ret[0], v) { assert(rin(ret[1], v)); }
}
%endfn
