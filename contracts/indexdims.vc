%prelude
// ---- projections of index sets
pub proof fn lemma_sub_in(s: Seq<Range>, p: Seq<int>, a: int, b: int) requires sin(s, p), 0 <= a <= b <= s.len() ensures sin(s.subrange(a, b), p.subrange(a, b))
{ let t = s.subrange(a, b); let q = p.subrange(a, b); assert forall|i: int| 0 <= i < t.len() implies rin(#[trigger] t[i], q[i]) by { assert(rin(s[i + a], p[i + a])); } }
pub proof fn lemma_sub_onto(s: Seq<Range>, q: Seq<int>, a: int, b: int) -> (p: Seq<int>) requires swf(s), 0 <= a <= b <= s.len(), sin(s.subrange(a, b), q) ensures sin(s, p), p.subrange(a, b) =~= q
{
    lemma_corner(s); let c = corner(s); let p = Seq::new(s.len(), |i: int| if a <= i < b { q[i - a] } else { c[i] });
    assert forall|i: int| 0 <= i < s.len() implies rin(#[trigger] s[i], p[i]) by { assert(rin(s[i], c[i])); if a <= i < b { assert(s.subrange(a, b)[i - a] == s[i]); assert(rin(s.subrange(a, b)[i - a], q[i - a])); } }
    p
}
pub open spec fn projsub(f: Seq<MultidimensionalRange>, a: int, b: int, q: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] anyin(f, p) && q =~= p.subrange(a, b) }
pub open spec fn projsel(f: Seq<MultidimensionalRange>, s: Seq<bool>, q: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] anyin(f, p) && q =~= sel(p, s, s.len() as int) }
pub proof fn lemma_projsub(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>, a: int, b: int, r: int)
    requires allbox(f, r), 0 <= a <= b <= r, g.len() == f.len(), forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).ranges =~= f[k].ranges.subrange(a, b)
    ensures forall|q: Seq<int>| #[trigger] anyin(g, q) == projsub(f, a, b, q)
{
    assert forall|q: Seq<int>| #[trigger] anyin(g, q) == projsub(f, a, b, q) by {
        if anyin(g, q) { let k = choose|k: int| 0 <= k < g.len() && bin(#[trigger] g[k], q); assert(bwf(f[k])); let p = lemma_sub_onto(f[k].ranges, q, a, b); assert(bin(f[k], p)); assert(anyin(f, p)); }
        if projsub(f, a, b, q) { let p = choose|p: Seq<int>| #[trigger] anyin(f, p) && q =~= p.subrange(a, b); let k = choose|k: int| 0 <= k < f.len() && bin(#[trigger] f[k], p); assert(bwf(f[k])); lemma_sub_in(f[k].ranges, p, a, b); assert(bin(g[k], q)); }
    }
}
pub proof fn lemma_projsel(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>, s: Seq<bool>, r: int)
    requires allbox(f, r), s.len() == r, g.len() == f.len(), forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).ranges =~= sel(f[k].ranges, s, r)
    ensures forall|q: Seq<int>| #[trigger] anyin(g, q) == projsel(f, s, q)
{
    assert forall|q: Seq<int>| #[trigger] anyin(g, q) == projsel(f, s, q) by {
        if anyin(g, q) { let k = choose|k: int| 0 <= k < g.len() && bin(#[trigger] g[k], q); assert(bwf(f[k])); assert(g[k].ranges == sel(f[k].ranges, s, r)); let p = lemma_sel_onto(f[k].ranges, s, q, r); assert(bin(f[k], p)); assert(anyin(f, p)); }
        if projsel(f, s, q) { let p = choose|p: Seq<int>| #[trigger] anyin(f, p) && q =~= sel(p, s, s.len() as int); let k = choose|k: int| 0 <= k < f.len() && bin(#[trigger] f[k], p); assert(bwf(f[k])); lemma_sel_in(f[k].ranges, s, p, r); assert(g[k].ranges == sel(f[k].ranges, s, r)); assert(bin(g[k], q)); }
    }
}
pub open spec fn trues(s: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { trues(s, n - 1) + if s[n - 1] { 1int } else { 0 } } }
pub proof fn lemma_sel_trues<A>(s: Seq<A>, f: Seq<bool>, n: int) requires 0 <= n ensures sel(s, f, n).len() == trues(f, n) decreases n { if n > 0 { lemma_sel_trues(s, f, n - 1); } }
// the cartesian product of a list of boxes with another
pub open spec fn cart(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>, a: int, b: int, q: Seq<int>) -> bool { q.len() == a + b && anyin(f, q.subrange(0, a)) && anyin(g, q.subrange(a, a + b)) }
pub open spec fn cart1(x: MultidimensionalRange, g: Seq<MultidimensionalRange>, a: int, b: int, q: Seq<int>) -> bool { q.len() == a + b && bin(x, q.subrange(0, a)) && anyin(g, q.subrange(a, a + b)) }
pub open spec fn cart2(f: Seq<MultidimensionalRange>, x: MultidimensionalRange, a: int, b: int, q: Seq<int>) -> bool { q.len() == a + b && anyin(f, q.subrange(0, a)) && bin(x, q.subrange(a, a + b)) }
pub proof fn lemma_cart_box(x: MultidimensionalRange, y: MultidimensionalRange, z: MultidimensionalRange, a: int, b: int) requires bwr(x, a), bwr(y, b), bwr(z, a + b), z.ranges =~= x.ranges + y.ranges
    ensures forall|q: Seq<int>| #[trigger] bin(z, q) == (q.len() == a + b && bin(x, q.subrange(0, a)) && bin(y, q.subrange(a, a + b)))
{ assert forall|q: Seq<int>| #[trigger] bin(z, q) == (q.len() == a + b && bin(x, q.subrange(0, a)) && bin(y, q.subrange(a, a + b))) by { if q.len() == a + b { lemma_concat_points(x.ranges, y.ranges, q); } } }
%end

%fn marco::modeling::IndexSet::takeFirstDimensions(unsigned long) const
%name Ix_takeFirst
%req
- iwf(this) && (this.root is Some ==> 0 < n <= this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), 0, n as int, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= iflat(this)[k].ranges.subrange(0, n as int)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsub(iflat(this), @resultRanges, 0, n as int, this.allowedRank as int);
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), 0, n as int, q) by {} }
%endfn

%fn marco::modeling::IndexSet::takeLastDimensions(unsigned long) const
%name Ix_takeLast
%req
- iwf(this) && (this.root is Some ==> 0 < n <= this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), this.allowedRank as int - n, this.allowedRank as int, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= iflat(this)[k].ranges.subrange(this.allowedRank as int - n, this.allowedRank as int)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsub(iflat(this), @resultRanges, this.allowedRank as int - n, this.allowedRank as int, this.allowedRank as int);
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), this.allowedRank as int - n, this.allowedRank as int, q) by {} }
%endfn

%fn marco::modeling::IndexSet::dropFirstDimensions(unsigned long) const
%name Ix_dropFirst
%req
- iwf(this) && (this.root is Some ==> n < this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), n as int, this.allowedRank as int, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= iflat(this)[k].ranges.subrange(n as int, this.allowedRank as int)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsub(iflat(this), @resultRanges, n as int, this.allowedRank as int, this.allowedRank as int);
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), n as int, this.allowedRank as int, q) by {} }
%endfn

%fn marco::modeling::IndexSet::dropLastDimensions(unsigned long) const
%name Ix_dropLast
%req
- iwf(this) && (this.root is Some ==> n < this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), 0, this.allowedRank as int - n, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= iflat(this)[k].ranges.subrange(0, this.allowedRank as int - n)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsub(iflat(this), @resultRanges, 0, this.allowedRank as int - n, this.allowedRank as int);
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsub(iflat(this), 0, this.allowedRank as int - n, q) by {} }
%endfn

%fn marco::modeling::IndexSet::slice(llvm::BitVector const&) const
%name Ix_slice
%req
- iwf(this) && (this.root is Some ==> filter.len() == this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsel(iflat(this), filter, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= sel(iflat(this)[k].ranges, filter, filter.len() as int)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsel(iflat(this), @resultRanges, filter, this.allowedRank as int); assert forall|k: int| 0 <= k < @resultRanges.len() implies (#[trigger] @resultRanges[k]).ranges.len() == trues(filter, filter.len() as int) by { lemma_sel_trues(iflat(this)[k].ranges, filter, filter.len() as int); }
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsel(iflat(this), filter, q) by {} }
%endfn

%fn marco::modeling::IndexSet::takeDimensions(llvm::SmallBitVector const&) const
%name Ix_takeDimensions
%req
- iwf(this) && (this.root is Some ==> dimensions.len() == this.allowedRank)
%ens
- iwf(ret)
- [exactly the projection] forall|q: Seq<int>| #[trigger] iin(ret, q) == projsel(iflat(this), dimensions, q)
%loop 1
%before
lemma_iflat(this);
%inv
- @resultRanges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @resultRanges[k]) && @resultRanges[k].ranges =~= sel(iflat(this)[k].ranges, dimensions, dimensions.len() as int)
%begin
assert(bwf(iflat(this)[$i]));
%after
lemma_projsel(iflat(this), @resultRanges, dimensions, this.allowedRank as int); assert forall|k: int| 0 <= k < @resultRanges.len() implies (#[trigger] @resultRanges[k]).ranges.len() == trues(dimensions, dimensions.len() as int) by { lemma_sel_trues(iflat(this)[k].ranges, dimensions, dimensions.len() as int); }
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| #[trigger] iin(ret, q) == projsel(iflat(this), dimensions, q) by {} }
%endfn

%fn marco::modeling::IndexSet::append(marco::modeling::IndexSet const&) const
%name Ix_append
%req
- iwf(this) && iwf(other)
%ens
- iwf(ret)
- [exactly the cartesian product] forall|q: Seq<int>| #[trigger] iin(ret, q) == cart(iflat(this), iflat(other), this.allowedRank as int, other.allowedRank as int, q)
%loop 1
%before
lemma_iflat(this); lemma_iflat(other);
%inv
- allbox(@resultRanges, this.allowedRank as int + other.allowedRank as int)
- forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == cart(iflat(this).subrange(0, $i), iflat(other), this.allowedRank as int, other.allowedRank as int, q)
%begin
let ghost r0 = @resultRanges;
assert(bwf(iflat(this)[$i])); assert(iflat(this).subrange(0, $i + 1) =~= iflat(this).subrange(0, $i).push(iflat(this)[$i]));
assert forall|q: Seq<int>| #![trigger anyin(r0, q)] anyin(iflat(this).subrange(0, $i + 1), q.subrange(0, this.allowedRank as int)) == (anyin(iflat(this).subrange(0, $i), q.subrange(0, this.allowedRank as int)) || bin(iflat(this)[$i], q.subrange(0, this.allowedRank as int))) by { lemma_anyin_push(iflat(this).subrange(0, $i), iflat(this)[$i], q.subrange(0, this.allowedRank as int)); }
%after
assert(iflat(this).subrange(0, iflat(this).len() as int) =~= iflat(this)); if @resultRanges.len() > 0 { assert(bwf(@resultRanges[0])); }
%endloop
%loop 2
%inv
- allbox(@resultRanges, this.allowedRank as int + other.allowedRank as int)
- forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == (anyin(r0, q) || cart1(iflat(this)[$i_1], iflat(other).subrange(0, $i), this.allowedRank as int, other.allowedRank as int, q))
%begin
let ghost r1 = @resultRanges;
assert(bwf(iflat(other)[$i])); assert(iflat(other).subrange(0, $i + 1) =~= iflat(other).subrange(0, $i).push(iflat(other)[$i]));
%end
let ghost z = @resultRanges.last();
lemma_cart_box(iflat(this)[$i_1], iflat(other)[$i - 1], z, this.allowedRank as int, other.allowedRank as int); assert(@resultRanges =~= r1.push(z)); lemma_allbox_push(r1, z, this.allowedRank as int + other.allowedRank as int);
assert forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == (anyin(r0, q) || cart1(iflat(this)[$i_1], iflat(other).subrange(0, $i), this.allowedRank as int, other.allowedRank as int, q)) by { lemma_anyin_push(r1, z, q); assert(anyin(r1, q) == (anyin(r0, q) || cart1(iflat(this)[$i_1], iflat(other).subrange(0, $i - 1), this.allowedRank as int, other.allowedRank as int, q))); lemma_anyin_push(iflat(other).subrange(0, $i - 1), iflat(other)[$i - 1], q.subrange(this.allowedRank as int, this.allowedRank as int + other.allowedRank as int)); }
%after
assert(iflat(other).subrange(0, iflat(other).len() as int) =~= iflat(other));
assert forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == cart(iflat(this).subrange(0, $i_1 + 1), iflat(other), this.allowedRank as int, other.allowedRank as int, q) by { assert(anyin(r0, q) == cart(iflat(this).subrange(0, $i_1), iflat(other), this.allowedRank as int, other.allowedRank as int, q)); }
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| !#[trigger] iin(ret, q) by {} }
%endfn

%fn marco::modeling::IndexSet::prepend(marco::modeling::IndexSet const&) const
%name Ix_prepend
%req
- iwf(this) && iwf(other)
%ens
- iwf(ret)
- [exactly the cartesian product] forall|q: Seq<int>| #[trigger] iin(ret, q) == cart(iflat(other), iflat(this), other.allowedRank as int, this.allowedRank as int, q)
%loop 1
%before
lemma_iflat(this); lemma_iflat(other);
%inv
- allbox(@resultRanges, other.allowedRank as int + this.allowedRank as int)
- forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == cart(iflat(other), iflat(this).subrange(0, $i), other.allowedRank as int, this.allowedRank as int, q)
%begin
let ghost r0 = @resultRanges;
assert(bwf(iflat(this)[$i])); assert(iflat(this).subrange(0, $i + 1) =~= iflat(this).subrange(0, $i).push(iflat(this)[$i]));
assert forall|q: Seq<int>| #![trigger anyin(r0, q)] anyin(iflat(this).subrange(0, $i + 1), q.subrange(other.allowedRank as int, other.allowedRank as int + this.allowedRank as int)) == (anyin(iflat(this).subrange(0, $i), q.subrange(other.allowedRank as int, other.allowedRank as int + this.allowedRank as int)) || bin(iflat(this)[$i], q.subrange(other.allowedRank as int, other.allowedRank as int + this.allowedRank as int))) by { lemma_anyin_push(iflat(this).subrange(0, $i), iflat(this)[$i], q.subrange(other.allowedRank as int, other.allowedRank as int + this.allowedRank as int)); }
%after
assert(iflat(this).subrange(0, iflat(this).len() as int) =~= iflat(this)); if @resultRanges.len() > 0 { assert(bwf(@resultRanges[0])); }
%endloop
%loop 2
%inv
- allbox(@resultRanges, other.allowedRank as int + this.allowedRank as int)
- forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == (anyin(r0, q) || cart2(iflat(other).subrange(0, $i), iflat(this)[$i_1], other.allowedRank as int, this.allowedRank as int, q))
%begin
let ghost r1 = @resultRanges;
assert(bwf(iflat(other)[$i])); assert(iflat(other).subrange(0, $i + 1) =~= iflat(other).subrange(0, $i).push(iflat(other)[$i]));
%end
let ghost z = @resultRanges.last();
lemma_cart_box(iflat(other)[$i - 1], iflat(this)[$i_1], z, other.allowedRank as int, this.allowedRank as int); assert(@resultRanges =~= r1.push(z)); lemma_allbox_push(r1, z, other.allowedRank as int + this.allowedRank as int);
assert forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == (anyin(r0, q) || cart2(iflat(other).subrange(0, $i), iflat(this)[$i_1], other.allowedRank as int, this.allowedRank as int, q)) by { lemma_anyin_push(r1, z, q); assert(anyin(r1, q) == (anyin(r0, q) || cart2(iflat(other).subrange(0, $i - 1), iflat(this)[$i_1], other.allowedRank as int, this.allowedRank as int, q))); lemma_anyin_push(iflat(other).subrange(0, $i - 1), iflat(other)[$i - 1], q.subrange(0, other.allowedRank as int)); }
%after
assert(iflat(other).subrange(0, iflat(other).len() as int) =~= iflat(other));
assert forall|q: Seq<int>| #[trigger] anyin(@resultRanges, q) == cart(iflat(other), iflat(this).subrange(0, $i_1 + 1), other.allowedRank as int, this.allowedRank as int, q) by { assert(anyin(r0, q) == cart(iflat(other), iflat(this).subrange(0, $i_1), other.allowedRank as int, this.allowedRank as int, q)); }
%endloop
%exit
if this.root is None { assert forall|q: Seq<int>| !#[trigger] iin(ret, q) by {} }
%endfn
