%prelude
pub proof fn lemma_sel_wf(s: Seq<Range>, f: Seq<bool>, n: int)
    requires swf(s), 0 <= n <= s.len()
    ensures swf(sel(s, f, n))
    decreases n
{
    if n > 0 {
        lemma_sel_wf(s, f, n - 1); let t = sel(s, f, n - 1); let u = sel(s, f, n);
        assert(rwf(s[n - 1]));
        assert forall|i: int| 0 <= i < u.len() implies rwf(#[trigger] u[i]) by { if i < t.len() { assert(u[i] == t[i]); assert(rwf(t[i])); } }
    }
}
// projecting a box on a selection of dimensions is the selection of the coordinates of its points
pub proof fn lemma_sel_in(s: Seq<Range>, f: Seq<bool>, p: Seq<int>, n: int)
    requires 0 <= n <= s.len(), sin(s, p)
    ensures sin(sel(s, f, n), sel(p, f, n))
    decreases n
{
    if n > 0 {
        lemma_sel_in(s, f, p, n - 1); assert(rin(s[n - 1], p[n - 1]));
        let t = sel(s, f, n - 1); let u = sel(s, f, n); let a = sel(p, f, n - 1); let b = sel(p, f, n);
        assert forall|i: int| 0 <= i < u.len() implies rin(#[trigger] u[i], b[i]) by { if i < t.len() { assert(u[i] == t[i]); assert(rin(t[i], a[i])); } }
    }
}
pub proof fn lemma_sel_onto(s: Seq<Range>, f: Seq<bool>, q: Seq<int>, n: int) -> (p: Seq<int>)
    requires swf(s), 0 <= n <= s.len(), sin(sel(s, f, n), q)
    ensures sin(s, p), sel(p, f, n) =~= q
    decreases n
{
    if n == 0 { lemma_corner(s); assert(q =~= Seq::<int>::empty()); corner(s) }
    else if f[n - 1] {
        let t = sel(s, f, n - 1); let u = sel(s, f, n);
        let q0 = q.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies rin(#[trigger] t[i], q0[i]) by { assert(u[i] == t[i]); assert(rin(u[i], q[i])); }
        let p0 = lemma_sel_onto(s, f, q0, n - 1);
        assert(rin(u[u.len() - 1], q[u.len() - 1]));
        let p = p0.update(n - 1, q.last());
        assert forall|i: int| 0 <= i < s.len() implies rin(#[trigger] s[i], p[i]) by { assert(rin(s[i], p0[i])); }
        lemma_sel_same(p0, p, f, n - 1);
        assert(sel(p, f, n) =~= q);
        p
    } else { lemma_sel_onto(s, f, q, n - 1) }
}
pub proof fn lemma_sel_same(a: Seq<int>, b: Seq<int>, f: Seq<bool>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    ensures sel(a, f, n) == sel(b, f, n)
    decreases n
{ if n > 0 { lemma_sel_same(a, b, f, n - 1); assert(a[n - 1] == b[n - 1]); } }
pub proof fn lemma_concat_points(a: Seq<Range>, b: Seq<Range>, p: Seq<int>)
    requires p.len() == a.len() + b.len()
    ensures sin(a + b, p) == (sin(a, p.subrange(0, a.len() as int)) && sin(b, p.subrange(a.len() as int, p.len() as int)))
{
    let c = a + b; let x = p.subrange(0, a.len() as int); let y = p.subrange(a.len() as int, p.len() as int);
    if sin(c, p) {
        assert forall|i: int| 0 <= i < a.len() implies rin(#[trigger] a[i], x[i]) by { assert(c[i] == a[i]); assert(rin(c[i], p[i])); }
        assert forall|i: int| 0 <= i < b.len() implies rin(#[trigger] b[i], y[i]) by { assert(c[i + a.len()] == b[i]); assert(rin(c[i + a.len()], p[i + a.len()])); }
    }
    if sin(a, x) && sin(b, y) {
        assert forall|i: int| 0 <= i < c.len() implies rin(#[trigger] c[i], p[i]) by { if i < a.len() { assert(c[i] == a[i]); assert(rin(a[i], x[i])); } else { assert(c[i] == b[i - a.len()]); assert(rin(b[i - a.len()], y[i - a.len()])); } }
    }
}
%end

%fn marco::modeling::MultidimensionalRange::slice(unsigned long) const
%name Box_slice_n
%req
- bwf(this) && dimensions <= this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= this.ranges.subrange(0, dimensions)
%loop 1
%inv
- slicedRanges =~= this.ranges.subrange(0, i)
%endloop
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i])); }
%endfn

%fn marco::modeling::MultidimensionalRange::slice(llvm::BitVector const&) const
%name Box_slice
%req
- bwf(this) && filter.len() == this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= sel(this.ranges, filter, this.ranges.len() as int)
- [points are the selected coordinates of the points] forall|p: Seq<int>| sin(this.ranges, p) ==> sin(ret.ranges, sel(p, filter, this.ranges.len() as int))
%loop 1
%inv
- result =~= sel(this.ranges, filter, i)
%endloop
%exit
lemma_sel_wf(this.ranges, filter, this.ranges.len() as int);
assert forall|p: Seq<int>| sin(this.ranges, p) implies sin(ret.ranges, sel(p, filter, this.ranges.len() as int)) by { lemma_sel_in(this.ranges, filter, p, this.ranges.len() as int); }
%endfn

%fn marco::modeling::MultidimensionalRange::takeFirstDimensions(unsigned long) const
%name Box_takeFirst
%req
- bwf(this) && 0 < n <= this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= this.ranges.subrange(0, n)
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i])); }
%endfn

%fn marco::modeling::MultidimensionalRange::takeLastDimensions(unsigned long) const
%name Box_takeLast
%req
- bwf(this) && 0 < n <= this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= this.ranges.subrange(this.ranges.len() - n, this.ranges.len() as int)
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i + this.ranges.len() - n])); }
%endfn

%fn marco::modeling::MultidimensionalRange::takeDimensions(llvm::SmallBitVector const&) const
%name Box_takeDimensions
%req
- bwf(this) && dimensions.len() == this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= sel(this.ranges, dimensions, this.ranges.len() as int)
- [points are the selected coordinates of the points] forall|p: Seq<int>| sin(this.ranges, p) ==> sin(ret.ranges, sel(p, dimensions, this.ranges.len() as int))
%loop 1
%inv
- result =~= sel(this.ranges, dimensions, i)
%endloop
%exit
lemma_sel_wf(this.ranges, dimensions, this.ranges.len() as int);
assert forall|p: Seq<int>| sin(this.ranges, p) implies sin(ret.ranges, sel(p, dimensions, this.ranges.len() as int)) by { lemma_sel_in(this.ranges, dimensions, p, this.ranges.len() as int); }
%endfn

%fn marco::modeling::MultidimensionalRange::dropFirstDimensions(unsigned long) const
%name Box_dropFirst
%req
- bwf(this) && n < this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= this.ranges.subrange(n, this.ranges.len() as int)
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i + n])); }
%endfn

%fn marco::modeling::MultidimensionalRange::dropLastDimensions(unsigned long) const
%name Box_dropLast
%req
- bwf(this) && n < this.ranges.len()
%ens
- bwf(ret) && ret.ranges =~= this.ranges.subrange(0, this.ranges.len() - n)
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { assert(rwf(this.ranges[i])); }
%endfn

%fn marco::modeling::MultidimensionalRange::prepend(marco::modeling::MultidimensionalRange const&) const
%name Box_prepend
%req
- bwf(this) && bwf(other)
%ens
- bwf(ret) && ret.ranges =~= other.ranges + this.ranges
%loop 1
%inv
- result =~= other.ranges.subrange(0, $i)
%endloop
%loop 2
%inv
- result =~= other.ranges + this.ranges.subrange(0, $i)
%endloop
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { if i < other.ranges.len() { assert(rwf(other.ranges[i])); } else { assert(rwf(this.ranges[i - other.ranges.len()])); } }
%endfn

%fn marco::modeling::MultidimensionalRange::append(marco::modeling::MultidimensionalRange const&) const
%name Box_append
%req
- bwf(this) && bwf(other)
%ens
- bwf(ret) && ret.ranges =~= this.ranges + other.ranges
%loop 1
%inv
- result =~= this.ranges.subrange(0, $i)
%endloop
%loop 2
%inv
- result =~= this.ranges + other.ranges.subrange(0, $i)
%endloop
%exit
assert forall|i: int| 0 <= i < ret.ranges.len() implies rwf(#[trigger] ret.ranges[i]) by { if i < this.ranges.len() { assert(rwf(this.ranges[i])); } else { assert(rwf(other.ranges[i - this.ranges.len()])); } }
%endfn
