%abbr NODE = marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange>
%abbr UPN = std::unique_ptr<marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange>, std::default_delete<marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange> > >
%abbr OBJ = marco::modeling::r_tree::impl::Object<marco::modeling::MultidimensionalRange>
%abbr MR = marco::modeling::MultidimensionalRange
%prelude
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
// b is the smallest box around the boxes of f
pub open spec fn hull(b: MultidimensionalRange, f: Seq<MultidimensionalRange>) -> bool {
    (forall|k: int| 0 <= k < f.len() ==> ble(#[trigger] f[k], b)) && forall|d: int| 0 <= d < b.ranges.len() ==> atlo(f, d, (#[trigger] b.ranges[d]).begin_) && athi(f, d, b.ranges[d].end_)
}
pub open spec fn bnds(s: Seq<r_tree_Node>) -> Seq<MultidimensionalRange> { Seq::new(s.len(), |i: int| s[i].boundary) }
pub proof fn lemma_hull_push(b: MultidimensionalRange, f: Seq<MultidimensionalRange>, x: MultidimensionalRange, c: MultidimensionalRange, r: int)
    requires f.len() > 0, hull(b, f), allbox(f, r), bwr(b, r), bwr(x, r), c.ranges.len() == r, forall|d: int| 0 <= d < r ==> (#[trigger] c.ranges[d]).begin_ == imin(b.ranges[d].begin_, x.ranges[d].begin_) && c.ranges[d].end_ == imax(b.ranges[d].end_, x.ranges[d].end_)
    ensures hull(c, f.push(x)), bwr(c, r)
{
    let g = f.push(x);
    assert forall|i: int| 0 <= i < c.ranges.len() implies rwf(#[trigger] c.ranges[i]) by { assert(rwf(b.ranges[i]) && rwf(x.ranges[i])); }
    assert forall|k: int| 0 <= k < g.len() implies ble(#[trigger] g[k], c) by {
        if k < f.len() { assert(g[k] == f[k]); assert(ble(f[k], b)); assert forall|i: int| 0 <= i < f[k].ranges.len() implies rle(#[trigger] f[k].ranges[i], c.ranges[i]) by { assert(rle(f[k].ranges[i], b.ranges[i])); } }
        else { assert forall|i: int| 0 <= i < x.ranges.len() implies rle(#[trigger] x.ranges[i], c.ranges[i]) by { assert(c.ranges[i].begin_ <= x.ranges[i].begin_); } }
    }
    assert forall|d: int| 0 <= d < c.ranges.len() implies atlo(g, d, (#[trigger] c.ranges[d]).begin_) && athi(g, d, c.ranges[d].end_) by {
        assert(atlo(f, d, b.ranges[d].begin_) && athi(f, d, b.ranges[d].end_));
        let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).ranges[d].begin_ == b.ranges[d].begin_; let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).ranges[d].end_ == b.ranges[d].end_;
        assert(g[k] == f[k] && g[j] == f[j] && g[f.len() as int] == x);
    }
}
// a node whose boundary is the hull of its boxes (children) is well formed when its children are
pub proof fn lemma_hull_tight(n: r_tree_Node, r: int)
    requires bwr(n.boundary, r), n.children.len() + n.objects.len() > 0, n.children.len() == 0 || n.objects.len() == 0,
        forall|i: int| 0 <= i < n.objects.len() ==> bwr((#[trigger] n.objects[i]).value, r), swfn(n.children, r),
        n.children.len() == 0 ==> hull(n.boundary, objs(n.objects)), n.children.len() > 0 ==> hull(n.boundary, bnds(n.children))
    ensures nwf(n, r)
{
    if n.children.len() == 0 {
        assert forall|i: int| 0 <= i < n.objects.len() implies ble((#[trigger] n.objects[i]).value, n.boundary) by { assert(objs(n.objects)[i] == n.objects[i].value); }
    } else {
        let f = bnds(n.children);
        assert forall|i: int| 0 <= i < n.children.len() implies ble((#[trigger] n.children[i]).boundary, n.boundary) by { assert(f[i] == n.children[i].boundary); }
        assert forall|d: int| 0 <= d < n.boundary.ranges.len() implies atlo(flat(n), d, (#[trigger] n.boundary.ranges[d]).begin_) && athi(flat(n), d, n.boundary.ranges[d].end_) by {
            let a = n.boundary.ranges[d]; assert(atlo(f, d, a.begin_) && athi(f, d, a.end_));
            let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).ranges[d].begin_ == a.begin_; let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).ranges[d].end_ == a.end_;
            assert(nwf(n.children[k], r) && nwf(n.children[j], r)); assert(tight(n.children[k]) && tight(n.children[j]));
            assert(n.children[k].boundary.ranges[d].begin_ == a.begin_); assert(n.children[j].boundary.ranges[d].end_ == a.end_);
            lemma_flats_at(n.children, n.children.len() as int, k, d, a.begin_, true); lemma_flats_at(n.children, n.children.len() as int, j, d, a.end_, false);
        }
    }
}
pub proof fn lemma_flats_at(s: Seq<r_tree_Node>, m: int, k: int, d: int, v: int, lo: bool) requires 0 <= k < m <= s.len(), lo ==> atlo(flat(s[k]), d, v), !lo ==> athi(flat(s[k]), d, v) ensures lo ==> atlo(flats(s, m), d, v), !lo ==> athi(flats(s, m), d, v) decreases m
{
    let u = flats(s, m - 1); let w = flat(s[m - 1]); let f = flats(s, m);
    if k == m - 1 {
        if lo { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).ranges[d].begin_ == v; assert(f[u.len() + i] == w[i]); } else { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).ranges[d].end_ == v; assert(f[u.len() + i] == w[i]); }
    } else {
        lemma_flats_at(s, m - 1, k, d, v, lo);
        if lo { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).ranges[d].begin_ == v; assert(f[i] == u[i]); } else { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).ranges[d].end_ == v; assert(f[i] == u[i]); }
    }
}
%end

%fn marco::modeling::r_tree::impl::getMBR(MR const&, MR const&)
%name Mbr2
%req
- bwf(first) && bwf(second) && first.ranges.len() == second.ranges.len()
%ens
- ret.ranges.len() == first.ranges.len()
- [smallest enclosing box] forall|d: int| 0 <= d < first.ranges.len() ==> (#[trigger] ret.ranges[d]).begin_ == imin(first.ranges[d].begin_, second.ranges[d].begin_) && ret.ranges[d].end_ == imax(first.ranges[d].end_, second.ranges[d].end_)
%loop 1
%inv
- @ranges.len() == $i
- forall|d: int| 0 <= d < $i ==> (#[trigger] @ranges[d]).begin_ == imin(first.ranges[d].begin_, second.ranges[d].begin_) && @ranges[d].end_ == imax(first.ranges[d].end_, second.ranges[d].end_)
%begin
assert(rwf(first.ranges[$i]) && rwf(second.ranges[$i]));
%endloop
%endfn

%fn marco::modeling::r_tree::impl::getMBR<OBJ >(llvm::ArrayRef<OBJ >)
%name Mbr_objs
%req
- objects.len() > 0 && forall|k: int| 0 <= k < objects.len() ==> bwr((#[trigger] objects[k]).value, objects[0].value.ranges.len() as int)
%ens
- bwr(ret, objects[0].value.ranges.len() as int)
- [smallest enclosing box] hull(ret, objs(objects))
%entry
let ghost rk = objects[0].value.ranges.len() as int; let ghost f = objs(objects);
assert forall|k: int| 0 <= k < f.len() implies bwf(#[trigger] f[k]) && f[k].ranges.len() == rk by { assert(bwr(objects[k].value, rk)); }
%loop 1
%before
assert(f.subrange(0, 1)[0] == objects[0].value);
%inv
- bwr(@result, rk) && hull(@result, f.subrange(0, @i as int))
%begin
let ghost r0 = @result;
assert(f.subrange(0, $i + 1) =~= f.subrange(0, $i).push(f[$i])); assert(bwf(f[$i]));
assert(allbox(f.subrange(0, $i), rk)) by { assert forall|k: int| 0 <= k < f.subrange(0, $i).len() implies bwf(#[trigger] f.subrange(0, $i)[k]) && f.subrange(0, $i)[k].ranges.len() == rk by { assert(f.subrange(0, $i)[k] == f[k]); } }
%end
lemma_hull_push(r0, f.subrange(0, $i - 1), f[$i - 1], @result, rk);
%after
assert(f.subrange(0, f.len() as int) =~= f);
%endloop
%endfn

%fn marco::modeling::r_tree::impl::getMBR<UPN >(llvm::ArrayRef<UPN >)
%name Mbr_nodes
%req
- objects.len() > 0 && forall|k: int| 0 <= k < objects.len() ==> bwr((#[trigger] objects[k]).boundary, objects[0].boundary.ranges.len() as int)
%ens
- bwr(ret, objects[0].boundary.ranges.len() as int)
- [smallest enclosing box] hull(ret, bnds(objects))
%entry
let ghost rk = objects[0].boundary.ranges.len() as int; let ghost f = bnds(objects);
assert forall|k: int| 0 <= k < f.len() implies bwf(#[trigger] f[k]) && f[k].ranges.len() == rk by { assert(bwr(objects[k].boundary, rk)); }
%loop 1
%before
assert(f.subrange(0, 1)[0] == objects[0].boundary);
%inv
- bwr(@result, rk) && hull(@result, f.subrange(0, @i as int))
%begin
let ghost r0 = @result;
assert(f.subrange(0, $i + 1) =~= f.subrange(0, $i).push(f[$i])); assert(bwf(f[$i]));
assert(allbox(f.subrange(0, $i), rk)) by { assert forall|k: int| 0 <= k < f.subrange(0, $i).len() implies bwf(#[trigger] f.subrange(0, $i)[k]) && f.subrange(0, $i)[k].ranges.len() == rk by { assert(f.subrange(0, $i)[k] == f[k]); } }
%end
lemma_hull_push(r0, f.subrange(0, $i - 1), f[$i - 1], @result, rk);
%after
assert(f.subrange(0, f.len() as int) =~= f);
%endloop
%endfn

%fn NODE::computeBoundary() const
%name Node_computeBoundary
%ghost rk : int
%req
- this.children.len() == 0 || this.objects.len() == 0
- this.children.len() + this.objects.len() > 0
- forall|k: int| 0 <= k < this.objects.len() ==> bwr((#[trigger] this.objects[k]).value, rk)
- forall|k: int| 0 <= k < this.children.len() ==> bwr((#[trigger] this.children[k]).boundary, rk)
%ens
- bwr(ret, rk)
- [the smallest box around the objects of a leaf] this.children.len() == 0 ==> hull(ret, objs(this.objects))
- [the smallest box around the children of an inner node] this.children.len() > 0 ==> hull(ret, bnds(this.children))
%entry
if this.children.len() == 0 { assert(bwr(this.objects[0].value, rk)); } else { assert(bwr(this.children[0].boundary, rk)); }
%endfn

%fn NODE::recalcBoundary()
%name Node_recalcBoundary
%ghost rk : int
%with Node_computeBoundary: rk = rk
%req
- this.children.len() == 0 || this.objects.len() == 0
- this.children.len() + this.objects.len() > 0
- forall|k: int| 0 <= k < this.objects.len() ==> bwr((#[trigger] this.objects[k]).value, rk)
- forall|k: int| 0 <= k < this.children.len() ==> bwr((#[trigger] this.children[k]).boundary, rk)
- bwr(this.boundary, rk)
- [the size of the smallest enclosing box does not overflow] forall|b: MultidimensionalRange| #[trigger] bwr(b, rk) && (if this.children.len() == 0 { hull(b, objs(this.objects)) } else { hull(b, bnds(this.children)) }) ==> fits(b.ranges) && bsz(b.ranges, rk) <= 0xffff_ffff_ffff_ffff
%ens
- post_this.children == this.children && post_this.objects == this.objects
- bwr(post_this.boundary, rk)
- [the smallest box around the objects of a leaf] this.children.len() == 0 ==> hull(post_this.boundary, objs(this.objects))
- [the smallest box around the children of an inner node] this.children.len() > 0 ==> hull(post_this.boundary, bnds(this.children))
- [the node is well formed when what it holds is] swfn(this.children, rk) ==> nwf(post_this, rk)
- [tells whether the boundary changed] ret == (post_this.boundary != this.boundary)
%exit
if swfn(this.children, rk) { lemma_hull_tight(this, rk); }
%endfn
