%abbr RT:: = marco::modeling::r_tree::impl::RTreeCRTP<marco::modeling::IndexSet, marco::modeling::MultidimensionalRange>::
%abbr NODE = marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange>
%abbr OBJIT = marco::modeling::r_tree::impl::ObjectIterator<marco::modeling::MultidimensionalRange>
%abbr MR = marco::modeling::MultidimensionalRange
%merge r_tree::RTreeCRTP = IndexSet
%nullable IndexSet.root
%drop r_tree::Node.parent
// A walk from rangesBegin() to rangesEnd() visits the boxes of the tree in depth-first order
// (assumed: the iterators themselves are not under contract; the stand-in harness compares them with the stored boxes).
%iterpair IndexSet.rangesBegin IndexSet.rangesEnd = iflat($x) : marco::modeling::MultidimensionalRange
%iterpair IndexSet.objectsBegin IndexSet.objectsEnd = iflat($x) : marco::modeling::MultidimensionalRange
%prelude
// ---- R-trees of boxes. flat(n): the boxes stored below a node, in depth-first order
pub open spec fn objs(s: Seq<r_tree_Object>) -> Seq<MultidimensionalRange> { Seq::new(s.len(), |i: int| s[i].value) }
pub open spec fn flat(n: r_tree_Node) -> Seq<MultidimensionalRange> decreases n, 0int { if n.children.len() == 0 { objs(n.objects) } else { flats(n.children, n.children.len() as int) } }
pub open spec fn flats(s: Seq<r_tree_Node>, k: int) -> Seq<MultidimensionalRange> decreases s, k { if k <= 0 || k > s.len() { Seq::empty() } else { flats(s, k - 1) + flat(s[k - 1]) } }
pub open spec fn ble(a: MultidimensionalRange, b: MultidimensionalRange) -> bool { a.ranges.len() == b.ranges.len() && forall|i: int| 0 <= i < a.ranges.len() ==> rle(#[trigger] a.ranges[i], b.ranges[i]) }
pub open spec fn bwr(b: MultidimensionalRange, r: int) -> bool { bwf(b) && b.ranges.len() == r }
// the boundary of a node is the smallest box around the boxes below it: each of its bounds is the bound of one of them
pub open spec fn atlo(f: Seq<MultidimensionalRange>, d: int, v: int) -> bool { exists|k: int| 0 <= k < f.len() && (#[trigger] f[k]).ranges[d].begin_ == v }
pub open spec fn athi(f: Seq<MultidimensionalRange>, d: int, v: int) -> bool { exists|k: int| 0 <= k < f.len() && (#[trigger] f[k]).ranges[d].end_ == v }
pub open spec fn tight(n: r_tree_Node) -> bool { forall|d: int| 0 <= d < n.boundary.ranges.len() ==> atlo(flat(n), d, (#[trigger] n.boundary.ranges[d]).begin_) && athi(flat(n), d, n.boundary.ranges[d].end_) }
// a well-formed node: it is not empty, and every box and every child lies within its boundary, which is tight
pub open spec fn nwf(n: r_tree_Node, r: int) -> bool decreases n
{
    bwr(n.boundary, r) && (n.children.len() == 0 || n.objects.len() == 0) && n.children.len() + n.objects.len() > 0 && tight(n)
    && (forall|i: int| 0 <= i < n.objects.len() ==> bwr((#[trigger] n.objects[i]).value, r) && ble(n.objects[i].value, n.boundary))
    && (forall|i: int| 0 <= i < n.children.len() ==> nwf(#[trigger] n.children[i], r) && ble(n.children[i].boundary, n.boundary))
}
pub open spec fn swfn(s: Seq<r_tree_Node>, r: int) -> bool { forall|i: int| 0 <= i < s.len() ==> nwf(#[trigger] s[i], r) }
// number of nodes of a list of trees, used for termination
pub open spec fn cnt(n: r_tree_Node) -> int decreases n, 0int { 1 + cnts(n.children, n.children.len() as int) }
pub open spec fn cnts(s: Seq<r_tree_Node>, k: int) -> int decreases s, k { if k <= 0 || k > s.len() { 0 } else { cnts(s, k - 1) + cnt(s[k - 1]) } }
pub proof fn lemma_cnt_pos(n: r_tree_Node) ensures cnt(n) >= 1 decreases n, 0int { lemma_cnts_pos(n.children, n.children.len() as int); }
pub proof fn lemma_cnts_pos(s: Seq<r_tree_Node>, k: int) ensures cnts(s, k) >= 0 decreases s, k { if k <= 0 || k > s.len() {} else { lemma_cnts_pos(s, k - 1); lemma_cnt_pos(s[k - 1]); } }
pub proof fn lemma_cnts_prefix(s: Seq<r_tree_Node>, t: Seq<r_tree_Node>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures cnts(s, k) == cnts(t, k) decreases k
{ if k > 0 { lemma_cnts_prefix(s, t, k - 1); } }
pub open spec fn total(s: Seq<r_tree_Node>) -> int { cnts(s, s.len() as int) }
pub proof fn lemma_total_push(s: Seq<r_tree_Node>, n: r_tree_Node) ensures total(s.push(n)) == total(s) + cnt(n)
{ lemma_cnts_prefix(s, s.push(n), s.len() as int); }
pub proof fn lemma_total_pop(s: Seq<r_tree_Node>) requires s.len() > 0 ensures total(s.drop_last()) == total(s) - cnt(s.last()), total(s) > total(s.drop_last()), total(s.drop_last()) >= 0, cnt(s.last()) == 1 + cnts(s.last().children, s.last().children.len() as int)
{ lemma_cnts_prefix(s, s.drop_last(), s.len() - 1); lemma_cnt_pos(s.last()); lemma_cnts_pos(s.drop_last(), s.len() - 1); }
// the same for lists of pairs of trees
pub open spec fn ptotal(s: Seq<(r_tree_Node, r_tree_Node)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ptotal(s.drop_last()) + cnt(s.last().0) * cnt(s.last().1) } }
pub proof fn lemma_prod_pos(a: int, b: int) requires a >= 1, b >= 1 ensures a * b >= 1 { assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; }
pub proof fn lemma_ptotal_pos(s: Seq<(r_tree_Node, r_tree_Node)>) ensures ptotal(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_ptotal_pos(s.drop_last()); lemma_cnt_pos(s.last().0); lemma_cnt_pos(s.last().1); lemma_prod_pos(cnt(s.last().0), cnt(s.last().1)); } }
pub proof fn lemma_ptotal_push(s: Seq<(r_tree_Node, r_tree_Node)>, a: r_tree_Node, b: r_tree_Node) ensures ptotal(s.push((a, b))) == ptotal(s) + cnt(a) * cnt(b), ptotal(s) >= 0
{ assert(s.push((a, b)).drop_last() =~= s); lemma_ptotal_pos(s); }
pub proof fn lemma_ptotal_pop(s: Seq<(r_tree_Node, r_tree_Node)>) requires s.len() > 0
    ensures ptotal(s) == ptotal(s.drop_last()) + cnt(s.last().0) * cnt(s.last().1), ptotal(s) > ptotal(s.drop_last()), ptotal(s.drop_last()) >= 0,
        cnts(s.last().0.children, s.last().0.children.len() as int) * cnt(s.last().1) < cnt(s.last().0) * cnt(s.last().1), cnt(s.last().0) * cnts(s.last().1.children, s.last().1.children.len() as int) < cnt(s.last().0) * cnt(s.last().1)
{
    let a = s.last().0; let b = s.last().1; lemma_cnt_pos(a); lemma_cnt_pos(b); lemma_prod_pos(cnt(a), cnt(b)); lemma_ptotal_pos(s.drop_last());
    let ca = cnts(a.children, a.children.len() as int); let cb = cnts(b.children, b.children.len() as int);
    assert(cnt(a) == 1 + ca && cnt(b) == 1 + cb);
    assert(ca * (1 + cb) < (1 + ca) * (1 + cb)) by (nonlinear_arith) requires 1 + cb >= 1; assert((1 + ca) * cb < (1 + ca) * (1 + cb)) by (nonlinear_arith) requires 1 + ca >= 1;
}
pub proof fn lemma_cnts_step(s: Seq<r_tree_Node>, k: int, m: int) requires 0 <= k < s.len() ensures cnts(s, k + 1) * m == cnts(s, k) * m + cnt(s[k]) * m, m * cnts(s, k + 1) == m * cnts(s, k) + m * cnt(s[k]), m >= 1 ==> cnts(s, k + 1) * m >= cnts(s, k) * m && m * cnts(s, k + 1) >= m * cnts(s, k)
{ let x = cnts(s, k); let y = cnt(s[k]); lemma_cnt_pos(s[k]); assert(cnts(s, k + 1) == x + y); assert((x + y) * m == x * m + y * m) by (nonlinear_arith); assert(m * (x + y) == m * x + m * y) by (nonlinear_arith); if m >= 1 { lemma_prod_pos(y, m); lemma_prod_pos(m, y); } }
// ---- points of a tree
pub open spec fn npt(n: r_tree_Node, p: Seq<int>) -> bool { anyin(flat(n), p) }
pub open spec fn spt(s: Seq<r_tree_Node>, p: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && npt(#[trigger] s[i], p) }
pub open spec fn cpt(n: r_tree_Node, k: int, p: Seq<int>) -> bool { exists|i: int| 0 <= i < k && npt(#[trigger] n.children[i], p) }
pub open spec fn opt(n: r_tree_Node, k: int, p: Seq<int>) -> bool { exists|i: int| 0 <= i < k && bin((#[trigger] n.objects[i]).value, p) }
pub open spec fn ppt(s: Seq<(r_tree_Node, r_tree_Node)>, p: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && npt((#[trigger] s[i]).0, p) && npt(s[i].1, p) }
pub proof fn lemma_anyin_concat(a: Seq<MultidimensionalRange>, b: Seq<MultidimensionalRange>, p: Seq<int>) ensures anyin(a + b, p) == (anyin(a, p) || anyin(b, p))
{
    let c = a + b;
    if anyin(a, p) { let k = choose|k: int| 0 <= k < a.len() && bin(#[trigger] a[k], p); assert(c[k] == a[k]); }
    if anyin(b, p) { let k = choose|k: int| 0 <= k < b.len() && bin(#[trigger] b[k], p); assert(c[k + a.len()] == b[k]); }
    if anyin(c, p) { let k = choose|k: int| 0 <= k < c.len() && bin(#[trigger] c[k], p); if k < a.len() { assert(a[k] == c[k]); } else { assert(b[k - a.len()] == c[k]); } }
}
pub proof fn lemma_flats_pt(s: Seq<r_tree_Node>, k: int, p: Seq<int>) requires 0 <= k <= s.len() ensures anyin(flats(s, k), p) == (exists|i: int| 0 <= i < k && npt(#[trigger] s[i], p)) decreases k
{ if k > 0 { lemma_flats_pt(s, k - 1, p); lemma_anyin_concat(flats(s, k - 1), flat(s[k - 1]), p); if npt(s[k - 1], p) {} } }
// a point below a node is a point of one of its boxes or of one of its children
pub proof fn lemma_npt_node(n: r_tree_Node, r: int) requires nwf(n, r) ensures forall|p: Seq<int>| #[trigger] npt(n, p) == (opt(n, n.objects.len() as int, p) || cpt(n, n.children.len() as int, p))
{
    assert forall|p: Seq<int>| #[trigger] npt(n, p) == (opt(n, n.objects.len() as int, p) || cpt(n, n.children.len() as int, p)) by {
        lemma_flats_pt(n.children, n.children.len() as int, p);
        if n.children.len() == 0 {
            if npt(n, p) { let k = choose|k: int| 0 <= k < flat(n).len() && bin(#[trigger] flat(n)[k], p); assert(bin(n.objects[k].value, p)); }
            if opt(n, n.objects.len() as int, p) { let k = choose|k: int| 0 <= k < n.objects.len() && bin((#[trigger] n.objects[k]).value, p); assert(bin(flat(n)[k], p)); }
        }
    }
}
pub proof fn lemma_ble_pt(a: MultidimensionalRange, b: MultidimensionalRange, p: Seq<int>) requires ble(a, b), bin(a, p) ensures bin(b, p)
{ assert forall|i: int| 0 <= i < b.ranges.len() implies rin(#[trigger] b.ranges[i], p[i]) by { assert(rin(a.ranges[i], p[i])); assert(rle(a.ranges[i], b.ranges[i])); } }
pub proof fn lemma_ble_trans(a: MultidimensionalRange, b: MultidimensionalRange, c: MultidimensionalRange) requires ble(a, b), ble(b, c) ensures ble(a, c)
{ assert forall|i: int| 0 <= i < a.ranges.len() implies rle(#[trigger] a.ranges[i], c.ranges[i]) by { assert(rle(b.ranges[i], c.ranges[i])); } }
// every box below a well-formed node is well formed and lies within the boundary
pub proof fn lemma_flat_wf(n: r_tree_Node, r: int) requires nwf(n, r) ensures allbox(flat(n), r), flat(n).len() > 0, forall|k: int| 0 <= k < flat(n).len() ==> ble(#[trigger] flat(n)[k], n.boundary) decreases n, 0int
{
    if n.children.len() > 0 { lemma_flats_wf(n.children, n.children.len() as int, r, n.boundary); }
}
pub proof fn lemma_flats_wf(s: Seq<r_tree_Node>, k: int, r: int, b: MultidimensionalRange) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> nwf(#[trigger] s[i], r) && ble(s[i].boundary, b)
    ensures allbox(flats(s, k), r), flats(s, k).len() >= k, forall|j: int| 0 <= j < flats(s, k).len() ==> ble(#[trigger] flats(s, k)[j], b) decreases s, k
{
    if k > 0 {
        lemma_flats_wf(s, k - 1, r, b); assert(nwf(s[k - 1], r) && ble(s[k - 1].boundary, b)); lemma_flat_wf(s[k - 1], r);
        let u = flats(s, k - 1); let v = flat(s[k - 1]); let w = flats(s, k);
        assert forall|j: int| 0 <= j < w.len() implies ble(#[trigger] w[j], b) && bwf(w[j]) && w[j].ranges.len() == r by { if j < u.len() { assert(w[j] == u[j]); } else { assert(w[j] == v[j - u.len()]); lemma_ble_trans(v[j - u.len()], s[k - 1].boundary, b); } }
    }
}
pub proof fn lemma_npt_in(n: r_tree_Node, r: int) requires nwf(n, r) ensures forall|p: Seq<int>| #[trigger] npt(n, p) ==> bin(n.boundary, p)
{ lemma_flat_wf(n, r); assert forall|p: Seq<int>| #[trigger] npt(n, p) implies bin(n.boundary, p) by { let k = choose|k: int| 0 <= k < flat(n).len() && bin(#[trigger] flat(n)[k], p); lemma_ble_pt(flat(n)[k], n.boundary, p); } }
pub proof fn lemma_spt_push(s: Seq<r_tree_Node>, n: r_tree_Node) ensures forall|p: Seq<int>| #[trigger] spt(s.push(n), p) == (spt(s, p) || npt(n, p))
{
    let t = s.push(n);
    assert forall|p: Seq<int>| #[trigger] spt(s.push(n), p) == (spt(s, p) || npt(n, p)) by {
        if spt(s, p) { let i = choose|i: int| 0 <= i < s.len() && npt(#[trigger] s[i], p); assert(t[i] == s[i]); }
        if npt(n, p) { assert(t[s.len() as int] == n); }
        if spt(t, p) { let i = choose|i: int| 0 <= i < t.len() && npt(#[trigger] t[i], p); if i < s.len() { assert(s[i] == t[i]); } }
    }
}
pub proof fn lemma_spt_pop(s: Seq<r_tree_Node>, r: int) requires s.len() > 0, nwf(s.last(), r)
    ensures forall|p: Seq<int>| #[trigger] spt(s, p) == (spt(s.drop_last(), p) || opt(s.last(), s.last().objects.len() as int, p) || cpt(s.last(), s.last().children.len() as int, p))
{ lemma_spt_push(s.drop_last(), s.last()); assert(s =~= s.drop_last().push(s.last())); lemma_npt_node(s.last(), r);
  assert forall|p: Seq<int>| #[trigger] spt(s, p) == (spt(s.drop_last(), p) || opt(s.last(), s.last().objects.len() as int, p) || cpt(s.last(), s.last().children.len() as int, p)) by { assert(spt(s, p) == (spt(s.drop_last(), p) || npt(s.last(), p))); } }
pub proof fn lemma_ppt_push(s: Seq<(r_tree_Node, r_tree_Node)>, a: r_tree_Node, b: r_tree_Node) ensures forall|p: Seq<int>| #[trigger] ppt(s.push((a, b)), p) == (ppt(s, p) || (npt(a, p) && npt(b, p)))
{
    let t = s.push((a, b));
    assert forall|p: Seq<int>| #[trigger] ppt(t, p) == (ppt(s, p) || (npt(a, p) && npt(b, p))) by {
        if ppt(s, p) { let i = choose|i: int| 0 <= i < s.len() && npt((#[trigger] s[i]).0, p) && npt(s[i].1, p); assert(t[i] == s[i]); }
        if npt(a, p) && npt(b, p) { assert(t[s.len() as int] == (a, b)); }
        if ppt(t, p) { let i = choose|i: int| 0 <= i < t.len() && npt((#[trigger] t[i]).0, p) && npt(t[i].1, p); if i < s.len() { assert(s[i] == t[i]); } }
    }
}
pub proof fn lemma_ppt_pop(s: Seq<(r_tree_Node, r_tree_Node)>) requires s.len() > 0 ensures forall|p: Seq<int>| #[trigger] ppt(s, p) == (ppt(s.drop_last(), p) || (npt(s.last().0, p) && npt(s.last().1, p)))
{ lemma_ppt_push(s.drop_last(), s.last().0, s.last().1); assert(s =~= s.drop_last().push((s.last().0, s.last().1))); }
// ---- index sets
pub open spec fn iflat(x: IndexSet) -> Seq<MultidimensionalRange> { if x.root is Some { flat(x.root->0) } else { Seq::empty() } }
pub open spec fn iin(x: IndexSet, p: Seq<int>) -> bool { anyin(iflat(x), p) }
pub open spec fn iwf(x: IndexSet) -> bool { 1 < x.maxElements && 1 <= x.minElements && x.minElements * 2 <= x.maxElements && (x.root is Some ==> nwf(x.root->0, x.allowedRank) && pdisj(iflat(x)) && x.initialized) }
pub proof fn lemma_iflat(x: IndexSet) requires iwf(x) ensures allbox(iflat(x), x.allowedRank), (iflat(x).len() == 0) == (x.root is None), (exists|p: Seq<int>| #[trigger] iin(x, p)) == (x.root is Some)
{
    if x.root is Some { lemma_flat_wf(x.root->0, x.allowedRank); let b = iflat(x)[0]; assert(bwf(b)); lemma_corner(b.ranges); assert(bin(b, corner(b.ranges))); assert(iin(x, corner(b.ranges))); }
}
pub proof fn lemma_box_pt(a: MultidimensionalRange, b: MultidimensionalRange) requires bwf(a), bwf(b), a.ranges.len() == b.ranges.len() ensures bov(a, b) == (exists|p: Seq<int>| bin(a, p) && bin(b, p))
{ lemma_boxes_overlap(a.ranges, b.ranges);
  if bov(a, b) { let p = choose|p: Seq<int>| sin(a.ranges, p) && sin(b.ranges, p); assert(bin(a, p) && bin(b, p)); }
  if exists|p: Seq<int>| bin(a, p) && bin(b, p) { let p = choose|p: Seq<int>| bin(a, p) && bin(b, p); assert(sin(a.ranges, p) && sin(b.ranges, p)); } }
%end

%fn marco::modeling::IndexSet::overlaps(marco::modeling::MultidimensionalRange const&) const
%name Ix_overlaps_box
%req
- iwf(this) && (this.root is Some ==> bwr(other, this.allowedRank))
%ens
- ret == (exists|p: Seq<int>| #[trigger] iin(this, p) && bin(other, p))
%loop 1
%before
lemma_npt_in(this.root->0, this.allowedRank); lemma_spt_push(Seq::empty(), this.root->0);
assert forall|p: Seq<int>| bin(other, p) implies #[trigger] spt(@nodes, p) == iin(this, p) by { assert(npt(this.root->0, p) == iin(this, p)); assert(!spt(Seq::empty(), p)); }
%inv
- swfn(@nodes, this.allowedRank)
- forall|p: Seq<int>| bin(other, p) ==> #[trigger] spt(@nodes, p) == iin(this, p)
%dec
- total(@nodes)
%begin
let ghost nodes0 = @nodes;
lemma_total_pop(@nodes);
assert(nwf(@nodes.last(), this.allowedRank));
lemma_spt_pop(@nodes, this.allowedRank);
%after
assert forall|p: Seq<int>| bin(other, p) implies !#[trigger] iin(this, p) by { assert(spt(@nodes, p) == iin(this, p)); }
%endloop
%loop 2
%after
lemma_cnts_pos(@nodes, @nodes.len() as int);
%inv
- nodes0.len() > 0 && @node == nodes0.last() && nwf(@node, this.allowedRank)
- swfn(@nodes, this.allowedRank)
- total(@nodes) <= total(nodes0.drop_last()) + cnts(@node.children, $i)
- forall|p: Seq<int>| bin(other, p) ==> #[trigger] spt(@nodes, p) == (spt(nodes0.drop_last(), p) || cpt(@node, $i, p))
%begin
assert(nwf(@node.children[$i], this.allowedRank));
lemma_total_push(@nodes, @node.children[$i]); lemma_cnt_pos(@node.children[$i]); lemma_spt_push(@nodes, @node.children[$i]); lemma_npt_in(@node.children[$i], this.allowedRank);
%endloop
%loop 3
%inv
- forall|j: int| 0 <= j < $i ==> !bov((#[trigger] @node.objects[j]).value, other)
%begin
assert(nwf(@node, this.allowedRank));
lemma_box_pt(@node.objects[$i].value, other);
if bov(@node.objects[$i].value, other) { let p = choose|p: Seq<int>| bin(@node.objects[$i].value, p) && bin(other, p); assert(opt(@node, @node.objects.len() as int, p)); assert(spt(nodes0, p)); assert(iin(this, p) && bin(other, p)); }
%after
assert(nwf(@node, this.allowedRank));
assert forall|p: Seq<int>| bin(other, p) implies !opt(@node, @node.objects.len() as int, p) by { if opt(@node, @node.objects.len() as int, p) { let j = choose|j: int| 0 <= j < @node.objects.len() && bin((#[trigger] @node.objects[j]).value, p); lemma_box_pt(@node.objects[j].value, other); } }
assert forall|p: Seq<int>| bin(other, p) implies #[trigger] spt(@nodes, p) == iin(this, p) by { assert(spt(nodes0, p) == iin(this, p)); }
%endloop
%endfn

%fn marco::modeling::IndexSet::overlaps(marco::modeling::IndexSet const&) const
%name Ix_overlaps
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- ret == (exists|p: Seq<int>| #[trigger] iin(this, p) && iin(other, p))
%loop 1
%before
lemma_npt_in(this.root->0, this.allowedRank); lemma_npt_in(other.root->0, this.allowedRank); lemma_ppt_push(Seq::empty(), this.root->0, other.root->0); lemma_ptotal_pos(Seq::<(r_tree_Node, r_tree_Node)>::empty()); lemma_box_pt(this.root->0.boundary, other.root->0.boundary);
assert forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (iin(this, p) && iin(other, p)) by { assert(npt(this.root->0, p) == iin(this, p)); assert(npt(other.root->0, p) == iin(other, p)); assert(!ppt(Seq::empty(), p)); }
%inv
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (iin(this, p) && iin(other, p))
%dec
- ptotal(@overlappingNodes)
%begin
let ghost nodes0 = @overlappingNodes; let ghost n0 = nodes0.last();
assert(nwf(nodes0.last().0, this.allowedRank) && nwf(nodes0.last().1, this.allowedRank));
lemma_ptotal_pop(nodes0); lemma_ppt_pop(nodes0);
lemma_npt_node(nodes0.last().0, this.allowedRank); lemma_npt_node(nodes0.last().1, this.allowedRank);
%end
lemma_ptotal_pos(@overlappingNodes);
assert forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (iin(this, p) && iin(other, p)) by { assert(ppt(nodes0, p) == (ppt(nodes0.drop_last(), p) || (npt(n0.0, p) && npt(n0.1, p)))); assert(npt(n0.0, p) == (opt(n0.0, n0.0.objects.len() as int, p) || cpt(n0.0, n0.0.children.len() as int, p))); assert(npt(n0.1, p) == (opt(n0.1, n0.1.objects.len() as int, p) || cpt(n0.1, n0.1.children.len() as int, p))); }
%after
assert forall|p: Seq<int>| iin(this, p) implies !iin(other, p) by { assert(ppt(@overlappingNodes, p) == (iin(this, p) && iin(other, p))); }
%endloop
%loop 2
%inv
- nodes0.len() > 0 && @lhs == nodes0.last().0 && @rhs == nodes0.last().1 && nwf(@lhs, this.allowedRank) && nwf(@rhs, this.allowedRank) && @overlappingNodes == nodes0.drop_last()
- forall|p: Seq<int>| opt(@lhs, $i, p) ==> !opt(@rhs, @rhs.objects.len() as int, p)
%end
assert forall|p: Seq<int>| opt(@lhs, $i, p) implies !opt(@rhs, @rhs.objects.len() as int, p) by { if !opt(@lhs, $i - 1, p) { assert(bin(@lhs.objects[$i - 1].value, p)); } }
%endloop
%loop 3
%inv
- forall|p: Seq<int>| bin(@lhsRange.value, p) ==> !opt(@rhs, $i, p)
%begin
assert(nwf(@rhs, this.allowedRank) && nwf(@lhs, this.allowedRank));
lemma_box_pt(@lhsRange.value, @rhs.objects[$i].value);
if bov(@lhsRange.value, @rhs.objects[$i].value) { let p = choose|p: Seq<int>| bin(@lhsRange.value, p) && bin(@rhs.objects[$i].value, p); assert(opt(@lhs, @lhs.objects.len() as int, p) && opt(@rhs, @rhs.objects.len() as int, p)); assert(npt(@lhs, p) && npt(@rhs, p)); assert(ppt(nodes0, p)); assert(iin(this, p) && iin(other, p)); }
%end
assert forall|p: Seq<int>| bin(@lhsRange.value, p) implies !opt(@rhs, $i, p) by { if opt(@rhs, $i, p) { assert(!opt(@rhs, $i - 1, p)); assert(bin(@rhs.objects[$i - 1].value, p)); } }
%endloop
%loop 4
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodes) <= ptotal(nodes0.drop_last()) + cnt(@lhs) * cnts(@rhs.children, $i)
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (ppt(nodes0.drop_last(), p) || (npt(@lhs, p) && cpt(@rhs, $i, p)))
%begin
let ghost ch = @rhs.children[$i];
assert(nwf(ch, this.allowedRank)); lemma_ptotal_push(@overlappingNodes, @lhs, ch); lemma_ppt_push(@overlappingNodes, @lhs, ch); lemma_npt_in(ch, this.allowedRank); lemma_npt_in(@lhs, this.allowedRank); lemma_cnt_pos(@lhs); lemma_cnts_step(@rhs.children, $i, cnt(@lhs)); lemma_box_pt(ch.boundary, @lhs.boundary);
%endloop
%loop 5
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodes) <= ptotal(nodes0.drop_last()) + cnts(@lhs.children, $i) * cnt(@rhs)
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (ppt(nodes0.drop_last(), p) || (cpt(@lhs, $i, p) && npt(@rhs, p)))
%begin
let ghost ch = @lhs.children[$i];
assert(nwf(ch, this.allowedRank)); lemma_ptotal_push(@overlappingNodes, ch, @rhs); lemma_ppt_push(@overlappingNodes, ch, @rhs); lemma_npt_in(ch, this.allowedRank); lemma_npt_in(@rhs, this.allowedRank); lemma_cnt_pos(@rhs); lemma_cnts_step(@lhs.children, $i, cnt(@rhs)); lemma_box_pt(ch.boundary, @rhs.boundary);
%endloop
%endfn

%prelude
pub proof fn lemma_perm(a: Seq<MultidimensionalRange>, b: Seq<MultidimensionalRange>) requires is_perm(a, b)
    ensures a.len() == b.len(), forall|p: Seq<int>| #[trigger] anyin(a, p) == anyin(b, p), pdisj(b) ==> pdisj(a), forall|r: int| #[trigger] allbox(b, r) ==> allbox(a, r)
{
    let (f, g) = choose|f: spec_fn(int) -> int, g: spec_fn(int) -> int| perm_by(a, b, f, g);
    assert forall|p: Seq<int>| #[trigger] anyin(a, p) == anyin(b, p) by {
        if anyin(a, p) { let i = choose|i: int| 0 <= i < a.len() && bin(#[trigger] a[i], p); assert(0 <= f(i) < a.len() && a[i] == b[f(i)]); assert(bin(b[f(i)], p)); }
        if anyin(b, p) { let i = choose|i: int| 0 <= i < b.len() && bin(#[trigger] b[i], p); assert(0 <= g(i) < a.len() && f(g(i)) == i); assert(0 <= f(g(i)) && a[g(i)] == b[f(g(i))]); assert(bin(a[g(i)], p)); }
    }
    if pdisj(b) {
        assert forall|i: int, j: int, p: Seq<int>| 0 <= i < j < a.len() && #[trigger] bin(a[i], p) implies !#[trigger] bin(a[j], p) by {
            assert(0 <= f(i) < a.len() && a[i] == b[f(i)] && g(f(i)) == i); assert(0 <= f(j) < a.len() && a[j] == b[f(j)] && g(f(j)) == j);
            if f(i) < f(j) { assert(bin(b[f(i)], p)); if bin(a[j], p) { assert(bin(b[f(j)], p)); } } else { assert(f(i) != f(j)); assert(bin(b[f(i)], p)); if bin(a[j], p) { assert(bin(b[f(j)], p)); } }
        }
    }
    assert forall|r: int| #[trigger] allbox(b, r) implies allbox(a, r) by { assert forall|k: int| 0 <= k < a.len() implies bwf(#[trigger] a[k]) && a[k].ranges.len() == r by { assert(0 <= f(k) < a.len() && a[k] == b[f(k)]); assert(bwf(b[f(k)])); } }
}
pub open spec fn allrank(s: Seq<MultidimensionalRange>) -> bool { s.len() > 0 ==> allbox(s, s[0].ranges.len() as int) }
pub proof fn lemma_pdisj_concat(a: Seq<MultidimensionalRange>, b: Seq<MultidimensionalRange>) requires pdisj(a), pdisj(b), forall|p: Seq<int>| anyin(b, p) ==> !#[trigger] anyin(a, p) ensures pdisj(a + b)
{
    let c = a + b;
    assert forall|i: int, j: int, p: Seq<int>| 0 <= i < j < c.len() && #[trigger] bin(c[i], p) implies !#[trigger] bin(c[j], p) by {
        if j < a.len() { assert(c[i] == a[i] && c[j] == a[j]); assert(bin(a[i], p)); if bin(a[j], p) {} }
        else if i >= a.len() { assert(c[i] == b[i - a.len()] && c[j] == b[j - a.len()]); assert(bin(b[i - a.len()], p)); if bin(b[j - a.len()], p) {} }
        else { assert(c[i] == a[i] && c[j] == b[j - a.len()]); assert(bin(a[i], p)); assert(anyin(a, p)); if bin(b[j - a.len()], p) { assert(anyin(b, p)); } }
    }
}
pub proof fn lemma_allbox_concat(a: Seq<MultidimensionalRange>, b: Seq<MultidimensionalRange>, r: int) requires allbox(a, r), allbox(b, r) ensures allbox(a + b, r)
{ let c = a + b; assert forall|k: int| 0 <= k < c.len() implies bwf(#[trigger] c[k]) && c[k].ranges.len() == r by { if k < a.len() { assert(c[k] == a[k]); } else { assert(c[k] == b[k - a.len()]); } } }
pub proof fn lemma_allbox_push(a: Seq<MultidimensionalRange>, b: MultidimensionalRange, r: int) requires allbox(a, r), bwr(b, r) ensures allbox(a.push(b), r)
{ let c = a.push(b); assert forall|k: int| 0 <= k < c.len() implies bwf(#[trigger] c[k]) && c[k].ranges.len() == r by { if k < a.len() { assert(c[k] == a[k]); } } }
%end

%prelude
pub proof fn lemma_pdisj_prefix(s: Seq<MultidimensionalRange>, i: int, p: Seq<int>) requires pdisj(s), 0 <= i < s.len(), anyin(s.subrange(0, i), p) ensures !bin(s[i], p)
{ let t = s.subrange(0, i); let k = choose|k: int| 0 <= k < t.len() && bin(#[trigger] t[k], p); assert(bin(s[k], p)); }
// n1 extends n0 by db minus o
pub proof fn lemma_grow(n0: Seq<MultidimensionalRange>, n1: Seq<MultidimensionalRange>, db: MultidimensionalRange, o: MultidimensionalRange, r: int)
    requires allbox(n0, r), pdisj(n0), bwr(db, r), forall|p: Seq<int>| #[trigger] anyin(n0, p) ==> !bin(db, p), n1 == n0.push(db) && (forall|p: Seq<int>| #[trigger] bin(db, p) ==> !bin(o, p)) || exists|x: Seq<MultidimensionalRange>| n1 == #[trigger] (n0 + x) && allbox(x, r) && pdisj(x) && (forall|p: Seq<int>| (sin(db.ranges, p) && !sin(o.ranges, p)) <==> anyin(x, p))
    ensures allbox(n1, r), pdisj(n1), forall|p: Seq<int>| #[trigger] anyin(n1, p) == (anyin(n0, p) || (bin(db, p) && !bin(o, p)))
{
    if n1 == n0.push(db) && (forall|p: Seq<int>| #[trigger] bin(db, p) ==> !bin(o, p)) {
        lemma_allbox_push(n0, db, r); lemma_pdisj_push(n0, db);
        assert forall|p: Seq<int>| #[trigger] anyin(n1, p) == (anyin(n0, p) || (bin(db, p) && !bin(o, p))) by { lemma_anyin_push(n0, db, p); }
    } else {
        let x = choose|x: Seq<MultidimensionalRange>| n1 == #[trigger] (n0 + x) && allbox(x, r) && pdisj(x) && (forall|p: Seq<int>| (sin(db.ranges, p) && !sin(o.ranges, p)) <==> anyin(x, p));
        assert forall|p: Seq<int>| anyin(x, p) implies !#[trigger] anyin(n0, p) by { if anyin(n0, p) { assert(!bin(db, p)); } }
        lemma_allbox_concat(n0, x, r); lemma_pdisj_concat(n0, x);
        assert forall|p: Seq<int>| #[trigger] anyin(n1, p) == (anyin(n0, p) || (bin(db, p) && !bin(o, p))) by { lemma_anyin_concat(n0, x, p); }
    }
}
%end

%fn RT::setFromObjects(llvm::ArrayRef<marco::modeling::MultidimensionalRange>)
%name Rt_setFromObjects
%trusted bulk loading of the tree (Node and parent pointers): the tree stores exactly the given boxes
%req
- 1 < this.maxElements && 1 <= this.minElements && this.minElements * 2 <= this.maxElements && allrank(objects) && pdisj(objects)
%ens
- iwf(post_this) && post_this.minElements == this.minElements && post_this.maxElements == this.maxElements
- forall|p: Seq<int>| #[trigger] iin(post_this, p) == anyin(objects, p)
- (post_this.root is Some) == (objects.len() > 0)
- objects.len() > 0 ==> post_this.allowedRank == objects[0].ranges.len()
- objects.len() == 0 ==> post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
%endfn

%fn marco::modeling::IndexSet::setFromRanges(llvm::ArrayRef<marco::modeling::MultidimensionalRange>)
%name Ix_setFromRanges
%req
- 1 < this.maxElements && 1 <= this.minElements && this.minElements * 2 <= this.maxElements && allrank(ranges)
%ens
- iwf(post_this)
- forall|p: Seq<int>| #[trigger] iin(post_this, p) == anyin(ranges, p)
- (post_this.root is Some) == (ranges.len() > 0)
- ranges.len() > 0 ==> post_this.allowedRank == ranges[0].ranges.len()
- ranges.len() == 0 ==> post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
%entry
let ghost rk = if ranges.len() > 0 { ranges[0].ranges.len() as int } else { 0 };
assert(allbox(ranges, rk));
let ghost mut nov1 = Seq::<MultidimensionalRange>::empty();
%loop 1
%after
nov1 = @nonOverlappingRanges;
%before
assert(Seq::<MultidimensionalRange>::empty() + ranges =~= ranges);
lemma_perm(@sorted, ranges); assert(allbox(ranges, rk)); assert(allbox(@sorted, rk));
%inv
- allbox(@nonOverlappingRanges, rk) && pdisj(@nonOverlappingRanges) && ($i > 0 ==> @nonOverlappingRanges.len() > 0)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) == anyin(@sorted.subrange(0, $i), p)
%begin
let ghost nov0 = @nonOverlappingRanges;
let ghost cb = @sorted[$i];
assert(bwr(cb, rk));
assert(@sorted.subrange(0, $i + 1) =~= @sorted.subrange(0, $i).push(cb));
assert forall|p: Seq<int>| anyin(@sorted.subrange(0, $i + 1), p) == (#[trigger] anyin(@sorted.subrange(0, $i), p) || bin(cb, p)) by { lemma_anyin_push(@sorted.subrange(0, $i), cb, p); }
lemma_allbox_push(Seq::empty(), cb, rk);
assert forall|p: Seq<int>| #[trigger] anyin(nov0.push(cb), p) == (anyin(nov0, p) || bin(cb, p)) by { lemma_anyin_push(nov0, cb, p); }
%endloop
%loop 2
%before
assert(Seq::<MultidimensionalRange>::empty().push(cb).len() == 1);
assert forall|p: Seq<int>| #[trigger] anyin(@differences, p) == (bin(cb, p) && !anyin(@nonOverlappingRanges.subrange(0, 0), p)) by { lemma_anyin_push(Seq::empty(), cb, p); }
%inv
- allbox(@differences, rk) && pdisj(@differences)
- forall|p: Seq<int>| #[trigger] anyin(@differences, p) == (bin(cb, p) && !anyin(@nonOverlappingRanges.subrange(0, $i), p))
%begin
let ghost d0 = @differences;
assert(bwr(@nonOverlappingRanges[$i], rk));
assert(@nonOverlappingRanges.subrange(0, $i + 1) =~= @nonOverlappingRanges.subrange(0, $i).push(@nonOverlappingRanges[$i]));
%end
assert(d0.subrange(0, d0.len() as int) =~= d0);
assert forall|p: Seq<int>| #[trigger] anyin(@differences, p) == (bin(cb, p) && !anyin(@nonOverlappingRanges.subrange(0, $i), p)) by { lemma_anyin_push(@nonOverlappingRanges.subrange(0, $i - 1), @nonOverlappingRanges[$i - 1], p); assert(anyin(d0, p) == (bin(cb, p) && !anyin(@nonOverlappingRanges.subrange(0, $i - 1), p))); assert(anyin(d0.subrange(0, d0.len() as int), p) == anyin(d0, p)); }
%after
assert(@nonOverlappingRanges.subrange(0, @nonOverlappingRanges.len() as int) =~= @nonOverlappingRanges);
assert forall|p: Seq<int>| anyin(@differences, p) implies !#[trigger] anyin(@nonOverlappingRanges, p) by {}
lemma_pdisj_concat(@nonOverlappingRanges, @differences); lemma_allbox_concat(@nonOverlappingRanges, @differences, rk);
assert forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges + @differences, p) == anyin(@sorted.subrange(0, $i_1 + 1), p) by { lemma_anyin_concat(@nonOverlappingRanges, @differences, p); assert(anyin(@sorted.subrange(0, $i_1 + 1), p) == (anyin(@sorted.subrange(0, $i_1), p) || bin(cb, p))); assert(anyin(@nonOverlappingRanges, p) == anyin(@sorted.subrange(0, $i_1), p)); }
%endloop
%loop 3
%inv
- allbox(@newDifferences, rk) && pdisj(@newDifferences)
- forall|p: Seq<int>| #[trigger] anyin(@newDifferences, p) == (anyin(@differences.subrange(0, $i), p) && !bin(@other, p))
%begin
let ghost n0 = @newDifferences; let ghost db = @differences[$i];
assert(bwr(db, rk)); lemma_box_pt(db, @other);
assert(@differences.subrange(0, $i + 1) =~= @differences.subrange(0, $i).push(db));
assert forall|p: Seq<int>| #[trigger] anyin(n0, p) implies !bin(db, p) by { lemma_pdisj_prefix(@differences, $i, p); }
%end
lemma_grow(n0, @newDifferences, db, @other, rk);
assert forall|p: Seq<int>| #[trigger] anyin(@newDifferences, p) == (anyin(@differences.subrange(0, $i), p) && !bin(@other, p)) by { lemma_anyin_push(@differences.subrange(0, $i - 1), db, p); assert(anyin(n0, p) == (anyin(@differences.subrange(0, $i - 1), p) && !bin(@other, p))); }
%endloop
%beforecall Rt_setFromObjects
lemma_perm(@nonOverlappingRanges, nov1); assert(@sorted.subrange(0, @sorted.len() as int) =~= @sorted);
if ranges.len() > 0 { let b = ranges[0]; lemma_corner(b.ranges); assert(bin(b, corner(b.ranges))); assert(anyin(ranges, corner(b.ranges))); assert(anyin(@nonOverlappingRanges, corner(b.ranges))); }
assert(allbox(nov1, rk)); assert(allbox(@nonOverlappingRanges, rk)); if @nonOverlappingRanges.len() > 0 { assert(bwf(@nonOverlappingRanges[0])); }
%endfn

%fn marco::modeling::IndexSet::IndexSet(llvm::ArrayRef<marco::modeling::MultidimensionalRange>)
%name Ix_from_boxes
%req
- allrank(ranges)
%ens
- iwf(ret)
- forall|p: Seq<int>| #[trigger] iin(ret, p) == anyin(ranges, p)
- (ret.root is Some) == (ranges.len() > 0)
- ranges.len() > 0 ==> ret.allowedRank == ranges[0].ranges.len()
- ranges.len() == 0 ==> !ret.initialized
%endfn

%fn marco::modeling::IndexSet::IndexSet(llvm::ArrayRef<marco::modeling::Point>)
%name Ix_from_points
%req
- forall|k: int| 0 <= k < points.len() ==> (#[trigger] points[k]).values.len() == points[0].values.len()
- forall|k: int, i: int| 0 <= k < points.len() && 0 <= i < points[k].values.len() ==> #[trigger] points[k].values[i] < 0x7fff_ffff_ffff_ffff
%ens
- iwf(ret)
- forall|p: Seq<int>| #[trigger] iin(ret, p) == (exists|k: int| 0 <= k < points.len() && (#[trigger] points[k]).values =~= p)
- (ret.root is Some) == (points.len() > 0)
- points.len() > 0 ==> ret.allowedRank == points[0].values.len()
%loop 1
%inv
- @ranges.len() == $i
- forall|k: int| 0 <= k < $i ==> bwf(#[trigger] @ranges[k]) && @ranges[k].ranges.len() == points[0].values.len()
- forall|k: int, p: Seq<int>| 0 <= k < $i ==> (#[trigger] bin(@ranges[k], p) <==> p =~= points[k].values)
%after
if @ranges.len() > 0 { assert(bwf(@ranges[0])); }
assert forall|p: Seq<int>| #[trigger] anyin(@ranges, p) == (exists|k: int| 0 <= k < points.len() && (#[trigger] points[k]).values =~= p) by {
  if anyin(@ranges, p) { let k = choose|k: int| 0 <= k < @ranges.len() && bin(#[trigger] @ranges[k], p); assert(points[k].values =~= p); }
  if exists|k: int| 0 <= k < points.len() && (#[trigger] points[k]).values =~= p { let k = choose|k: int| 0 <= k < points.len() && (#[trigger] points[k]).values =~= p; assert(bin(@ranges[k], p)); }
}
%endloop
%endfn

%fn RT::emptyCopy() const
%inline
%endfn

%fn marco::modeling::IndexSet::intersect(marco::modeling::MultidimensionalRange const&) const
%name Ix_intersect_box
%req
- iwf(this) && (this.root is Some ==> bwr(other, this.allowedRank))
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == this.allowedRank)
- forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) && bin(other, p))
%loop 1
%before
lemma_npt_in(this.root->0, this.allowedRank); lemma_spt_push(Seq::empty(), this.root->0);
assert forall|p: Seq<int>| bin(other, p) implies #[trigger] spt(@nodes, p) == iin(this, p) by { assert(npt(this.root->0, p) == iin(this, p)); assert(!spt(Seq::empty(), p)); }
%inv
- swfn(@nodes, this.allowedRank) && allbox(@resultRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) ==> bin(other, p)
- forall|p: Seq<int>| bin(other, p) ==> (#[trigger] spt(@nodes, p) || anyin(@resultRanges, p)) == iin(this, p)
%dec
- total(@nodes)
%begin
let ghost nodes0 = @nodes; let ghost rr0 = @resultRanges;
lemma_total_pop(@nodes);
assert(nwf(@nodes.last(), this.allowedRank));
lemma_spt_pop(@nodes, this.allowedRank);
%after
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (iin(this, p) && bin(other, p)) by { if bin(other, p) { assert((spt(@nodes, p) || anyin(@resultRanges, p)) == iin(this, p)); assert(!spt(@nodes, p)); } }
if @resultRanges.len() > 0 { assert(bwf(@resultRanges[0])); }
%endloop
%loop 2
%after
lemma_cnts_pos(@nodes, @nodes.len() as int);
%inv
- nodes0.len() > 0 && @node == nodes0.last() && nwf(@node, this.allowedRank)
- swfn(@nodes, this.allowedRank)
- total(@nodes) <= total(nodes0.drop_last()) + cnts(@node.children, $i)
- forall|p: Seq<int>| bin(other, p) ==> #[trigger] spt(@nodes, p) == (spt(nodes0.drop_last(), p) || cpt(@node, $i, p))
%begin
assert(nwf(@node.children[$i], this.allowedRank));
lemma_total_push(@nodes, @node.children[$i]); lemma_cnt_pos(@node.children[$i]); lemma_spt_push(@nodes, @node.children[$i]); lemma_npt_in(@node.children[$i], this.allowedRank);
%endloop
%loop 3
%inv
- allbox(@resultRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr0, p) || (bin(other, p) && opt(@node, $i, p)))
%begin
let ghost rr1 = @resultRanges; let ghost ob = @node.objects[$i].value;
assert(nwf(@node, this.allowedRank)); lemma_box_pt(ob, other);
%end
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr0, p) || (bin(other, p) && opt(@node, $i, p))) by {
  assert(anyin(rr1, p) == (anyin(rr0, p) || (bin(other, p) && opt(@node, $i - 1, p)))); assert(opt(@node, $i, p) == (opt(@node, $i - 1, p) || bin(ob, p))) by { if bin(ob, p) { assert(bin(@node.objects[$i - 1].value, p)); } }
  if @resultRanges.len() > rr1.len() { lemma_anyin_push(rr1, @resultRanges.last(), p); assert(@resultRanges =~= rr1.push(@resultRanges.last())); }
}
if @resultRanges.len() > rr1.len() { lemma_allbox_push(rr1, @resultRanges.last(), this.allowedRank as int); assert(@resultRanges =~= rr1.push(@resultRanges.last())); }
%after
assert forall|p: Seq<int>| bin(other, p) implies (#[trigger] spt(@nodes, p) || anyin(@resultRanges, p)) == iin(this, p) by { assert((spt(nodes0, p) || anyin(rr0, p)) == iin(this, p)); }
%endloop
%exit
if this.root is None { assert forall|p: Seq<int>| !iin(this, p) by {} }
else { lemma_npt_in(this.root->0, this.allowedRank); lemma_box_pt(this.root->0.boundary, other); assert forall|p: Seq<int>| #[trigger] iin(this, p) && bin(other, p) implies bov(this.root->0.boundary, other) by { assert(npt(this.root->0, p)); } }
if ret.root is None { assert forall|p: Seq<int>| !#[trigger] iin(ret, p) by {} }
%endfn

%fn marco::modeling::IndexSet::intersect(marco::modeling::IndexSet const&) const
%name Ix_intersect
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(ret) && (ret.root is Some || ret.initialized ==> ret.allowedRank == this.allowedRank)
- forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) && iin(other, p))
%loop 1
%before
lemma_npt_in(this.root->0, this.allowedRank); lemma_npt_in(other.root->0, this.allowedRank); lemma_ppt_push(Seq::empty(), this.root->0, other.root->0); lemma_ptotal_pos(Seq::<(r_tree_Node, r_tree_Node)>::empty()); lemma_box_pt(this.root->0.boundary, other.root->0.boundary);
assert forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (iin(this, p) && iin(other, p)) by { assert(npt(this.root->0, p) == iin(this, p)); assert(npt(other.root->0, p) == iin(other, p)); assert(!ppt(Seq::empty(), p)); }
%inv
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- allbox(@resultRanges, this.allowedRank as int)
- forall|p: Seq<int>| (#[trigger] ppt(@overlappingNodes, p) || anyin(@resultRanges, p)) == (iin(this, p) && iin(other, p))
%dec
- ptotal(@overlappingNodes)
%begin
let ghost nodes0 = @overlappingNodes; let ghost n0 = nodes0.last(); let ghost rr0 = @resultRanges;
assert(nwf(nodes0.last().0, this.allowedRank) && nwf(nodes0.last().1, this.allowedRank));
lemma_ptotal_pop(nodes0); lemma_ppt_pop(nodes0);
lemma_npt_node(nodes0.last().0, this.allowedRank); lemma_npt_node(nodes0.last().1, this.allowedRank);
%end
lemma_ptotal_pos(@overlappingNodes);
assert forall|p: Seq<int>| (#[trigger] ppt(@overlappingNodes, p) || anyin(@resultRanges, p)) == (iin(this, p) && iin(other, p)) by { assert((ppt(nodes0, p) || anyin(rr0, p)) == (iin(this, p) && iin(other, p))); assert(ppt(nodes0, p) == (ppt(nodes0.drop_last(), p) || (npt(n0.0, p) && npt(n0.1, p)))); assert(npt(n0.0, p) == (opt(n0.0, n0.0.objects.len() as int, p) || cpt(n0.0, n0.0.children.len() as int, p))); assert(npt(n0.1, p) == (opt(n0.1, n0.1.objects.len() as int, p) || cpt(n0.1, n0.1.children.len() as int, p))); }
%after
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (iin(this, p) && iin(other, p)) by { assert((ppt(@overlappingNodes, p) || anyin(@resultRanges, p)) == (iin(this, p) && iin(other, p))); }
if @resultRanges.len() > 0 { assert(bwf(@resultRanges[0])); }
%endloop
%loop 2
%inv
- nodes0.len() > 0 && @lhs == nodes0.last().0 && @rhs == nodes0.last().1 && nwf(@lhs, this.allowedRank) && nwf(@rhs, this.allowedRank) && @overlappingNodes == nodes0.drop_last()
- allbox(@resultRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr0, p) || (opt(@lhs, $i, p) && opt(@rhs, @rhs.objects.len() as int, p)))
%begin
let ghost rr1 = @resultRanges;
%end
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr0, p) || (opt(@lhs, $i, p) && opt(@rhs, @rhs.objects.len() as int, p))) by {
  assert(anyin(rr1, p) == (anyin(rr0, p) || (opt(@lhs, $i - 1, p) && opt(@rhs, @rhs.objects.len() as int, p)))); assert(opt(@lhs, $i, p) == (opt(@lhs, $i - 1, p) || bin(@lhs.objects[$i - 1].value, p)));
}
%endloop
%loop 3
%inv
- allbox(@resultRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr1, p) || (bin(@lhsRange.value, p) && opt(@rhs, $i, p)))
%begin
let ghost rr2 = @resultRanges; let ghost ob = @rhs.objects[$i].value;
assert(nwf(@rhs, this.allowedRank) && nwf(@lhs, this.allowedRank)); lemma_box_pt(@lhsRange.value, ob);
%end
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(rr1, p) || (bin(@lhsRange.value, p) && opt(@rhs, $i, p))) by {
  assert(anyin(rr2, p) == (anyin(rr1, p) || (bin(@lhsRange.value, p) && opt(@rhs, $i - 1, p)))); assert(opt(@rhs, $i, p) == (opt(@rhs, $i - 1, p) || bin(ob, p))) by { if bin(ob, p) { assert(bin(@rhs.objects[$i - 1].value, p)); } }
  if @resultRanges.len() > rr2.len() { lemma_anyin_push(rr2, @resultRanges.last(), p); assert(@resultRanges =~= rr2.push(@resultRanges.last())); }
}
if @resultRanges.len() > rr2.len() { lemma_allbox_push(rr2, @resultRanges.last(), this.allowedRank as int); assert(@resultRanges =~= rr2.push(@resultRanges.last())); }
%endloop
%loop 4
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodes) <= ptotal(nodes0.drop_last()) + cnt(@lhs) * cnts(@rhs.children, $i)
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (ppt(nodes0.drop_last(), p) || (npt(@lhs, p) && cpt(@rhs, $i, p)))
%begin
let ghost ch = @rhs.children[$i];
assert(nwf(ch, this.allowedRank)); lemma_ptotal_push(@overlappingNodes, @lhs, ch); lemma_ppt_push(@overlappingNodes, @lhs, ch); lemma_npt_in(ch, this.allowedRank); lemma_npt_in(@lhs, this.allowedRank); lemma_cnt_pos(@lhs); lemma_cnts_step(@rhs.children, $i, cnt(@lhs)); lemma_box_pt(ch.boundary, @lhs.boundary);
%endloop
%loop 5
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodes) <= ptotal(nodes0.drop_last()) + cnts(@lhs.children, $i) * cnt(@rhs)
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> nwf((#[trigger] @overlappingNodes[k]).0, this.allowedRank) && nwf(@overlappingNodes[k].1, this.allowedRank)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodes, p) == (ppt(nodes0.drop_last(), p) || (cpt(@lhs, $i, p) && npt(@rhs, p)))
%begin
let ghost ch = @lhs.children[$i];
assert(nwf(ch, this.allowedRank)); lemma_ptotal_push(@overlappingNodes, ch, @rhs); lemma_ppt_push(@overlappingNodes, ch, @rhs); lemma_npt_in(ch, this.allowedRank); lemma_npt_in(@rhs, this.allowedRank); lemma_cnt_pos(@rhs); lemma_cnts_step(@lhs.children, $i, cnt(@rhs)); lemma_box_pt(ch.boundary, @rhs.boundary);
%endloop
%exit
if this.root is None { assert forall|p: Seq<int>| !iin(this, p) by {} }
if other.root is None { assert forall|p: Seq<int>| !iin(other, p) by {} }
if ret.root is None { assert forall|p: Seq<int>| !#[trigger] iin(ret, p) by {} }
%endfn
%fn RT::setRoot(std::unique_ptr<marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange>, std::default_delete<marco::modeling::r_tree::impl::Node<marco::modeling::MultidimensionalRange> > >)
%inline
%nullarg node
%nullarg return
%endfn
%fn NODE::setParent(NODE*)
%inline
%nullarg newParent
%endfn
