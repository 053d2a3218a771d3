%abbr RT:: = marco::modeling::r_tree::impl::RTreeCRTP<marco::modeling::IndexSet, marco::modeling::MultidimensionalRange>::
%abbr RTC = marco::modeling::r_tree::impl::RTreeCRTP<marco::modeling::IndexSet, marco::modeling::MultidimensionalRange>
%abbr IX:: = marco::modeling::IndexSet::
%abbr MR = marco::modeling::MultidimensionalRange
%prelude
pub proof fn lemma_allwf(f: Seq<MultidimensionalRange>, r: int) requires allbox(f, r) ensures allwf(f) { assert forall|k: int| 0 <= k < f.len() implies bwf(#[trigger] f[k]) by {} }
pub open spec fn isub(a: IndexSet, b: IndexSet) -> bool { forall|p: Seq<int>| #[trigger] iin(a, p) ==> iin(b, p) }
// a tree whose points all belong to another tree has its boundary within the boundary of the other
pub proof fn lemma_sub_boundary(m: r_tree_Node, n: r_tree_Node, r: int) requires nwf(m, r), nwf(n, r), forall|p: Seq<int>| #[trigger] npt(m, p) ==> npt(n, p) ensures ble(m.boundary, n.boundary)
{
    lemma_npt_in(n, r); lemma_flat_wf(m, r); let f = flat(m);
    assert forall|d: int| 0 <= d < m.boundary.ranges.len() implies rle(#[trigger] m.boundary.ranges[d], n.boundary.ranges[d]) by {
        let a = m.boundary.ranges[d];
        assert(atlo(f, d, a.begin_) && athi(f, d, a.end_));
        let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).ranges[d].begin_ == a.begin_;
        assert(bwf(f[k])); lemma_corner(f[k].ranges); let c = corner(f[k].ranges); assert(bin(f[k], c)); assert(npt(m, c)); assert(bin(n.boundary, c)); assert(rin(n.boundary.ranges[d], c[d]));
        let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).ranges[d].end_ == a.end_;
        assert(bwf(f[j])); lemma_corner(f[j].ranges); let e = corner(f[j].ranges).update(d, f[j].ranges[d].end_ - 1);
        assert(rwf(f[j].ranges[d]));
        assert forall|i: int| 0 <= i < f[j].ranges.len() implies rin(#[trigger] f[j].ranges[i], e[i]) by { assert(rin(f[j].ranges[i], corner(f[j].ranges)[i])); }
        assert(bin(f[j], e)); assert(npt(m, e)); assert(bin(n.boundary, e)); assert(rin(n.boundary.ranges[d], e[d]));
    }
}
pub open spec fn cpair(x: (r_tree_Node, Seq<r_tree_Node>), a: IndexSet, b: IndexSet, rk: int) -> bool {
    nwf(x.0, rk) && swfn(x.1, rk) && inrhs(x.0, b) && (forall|p: Seq<int>| npt(x.0, p) && iin(a, p) ==> #[trigger] spt(x.1, p)) && (forall|p: Seq<int>| #[trigger] spt(x.1, p) ==> iin(a, p))
}
pub open spec fn pend(s: Seq<(r_tree_Node, Seq<r_tree_Node>)>, p: Seq<int>) -> bool { exists|k: int| 0 <= k < s.len() && npt((#[trigger] s[k]).0, p) }
pub proof fn lemma_pend_push(s: Seq<(r_tree_Node, Seq<r_tree_Node>)>, x: (r_tree_Node, Seq<r_tree_Node>)) ensures forall|p: Seq<int>| #[trigger] pend(s.push(x), p) == (pend(s, p) || npt(x.0, p))
{
    let t = s.push(x);
    assert forall|p: Seq<int>| #[trigger] pend(t, p) == (pend(s, p) || npt(x.0, p)) by {
        if pend(s, p) { let k = choose|k: int| 0 <= k < s.len() && npt((#[trigger] s[k]).0, p); assert(t[k] == s[k]); }
        if npt(x.0, p) { assert(t[s.len() as int] == x); }
        if pend(t, p) { let k = choose|k: int| 0 <= k < t.len() && npt((#[trigger] t[k]).0, p); if k < s.len() { assert(s[k] == t[k]); } }
    }
}
// heights, used for termination
pub open spec fn ht(n: r_tree_Node) -> int decreases n, 0int { if n.children.len() == 0 { 0 } else { 1 + hts(n.children, n.children.len() as int) } }
pub open spec fn hts(s: Seq<r_tree_Node>, k: int) -> int decreases s, k { if k <= 0 || k > s.len() { 0 } else if ht(s[k - 1]) > hts(s, k - 1) { ht(s[k - 1]) } else { hts(s, k - 1) } }
pub open spec fn hm(s: Seq<r_tree_Node>) -> int { hts(s, s.len() as int) }
pub proof fn lemma_hts(s: Seq<r_tree_Node>, k: int) requires 0 <= k <= s.len() ensures hts(s, k) >= 0, forall|i: int| 0 <= i < k ==> ht(#[trigger] s[i]) <= hts(s, k) decreases k
{ if k > 0 { lemma_hts(s, k - 1); } }
pub proof fn lemma_hts_le(s: Seq<r_tree_Node>, k: int, b: int) requires 0 <= k <= s.len(), b >= 0, forall|i: int| 0 <= i < k ==> ht(#[trigger] s[i]) <= b ensures hts(s, k) <= b decreases k
{ if k > 0 { lemma_hts_le(s, k - 1, b); assert(ht(s[k - 1]) <= b); } }
pub open spec fn wt(s: Seq<(r_tree_Node, Seq<r_tree_Node>)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { wt(s.drop_last()) + cnt(s.last().0) * (hm(s.last().1) + 1) } }
pub proof fn lemma_wt_pos(s: Seq<(r_tree_Node, Seq<r_tree_Node>)>) ensures wt(s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_wt_pos(s.drop_last()); lemma_cnt_pos(s.last().0); lemma_hts(s.last().1, s.last().1.len() as int); lemma_prod_pos(cnt(s.last().0), hm(s.last().1) + 1); } }
pub proof fn lemma_wt_push(s: Seq<(r_tree_Node, Seq<r_tree_Node>)>, x: (r_tree_Node, Seq<r_tree_Node>)) ensures wt(s.push(x)) == wt(s) + cnt(x.0) * (hm(x.1) + 1), wt(s) >= 0, cnt(x.0) * (hm(x.1) + 1) >= 1
{ assert(s.push(x).drop_last() =~= s); lemma_wt_pos(s); lemma_cnt_pos(x.0); lemma_hts(x.1, x.1.len() as int); lemma_prod_pos(cnt(x.0), hm(x.1) + 1); }
pub proof fn lemma_mul_le(c: int, a: int, b: int) requires c >= 0, a <= b ensures c * a <= c * b { assert(c * a <= c * b) by (nonlinear_arith) requires c >= 0, a <= b; }
pub proof fn lemma_spt_sub(s: Seq<r_tree_Node>, k: int, p: Seq<int>) requires 0 <= k < s.len() ensures spt(s.subrange(0, k + 1), p) == (spt(s.subrange(0, k), p) || npt(s[k], p))
{ assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); lemma_spt_push(s.subrange(0, k), s[k]); }
%end

%fn IX::contains(marco::modeling::IndexSet const&) const
%name Ix_contains
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
- forall|k: int| 0 <= k < iflat(this).len() ==> fits((#[trigger] iflat(this)[k]).ranges)
- forall|k: int| 0 <= k < iflat(other).len() ==> fits((#[trigger] iflat(other)[k]).ranges)
- vol(iflat(this)) <= 0xffff_ffff_ffff_ffff && vol(iflat(other)) <= 0xffff_ffff_ffff_ffff
%ens
- ret == isub(other, this)
%entry
let ghost rk = this.allowedRank as int;
if isub(other, this) && this.root is Some && other.root is Some {
  assert forall|p: Seq<int>| #[trigger] anyin(iflat(other), p) implies anyin(iflat(this), p) by { assert(iin(other, p)); }
  lemma_iflat(this); lemma_iflat(other); lemma_allwf(iflat(this), rk); lemma_allwf(iflat(other), rk); lemma_bsum_card(iflat(other), iflat(this));
  assert forall|p: Seq<int>| #[trigger] npt(other.root->0, p) implies npt(this.root->0, p) by { assert(iin(other, p)); assert(iin(this, p)); }
  lemma_sub_boundary(other.root->0, this.root->0, rk);
}
lemma_iflat(this); lemma_iflat(other);
%loop 1
%before
lemma_pend_push(Seq::empty(), (other.root->0, @overlappingNodes[0].1)); lemma_spt_push(Seq::empty(), this.root->0);
assert(@overlappingNodes[0].1 =~= Seq::empty().push(this.root->0));
assert forall|p: Seq<int>| npt(other.root->0, p) && iin(this, p) implies #[trigger] spt(@overlappingNodes[0].1, p) by { assert(npt(this.root->0, p)); }
assert forall|p: Seq<int>| #[trigger] spt(@overlappingNodes[0].1, p) implies iin(this, p) by { assert(!spt(Seq::empty(), p)); assert(npt(this.root->0, p)); }
assert forall|p: Seq<int>| #[trigger] iin(other, p) implies pend(@overlappingNodes, p) by { assert(npt(other.root->0, p)); }
lemma_wt_pos(@overlappingNodes);
%inv
- this.root is Some && other.root is Some && rk == this.allowedRank
- wt(@overlappingNodes) >= 0
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> cpair(#[trigger] @overlappingNodes[k], this, other, rk)
- forall|p: Seq<int>| #[trigger] iin(other, p) && !iin(this, p) ==> pend(@overlappingNodes, p)
%dec
- wt(@overlappingNodes)
%begin
let ghost st0 = @overlappingNodes; let ghost x0 = st0.last();
assert(cpair(x0, this, other, rk)); lemma_pend_push(st0.drop_last(), x0); assert(st0.drop_last().push(x0) =~= st0); lemma_npt_node(x0.0, rk); lemma_wt_push(st0.drop_last(), x0); lemma_hts(x0.1, x0.1.len() as int);
%end
lemma_wt_pos(@overlappingNodes);
assert forall|p: Seq<int>| #[trigger] iin(other, p) && !iin(this, p) implies pend(@overlappingNodes, p) by { assert(pend(st0, p) == (pend(st0.drop_last(), p) || npt(x0.0, p))); assert(npt(x0.0, p) == (opt(x0.0, x0.0.objects.len() as int, p) || cpt(x0.0, x0.0.children.len() as int, p))); }
%after
assert(isub(other, this)) by { assert forall|p: Seq<int>| #[trigger] iin(other, p) implies iin(this, p) by { assert(!pend(@overlappingNodes, p)); } }
%endloop
%loop 2
%inv
- $acc == (exists|k: int| 0 <= k < $i && (#[trigger] x0.1[k]).children.len() > 0)
- $seq == x0.1
%after
if !$acc { assert forall|k: int| 0 <= k < x0.1.len() implies (#[trigger] x0.1[k]).children.len() == 0 by {} } else { let k = choose|k: int| 0 <= k < x0.1.len() && (#[trigger] x0.1[k]).children.len() > 0; lemma_hts(x0.1[k].children, x0.1[k].children.len() as int); assert(ht(x0.1[k]) >= 1); }
%endloop
%loop 3
%inv
- st0.len() > 0 && x0 == st0.last() && @rhs == x0.0 && @overlappingNode == x0 && @overlappingNodes == st0.drop_last() && cpair(x0, this, other, rk) && hm(x0.1) >= 1
- swfn(@newLhsNodes, rk)
- forall|j: int| 0 <= j < @newLhsNodes.len() ==> ht(#[trigger] @newLhsNodes[j]) <= hm(x0.1) - 1
- forall|p: Seq<int>| #[trigger] spt(@newLhsNodes, p) ==> iin(this, p)
- forall|p: Seq<int>| npt(@rhs, p) && spt(x0.1.subrange(0, $i), p) ==> #[trigger] spt(@newLhsNodes, p)
%begin
let ghost nl0 = @newLhsNodes; let ghost li = x0.1[$i];
assert(nwf(li, rk)); lemma_npt_node(li, rk); lemma_spt_push(nl0, li);
assert forall|p: Seq<int>| #[trigger] npt(li, p) implies iin(this, p) by { assert(spt(x0.1, p)); }
lemma_hts(li.children, li.children.len() as int);
%end
assert forall|p: Seq<int>| npt(@rhs, p) && spt(x0.1.subrange(0, $i), p) implies #[trigger] spt(@newLhsNodes, p) by { lemma_spt_sub(x0.1, $i - 1, p); assert(spt(nl0, p) ==> spt(@newLhsNodes, p)); }
%after
assert(x0.1.subrange(0, x0.1.len() as int) =~= x0.1);
lemma_hts_le(@newLhsNodes, @newLhsNodes.len() as int, hm(x0.1) - 1); lemma_wt_push(@overlappingNodes, (@rhs, @newLhsNodes)); lemma_pend_push(@overlappingNodes, (@rhs, @newLhsNodes)); lemma_cnt_pos(@rhs);
lemma_hts(@newLhsNodes, @newLhsNodes.len() as int);
assert(cnt(@rhs) * (hm(@newLhsNodes) + 1) < cnt(@rhs) * (hm(x0.1) + 1)) by (nonlinear_arith) requires cnt(@rhs) >= 1, hm(@newLhsNodes) < hm(x0.1);
%endloop
%loop 4
%inv
- @lhs == li && li.children.len() > 0 && nwf(li, rk) && ht(li) <= hm(x0.1) && hm(x0.1) >= 1
- swfn(@newLhsNodes, rk)
- forall|j: int| 0 <= j < @newLhsNodes.len() ==> ht(#[trigger] @newLhsNodes[j]) <= hm(x0.1) - 1
- forall|p: Seq<int>| #[trigger] spt(nl0, p) ==> spt(@newLhsNodes, p)
- forall|p: Seq<int>| #[trigger] spt(@newLhsNodes, p) ==> spt(nl0, p) || cpt(li, $i, p)
- forall|p: Seq<int>| npt(@rhs, p) && cpt(li, $i, p) ==> #[trigger] spt(@newLhsNodes, p)
%begin
let ghost ch = li.children[$i]; let ghost nl1 = @newLhsNodes;
assert(nwf(ch, rk)); lemma_spt_push(nl1, ch); lemma_npt_in(ch, rk); lemma_npt_in(@rhs, rk); lemma_box_pt(ch.boundary, @rhs.boundary); assert(ht(ch) <= ht(li) - 1);
%end
assert forall|p: Seq<int>| npt(@rhs, p) && cpt(li, $i, p) implies #[trigger] spt(@newLhsNodes, p) by { if cpt(li, $i - 1, p) { assert(spt(nl1, p)); } }
%after
assert forall|p: Seq<int>| #[trigger] spt(@newLhsNodes, p) implies iin(this, p) by { assert(cpt(li, li.children.len() as int, p) ==> npt(li, p)); assert(spt(nl0, p) ==> iin(this, p)); }
%endloop
%loop 5
%inv
- st0.len() > 0 && x0 == st0.last() && @rhs == x0.0 && @overlappingNode == x0 && @overlappingNodes == st0.drop_last() && cpair(x0, this, other, rk) && @rhs.children.len() == 0
- forall|i: int| 0 <= i < x0.1.len() ==> (#[trigger] x0.1[i]).children.len() == 0
- forall|p: Seq<int>| #[trigger] opt(@rhs, $i, p) ==> iin(this, p)
%begin
let ghost ob = @rhs.objects[$i].value;
assert(bwr(ob, rk)); lemma_allbox_push(Seq::empty(), ob, rk);
%end
assert forall|p: Seq<int>| #[trigger] opt(@rhs, $i, p) implies iin(this, p) by { if !opt(@rhs, $i - 1, p) { assert(bin(ob, p)); } }
%endloop
%loop 6
%before
assert forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) == bin(ob, p) by { lemma_anyin_push(Seq::empty(), ob, p); }
%inv
- @overlappingNode == x0 && cpair(x0, this, other, rk)
- allbox(@remainingRanges, rk)
- forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) ==> bin(ob, p) && !spt(x0.1.subrange(0, $i), p)
- forall|p: Seq<int>| #[trigger] bin(ob, p) ==> anyin(@remainingRanges, p) || iin(this, p)
%begin
let ghost ll = x0.1[$i];
assert(nwf(ll, rk)); lemma_npt_node(ll, rk);
assert forall|p: Seq<int>| #[trigger] npt(ll, p) implies iin(this, p) by { assert(spt(x0.1, p)); }
%end
assert forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) implies !spt(x0.1.subrange(0, $i), p) by { lemma_spt_sub(x0.1, $i - 1, p); }
%after
assert(x0.1.subrange(0, x0.1.len() as int) =~= x0.1);
if @remainingRanges.len() > 0 { let b0 = @remainingRanges[0]; assert(bwf(b0)); lemma_corner(b0.ranges); let c = corner(b0.ranges); assert(bin(b0, c)); assert(anyin(@remainingRanges, c)); assert(opt(@rhs, @rhs.objects.len() as int, c)); assert(npt(@rhs, c)); assert(iin(other, c)); assert(!spt(x0.1, c)); assert(!iin(this, c)); }
else { assert forall|p: Seq<int>| #[trigger] bin(ob, p) implies iin(this, p) by { assert(!anyin(@remainingRanges, p)); } }
%endloop
%loop 7
%inv
- @lhs == ll && nwf(ll, rk)
- allbox(@remainingRanges, rk)
- forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) ==> bin(ob, p) && !spt(x0.1.subrange(0, $i_6), p) && !opt(ll, $i, p)
- forall|p: Seq<int>| #[trigger] bin(ob, p) ==> anyin(@remainingRanges, p) || iin(this, p)
%begin
let ghost rr0 = @remainingRanges; let ghost lb = ll.objects[$i].value;
assert(bwr(lb, rk));
assert forall|p: Seq<int>| #[trigger] bin(lb, p) implies iin(this, p) by { assert(opt(ll, ll.objects.len() as int, p)); assert(npt(ll, p)); }
assert(rr0.subrange(0, 0) =~= Seq::<MultidimensionalRange>::empty());
%end
assert forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) implies !opt(ll, $i, p) && bin(ob, p) && !spt(x0.1.subrange(0, $i_6), p) by { assert(anyin(rr0, p)); assert(!bin(lb, p)); }
%endloop
%loop 8
%inv
- @remainingRanges == rr0 && allbox(rr0, rk)
- allbox(@newRemaining, rk)
- forall|p: Seq<int>| #[trigger] anyin(@newRemaining, p) ==> anyin(rr0, p) && !bin(lb, p)
- forall|p: Seq<int>| anyin(rr0.subrange(0, $i), p) && !bin(lb, p) ==> #[trigger] anyin(@newRemaining, p)
%begin
let ghost nr0 = @newRemaining; let ghost rb = rr0[$i];
assert(bwf(rb)); assert(rr0.subrange(0, $i + 1) =~= rr0.subrange(0, $i).push(rb));
%end
assert forall|p: Seq<int>| anyin(rr0.subrange(0, $i), p) && !bin(lb, p) implies #[trigger] anyin(@newRemaining, p) by { lemma_anyin_push(rr0.subrange(0, $i - 1), rb, p); if anyin(rr0.subrange(0, $i - 1), p) { assert(anyin(nr0, p)); } }
%after
assert(rr0.subrange(0, rr0.len() as int) =~= rr0);
%endloop
%loop 9
%inv
- allbox(@newRemaining, rk)
- forall|p: Seq<int>| #[trigger] anyin(@newRemaining, p) ==> anyin(rr0, p) && !bin(lb, p)
- forall|p: Seq<int>| #[trigger] anyin(nr0, p) ==> anyin(@newRemaining, p)
- forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) ==> anyin(@newRemaining, p)
%begin
let ghost nr1 = @newRemaining; let ghost db = $seq[$i];
assert(bwf(db)); assert($seq.subrange(0, $i + 1) =~= $seq.subrange(0, $i).push(db)); lemma_allbox_push(nr1, db, rk);
assert forall|p: Seq<int>| #[trigger] bin(db, p) implies anyin(rr0, p) && !bin(lb, p) by { assert(anyin($seq, p)); assert(bin(rb, p)); }
%end
assert(@newRemaining =~= nr1.push(db));
assert forall|p: Seq<int>| #[trigger] anyin(@newRemaining, p) == (anyin(nr1, p) || bin(db, p)) by { lemma_anyin_push(nr1, db, p); }
assert forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) implies anyin(@newRemaining, p) by { lemma_anyin_push($seq.subrange(0, $i - 1), db, p); }
%after
assert($seq.subrange(0, $seq.len() as int) =~= $seq);
assert forall|p: Seq<int>| bin(rb, p) && !bin(lb, p) implies #[trigger] anyin(@newRemaining, p) by { assert(anyin($seq, p)); }
%endloop
%loop 10
%inv
- st0.len() > 0 && x0 == st0.last() && @rhs == x0.0 && @overlappingNode == x0 && cpair(x0, this, other, rk) && @rhs.children.len() > 0
- forall|k: int| 0 <= k < @overlappingNodes.len() ==> cpair(#[trigger] @overlappingNodes[k], this, other, rk)
- forall|p: Seq<int>| #[trigger] pend(@overlappingNodes, p) == (pend(st0.drop_last(), p) || cpt(@rhs, $i, p))
- wt(@overlappingNodes) <= wt(st0.drop_last()) + cnts(@rhs.children, $i) * (hm(x0.1) + 1)
%begin
let ghost ch = @rhs.children[$i]; let ghost on0 = @overlappingNodes;
assert(nwf(ch, rk)); lemma_npt_in(ch, rk);
assert forall|p: Seq<int>| #[trigger] npt(ch, p) implies npt(@rhs, p) && iin(other, p) by { assert(cpt(@rhs, @rhs.children.len() as int, p)); assert(npt(@rhs, p)); }
lemma_cnts_step(@rhs.children, $i, hm(x0.1) + 1); lemma_cnt_pos(ch); lemma_flat_wf(ch, rk);
%after
lemma_hts(x0.1, x0.1.len() as int);
assert(cnts(@rhs.children, @rhs.children.len() as int) * (hm(x0.1) + 1) < cnt(@rhs) * (hm(x0.1) + 1)) by (nonlinear_arith) requires cnt(@rhs) == 1 + cnts(@rhs.children, @rhs.children.len() as int), hm(x0.1) >= 0;
%endloop
%loop 11
%inv
- @overlappingNode == x0 && ch == @rhs.children[$i_10]
- swfn(@childOverlappingNodes, rk)
- forall|j: int| 0 <= j < @childOverlappingNodes.len() ==> ht(#[trigger] @childOverlappingNodes[j]) <= hm(x0.1)
- forall|p: Seq<int>| #[trigger] spt(@childOverlappingNodes, p) ==> iin(this, p)
- @anyOverlap == (@childOverlappingNodes.len() > 0)
- forall|p: Seq<int>| npt(ch, p) && spt(x0.1.subrange(0, $i), p) ==> #[trigger] spt(@childOverlappingNodes, p)
%begin
let ghost co0 = @childOverlappingNodes; let ghost lx = x0.1[$i];
assert(nwf(lx, rk)); lemma_npt_node(lx, rk); lemma_npt_in(lx, rk); lemma_box_pt(lx.boundary, ch.boundary); lemma_spt_push(co0, lx);
assert forall|p: Seq<int>| #[trigger] npt(lx, p) implies iin(this, p) by { assert(spt(x0.1, p)); }
%end
assert forall|p: Seq<int>| npt(ch, p) && spt(x0.1.subrange(0, $i), p) implies #[trigger] spt(@childOverlappingNodes, p) by { lemma_spt_sub(x0.1, $i - 1, p); assert(spt(co0, p) ==> spt(@childOverlappingNodes, p)); }
%after
assert(x0.1.subrange(0, x0.1.len() as int) =~= x0.1);
assert forall|p: Seq<int>| npt(ch, p) && iin(this, p) implies #[trigger] spt(@childOverlappingNodes, p) by { assert(npt(@rhs, p)); assert(spt(x0.1, p)); }
if @childOverlappingNodes.len() == 0 { let b0 = flat(ch)[0]; assert(bwf(b0)); lemma_corner(b0.ranges); let c = corner(b0.ranges); assert(bin(b0, c)); assert(npt(ch, c)); assert(!spt(@childOverlappingNodes, c)); assert(iin(other, c) && !iin(this, c)); }
lemma_wt_push(on0, (ch, @childOverlappingNodes)); lemma_pend_push(on0, (ch, @childOverlappingNodes)); lemma_hts_le(@childOverlappingNodes, @childOverlappingNodes.len() as int, hm(x0.1)); lemma_mul_le(cnt(ch), hm(@childOverlappingNodes) + 1, hm(x0.1) + 1);
%endloop
%loop 12
%inv
- @lhs == lx && lx.children.len() > 0 && nwf(lx, rk) && ht(lx) <= hm(x0.1)
- swfn(@childOverlappingNodes, rk)
- forall|j: int| 0 <= j < @childOverlappingNodes.len() ==> ht(#[trigger] @childOverlappingNodes[j]) <= hm(x0.1)
- forall|p: Seq<int>| #[trigger] spt(@childOverlappingNodes, p) ==> spt(co0, p) || npt(lx, p)
- forall|p: Seq<int>| #[trigger] spt(co0, p) ==> spt(@childOverlappingNodes, p)
- @anyOverlap == (@childOverlappingNodes.len() > 0)
- forall|p: Seq<int>| npt(ch, p) && cpt(lx, $i, p) ==> #[trigger] spt(@childOverlappingNodes, p)
%begin
let ghost lc = lx.children[$i]; let ghost co1 = @childOverlappingNodes;
assert(nwf(lc, rk)); lemma_npt_in(lc, rk); lemma_box_pt(lc.boundary, ch.boundary); lemma_spt_push(co1, lx);
assert forall|p: Seq<int>| #[trigger] npt(lc, p) implies npt(lx, p) by { assert(cpt(lx, lx.children.len() as int, p)); }
%end
assert forall|p: Seq<int>| npt(ch, p) && cpt(lx, $i, p) implies #[trigger] spt(@childOverlappingNodes, p) by { if cpt(lx, $i - 1, p) { assert(spt(co1, p)); } }
%endloop
%endfn

%fn RT::contains(RTC const&) const
%name Rt_contains_set
%dispatch RT::contains(MR const&) const => IX::contains(MR const&) const
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- ret == isub(other, this)
%entry
let ghost rk = this.allowedRank as int;
lemma_iflat(this); lemma_iflat(other);
%loop 1
%before
lemma_spt_push(Seq::empty(), other.root->0);
assert forall|p: Seq<int>| #[trigger] iin(other, p) == spt(@rhsNodes, p) by { assert(!spt(Seq::empty(), p)); assert(npt(other.root->0, p) == iin(other, p)); }
assert forall|p: Seq<int>| !#[trigger] spt(@rhsLeaves, p) by { }
%inv
- this.root is Some && other.root is Some && rk == this.allowedRank
- swfn(@rhsNodes, rk) && swfn(@rhsLeaves, rk)
- forall|k: int| 0 <= k < @rhsLeaves.len() ==> (#[trigger] @rhsLeaves[k]).children.len() == 0
- forall|p: Seq<int>| #[trigger] iin(other, p) == (spt(@rhsNodes, p) || spt(@rhsLeaves, p))
%dec
- total(@rhsNodes)
%begin
lemma_total_pop(@rhsNodes);
let ghost nodes0 = @rhsNodes; let ghost lv0 = @rhsLeaves; let ghost n0 = nodes0.last();
assert(nwf(n0, rk)); lemma_npt_node(n0, rk); lemma_spt_push(nodes0.drop_last(), n0); assert(nodes0.drop_last().push(n0) =~= nodes0); lemma_spt_push(lv0, n0);
if isub(other, this) {
  assert forall|p: Seq<int>| #[trigger] npt(n0, p) implies npt(this.root->0, p) by { assert(spt(nodes0, p)); assert(iin(other, p)); assert(iin(this, p)); }
  lemma_sub_boundary(n0, this.root->0, rk);
}
%end
lemma_cnts_pos(@rhsNodes, @rhsNodes.len() as int);
assert forall|p: Seq<int>| #[trigger] iin(other, p) == (spt(@rhsNodes, p) || spt(@rhsLeaves, p)) by { assert(spt(nodes0, p) == (spt(nodes0.drop_last(), p) || npt(n0, p))); assert(npt(n0, p) == (opt(n0, n0.objects.len() as int, p) || cpt(n0, n0.children.len() as int, p))); assert(spt(lv0.push(n0), p) == (spt(lv0, p) || npt(n0, p))); }
%endloop
%loop 2
%inv
- nodes0.len() > 0 && @node == n0 && nwf(n0, rk) && n0.children.len() > 0
- total(@rhsNodes) <= total(nodes0.drop_last()) + cnts(n0.children, $i)
- swfn(@rhsNodes, rk)
- forall|p: Seq<int>| #[trigger] spt(@rhsNodes, p) == (spt(nodes0.drop_last(), p) || cpt(n0, $i, p))
%begin
let ghost ch = n0.children[$i]; let ghost nn = @rhsNodes;
assert(nwf(ch, rk)); lemma_total_push(nn, ch); lemma_cnt_pos(ch); lemma_spt_push(nn, ch);
%end
assert forall|p: Seq<int>| #[trigger] spt(@rhsNodes, p) == (spt(nodes0.drop_last(), p) || cpt(n0, $i, p)) by { assert(spt(nn, p) == (spt(nodes0.drop_last(), p) || cpt(n0, $i - 1, p))); if cpt(n0, $i, p) && !cpt(n0, $i - 1, p) { assert(npt(ch, p)); } }
%endloop
%loop 3
%before
let ghost lvs = @rhsLeaves;
assert forall|p: Seq<int>| #[trigger] iin(other, p) == spt(lvs, p) by { assert(!spt(@rhsNodes, p)); }
assert(lvs.subrange(0, lvs.len() as int) =~= lvs);
%inv
- @rhsLeaves == lvs && swfn(lvs, rk) && this.root is Some && rk == this.allowedRank
- forall|p: Seq<int>| #[trigger] spt(lvs.subrange(0, $i), p) ==> iin(this, p)
%begin
let ghost lf = lvs[$i];
assert(nwf(lf, rk)); lemma_npt_node(lf, rk); lemma_spt_sub(lvs, $i, Seq::empty());
assert forall|p: Seq<int>| #[trigger] npt(lf, p) implies iin(other, p) by { assert(spt(lvs, p)); }
%end
assert forall|p: Seq<int>| #[trigger] spt(lvs.subrange(0, $i), p) implies iin(this, p) by { lemma_spt_sub(lvs, $i - 1, p); }
%endloop
%loop 4
%inv
- @node == lf && lf == lvs[$i_3] && nwf(lf, rk) && lf.children.len() == 0
- forall|p: Seq<int>| #[trigger] opt(lf, $i, p) ==> iin(this, p)
%begin
let ghost ob = lf.objects[$i].value;
assert(bwr(ob, rk));
assert forall|p: Seq<int>| #[trigger] bin(ob, p) implies iin(other, p) by { assert(opt(lf, lf.objects.len() as int, p)); assert(npt(lf, p)); }
%end
assert forall|p: Seq<int>| #[trigger] opt(lf, $i, p) implies iin(this, p) by { if !opt(lf, $i - 1, p) { assert(bin(ob, p)); } }
%endloop
%endfn

%fn RT::operator==(RTC const&) const
%name Rt_eq
%req
- iwf(this) && iwf(other)
%ens
- [equality is equality of the sets of points and of the ranks] ret == (this.allowedRank == other.allowedRank && isub(this, other) && isub(other, this))
%endfn

%fn RT::operator!=(RTC const&) const
%name Rt_ne
%req
- iwf(this) && iwf(other)
%ens
- ret == !(this.allowedRank == other.allowedRank && isub(this, other) && isub(other, this))
%endfn

%fn IX::operator==(MR const&) const
%name Ix_eq_box
%req
- iwf(this) && bwf(other)
%ens
- ret == (this.allowedRank == other.ranges.len() && forall|p: Seq<int>| #[trigger] iin(this, p) == bin(other, p))
%aftercall Ix_from_boxes
let ghost tmp = $ret;
assert forall|p: Seq<int>| #[trigger] iin(tmp, p) == bin(other, p) by { lemma_anyin_push(Seq::empty(), other, p); assert(Seq::<MultidimensionalRange>::empty().push(other) =~= $1); }
%exit
assert((isub(this, tmp) && isub(tmp, this)) ==> forall|p: Seq<int>| #[trigger] iin(this, p) == bin(other, p)) by { if isub(this, tmp) && isub(tmp, this) { assert forall|p: Seq<int>| #[trigger] iin(this, p) == bin(other, p) by { assert(iin(tmp, p) == bin(other, p)); } } }
%endfn

%fn IX::operator!=(MR const&) const
%name Ix_ne_box
%req
- iwf(this) && bwf(other)
%ens
- ret == !(this.allowedRank == other.ranges.len() && forall|p: Seq<int>| #[trigger] iin(this, p) == bin(other, p))
%endfn

%fn IX::operator==(marco::modeling::Point const&) const
%name Ix_eq_point
%req
- iwf(this) && other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- ret == (this.allowedRank == other.values.len() && forall|p: Seq<int>| #[trigger] iin(this, p) == (p == other.values))
%aftercall Box_from_point
assert forall|p: Seq<int>| #[trigger] bin($ret, p) == (p == other.values) by { assert(sin($ret.ranges, p) == bin($ret, p)); }
%endfn

%fn IX::operator!=(marco::modeling::Point const&) const
%name Ix_ne_point
%req
- iwf(this) && other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- ret == !(this.allowedRank == other.values.len() && forall|p: Seq<int>| #[trigger] iin(this, p) == (p == other.values))
%endfn
