%abbr RT:: = marco::modeling::r_tree::impl::RTreeCRTP<marco::modeling::IndexSet, marco::modeling::MultidimensionalRange>::
%abbr IX:: = marco::modeling::IndexSet::
%abbr MR = marco::modeling::MultidimensionalRange
// ---- additions
%fn RT::insert(marco::modeling::IndexSet const&)
%name Rt_insert_set
%dispatch RT::insert(MR) => IX::insert(MR)
%req
- iwf(this) && iwf(other) && (this.initialized && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(post_this) && (this.initialized ==> post_this.initialized && post_this.allowedRank == this.allowedRank) && (other.root is Some ==> post_this.initialized && post_this.allowedRank == other.allowedRank) && (other.root is None ==> post_this == this)
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || iin(other, p))
%entry
lemma_iflat(other);
assert(iflat(other).subrange(0, iflat(other).len() as int) =~= iflat(other));
assert(iflat(other).subrange(0, 0) =~= Seq::<MultidimensionalRange>::empty());
%loop 1
%inv
- iwf(this) && ($i == 0 ==> this == old_this) && (old_this.initialized ==> this.initialized && this.allowedRank == old_this.allowedRank) && ($i > 0 ==> this.initialized && this.allowedRank == other.allowedRank)
- forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) || anyin(iflat(other).subrange(0, $i), p))
%begin
let ghost t0 = this; let ghost f0 = iflat(other); let ghost bx = f0[$i];
assert(bwf(f0[$i]));
%end
assert(f0.subrange(0, $i) =~= f0.subrange(0, $i - 1).push(bx));
assert forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) || anyin(f0.subrange(0, $i), p)) by { lemma_anyin_push(f0.subrange(0, $i - 1), bx, p); assert(iin(t0, p) == (iin(old_this, p) || anyin(f0.subrange(0, $i - 1), p))); }
%endloop
%endfn

%fn IX::operator+=(marco::modeling::Point)
%name Ix_add_point
%req
- iwf(this) && (this.initialized ==> other.values.len() == this.allowedRank)
- other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- iwf(post_this) && post_this.initialized && post_this.allowedRank == other.values.len()
- [the point is added] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || p == other.values)
%aftercall Box_from_point
assert forall|p: Seq<int>| #[trigger] bin($ret, p) == (p == other.values) by { assert(sin($ret.ranges, p) == bin($ret, p)); }
%endfn

%fn IX::operator+=(MR)
%name Ix_add_box
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(post_this) && post_this.initialized && post_this.allowedRank == other.ranges.len()
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || bin(other, p))
%endfn

%fn IX::operator+=(marco::modeling::IndexSet const&)
%name Ix_add
%req
- iwf(this) && iwf(other) && (this.initialized && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(post_this) && (this.initialized ==> post_this.initialized && post_this.allowedRank == this.allowedRank) && (other.root is Some ==> post_this.initialized && post_this.allowedRank == other.allowedRank) && (other.root is None ==> post_this == this)
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || iin(other, p))
%endfn

%fn IX::operator+(marco::modeling::Point) const
%name Ix_plus_point
%req
- iwf(this) && (this.initialized ==> other.values.len() == this.allowedRank)
- other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- iwf(ret) && ret.initialized && ret.allowedRank == other.values.len()
- [the point is added] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) || p == other.values)
%endfn

%fn IX::operator+(MR) const
%name Ix_plus_box
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(ret) && ret.initialized && ret.allowedRank == other.ranges.len()
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) || bin(other, p))
%endfn

%fn IX::operator+(marco::modeling::IndexSet const&) const
%name Ix_plus
%req
- iwf(this) && iwf(other) && (this.initialized && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(ret) && (this.initialized ==> ret.initialized && ret.allowedRank == this.allowedRank) && (other.root is Some ==> ret.initialized && ret.allowedRank == other.allowedRank)
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) || iin(other, p))
%endfn

// ---- removals
%fn IX::remove(MR const&)
%name Ix_remove_box
%trusted in-place rewriting of the leaves found by findLeaf, through pointers into the tree, followed by splitting and collapsing of nodes
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(post_this) && post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
- forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) && !bin(other, p))
%endfn

%fn RT::remove(marco::modeling::IndexSet const&)
%name Rt_remove_set
%dispatch RT::remove(MR const&) => IX::remove(MR const&)
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(post_this) && post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
- [exactly the difference] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) && !iin(other, p))
%entry
let ghost rk = this.allowedRank as int;
%loop 1
%before
lemma_npt_in(this.root->0, rk); lemma_npt_in(other.root->0, rk); lemma_ppt_push(Seq::empty(), this.root->0, other.root->0); lemma_ptotal_pos(Seq::<(r_tree_Node, r_tree_Node)>::empty()); lemma_box_pt(this.root->0.boundary, other.root->0.boundary);
assert forall|p: Seq<int>| iin(this, p) && iin(other, p) implies #[trigger] ppt(@overlappingNodePairs, p) by { assert(npt(this.root->0, p) == iin(this, p)); assert(npt(other.root->0, p) == iin(other, p)); assert(!ppt(Seq::empty(), p)); }
assert forall|p: Seq<int>| #[trigger] ppt(@overlappingNodePairs, p) implies iin(this, p) && iin(other, p) by { assert(npt(this.root->0, p) == iin(this, p)); assert(npt(other.root->0, p) == iin(other, p)); assert(!ppt(Seq::empty(), p)); }
%inv
- this == old_this && this.root is Some && other.root is Some && rk == this.allowedRank
- forall|k: int| 0 <= k < @overlappingNodePairs.len() ==> inrhs((#[trigger] @overlappingNodePairs[k]).1, other) && nwf(@overlappingNodePairs[k].0, rk) && nwf(@overlappingNodePairs[k].1, rk)
- allbox(@overlappingObjects, rk)
- forall|p: Seq<int>| #[trigger] anyin(@overlappingObjects, p) ==> iin(other, p)
- forall|p: Seq<int>| iin(this, p) && iin(other, p) ==> #[trigger] anyin(@overlappingObjects, p) || ppt(@overlappingNodePairs, p)
%dec
- ptotal(@overlappingNodePairs)
%begin
let ghost nodes0 = @overlappingNodePairs; let ghost n0 = nodes0.last(); let ghost ov0 = @overlappingObjects;
assert(nwf(nodes0.last().0, rk) && nwf(nodes0.last().1, rk) && inrhs(n0.1, other));
lemma_ptotal_pop(nodes0); lemma_ppt_pop(nodes0);
lemma_npt_node(nodes0.last().0, rk); lemma_npt_node(nodes0.last().1, rk);
%end
lemma_ptotal_pos(@overlappingNodePairs);
assert forall|p: Seq<int>| iin(this, p) && iin(other, p) implies #[trigger] anyin(@overlappingObjects, p) || ppt(@overlappingNodePairs, p) by { assert(anyin(ov0, p) || ppt(nodes0, p)); assert(anyin(ov0, p) ==> anyin(@overlappingObjects, p)); assert(ppt(nodes0, p) == (ppt(nodes0.drop_last(), p) || (npt(n0.0, p) && npt(n0.1, p)))); assert(npt(n0.0, p) == (opt(n0.0, n0.0.objects.len() as int, p) || cpt(n0.0, n0.0.children.len() as int, p))); assert(npt(n0.1, p) == (opt(n0.1, n0.1.objects.len() as int, p) || cpt(n0.1, n0.1.children.len() as int, p))); }
%endloop
%loop 2
%inv
- nodes0.len() > 0 && @lhs == n0.0 && @rhs == n0.1 && nwf(@lhs, rk) && nwf(@rhs, rk) && inrhs(@rhs, other) && @overlappingNodePairs == nodes0.drop_last()
- allbox(@overlappingObjects, rk)
- forall|p: Seq<int>| #[trigger] anyin(ov0, p) ==> anyin(@overlappingObjects, p)
- forall|p: Seq<int>| #[trigger] anyin(@overlappingObjects, p) ==> iin(other, p)
- forall|p: Seq<int>| opt(@lhs, $i, p) && opt(@rhs, @rhs.objects.len() as int, p) ==> #[trigger] anyin(@overlappingObjects, p)
%begin
let ghost ov1 = @overlappingObjects; let ghost lo = @lhs.objects[$i].value;
%end
assert forall|p: Seq<int>| opt(@lhs, $i, p) && opt(@rhs, @rhs.objects.len() as int, p) implies #[trigger] anyin(@overlappingObjects, p) by { if opt(@lhs, $i - 1, p) { assert(anyin(ov1, p)); } }
%endloop
%loop 3
%inv
- lo == @lhs.objects[$i_2].value && bwr(lo, rk)
- allbox(@overlappingObjects, rk)
- forall|p: Seq<int>| #[trigger] anyin(ov1, p) ==> anyin(@overlappingObjects, p)
- forall|p: Seq<int>| #[trigger] anyin(@overlappingObjects, p) ==> iin(other, p)
- forall|p: Seq<int>| bin(lo, p) && opt(@rhs, $i, p) ==> #[trigger] anyin(@overlappingObjects, p)
%begin
let ghost ov2 = @overlappingObjects; let ghost ro = @rhs.objects[$i].value;
assert(nwf(@rhs, rk) && nwf(@lhs, rk) && bwr(ro, rk) && bwr(lo, rk)); lemma_box_pt(lo, ro);
assert forall|p: Seq<int>| #[trigger] bin(ro, p) implies iin(other, p) by { assert(opt(@rhs, @rhs.objects.len() as int, p)); assert(npt(@rhs, p)); }
%end
assert(@overlappingObjects == ov2 || @overlappingObjects =~= ov2.push(ro));
if @overlappingObjects.len() > ov2.len() { lemma_allbox_push(ov2, ro, rk); assert forall|p: Seq<int>| #[trigger] anyin(@overlappingObjects, p) == (anyin(ov2, p) || bin(ro, p)) by { lemma_anyin_push(ov2, ro, p); } }
assert forall|p: Seq<int>| bin(lo, p) && opt(@rhs, $i, p) implies #[trigger] anyin(@overlappingObjects, p) by { if opt(@rhs, $i - 1, p) { assert(anyin(ov2, p)); } else { assert(bin(ro, p)); } }
%endloop
%loop 4
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodePairs) <= ptotal(nodes0.drop_last()) + cnt(@lhs) * cnts(@rhs.children, $i)
- forall|k: int| 0 <= k < @overlappingNodePairs.len() ==> inrhs((#[trigger] @overlappingNodePairs[k]).1, other) && nwf(@overlappingNodePairs[k].0, rk) && nwf(@overlappingNodePairs[k].1, rk)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodePairs, p) == (ppt(nodes0.drop_last(), p) || (npt(@lhs, p) && cpt(@rhs, $i, p)))
%begin
let ghost ch = @rhs.children[$i];
assert(nwf(ch, rk)); lemma_ptotal_push(@overlappingNodePairs, @lhs, ch); lemma_ppt_push(@overlappingNodePairs, @lhs, ch); lemma_npt_in(ch, rk); lemma_npt_in(@lhs, rk); lemma_cnt_pos(@lhs); lemma_cnts_step(@rhs.children, $i, cnt(@lhs)); lemma_box_pt(ch.boundary, @lhs.boundary);
assert forall|p: Seq<int>| #[trigger] npt(ch, p) implies iin(other, p) by { assert(cpt(@rhs, @rhs.children.len() as int, p)); assert(npt(@rhs, p)); }
%endloop
%loop 5
%inv
- nodes0.len() > 0 && n0 == nodes0.last() && @lhs == n0.0 && @rhs == n0.1
- ptotal(@overlappingNodePairs) <= ptotal(nodes0.drop_last()) + cnts(@lhs.children, $i) * cnt(@rhs)
- forall|k: int| 0 <= k < @overlappingNodePairs.len() ==> inrhs((#[trigger] @overlappingNodePairs[k]).1, other) && nwf(@overlappingNodePairs[k].0, rk) && nwf(@overlappingNodePairs[k].1, rk)
- forall|p: Seq<int>| #[trigger] ppt(@overlappingNodePairs, p) == (ppt(nodes0.drop_last(), p) || (cpt(@lhs, $i, p) && npt(@rhs, p)))
%begin
let ghost ch = @lhs.children[$i];
assert(nwf(ch, rk)); lemma_ptotal_push(@overlappingNodePairs, ch, @rhs); lemma_ppt_push(@overlappingNodePairs, ch, @rhs); lemma_npt_in(ch, rk); lemma_npt_in(@rhs, rk); lemma_cnt_pos(@rhs); lemma_cnts_step(@lhs.children, $i, cnt(@rhs)); lemma_box_pt(ch.boundary, @rhs.boundary);
%endloop
%loop 6
%before
let ghost rem = @overlappingObjects;
assert(rem.subrange(0, rem.len() as int) =~= rem); assert(rem.subrange(0, 0) =~= Seq::<MultidimensionalRange>::empty());
assert forall|p: Seq<int>| iin(old_this, p) && iin(other, p) implies #[trigger] anyin(rem, p) by { assert(!ppt(@overlappingNodePairs, p)); }
%inv
- @overlappingObjects == rem && iwf(this) && this.initialized == old_this.initialized && this.allowedRank == old_this.allowedRank
- forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) && !anyin(rem.subrange(0, $i), p))
%begin
let ghost t0 = this; let ghost rb = rem[$i];
assert(bwf(rb));
%end
assert(rem.subrange(0, $i) =~= rem.subrange(0, $i - 1).push(rb));
assert forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) && !anyin(rem.subrange(0, $i), p)) by { lemma_anyin_push(rem.subrange(0, $i - 1), rb, p); assert(iin(t0, p) == (iin(old_this, p) && !anyin(rem.subrange(0, $i - 1), p))); }
%endloop
%endfn

%prelude
pub open spec fn inrhs(n: r_tree_Node, x: IndexSet) -> bool { forall|p: Seq<int>| #[trigger] npt(n, p) ==> iin(x, p) }
%end

%fn IX::operator-=(marco::modeling::Point const&)
%name Ix_sub_point
%req
- iwf(this) && (this.initialized ==> other.values.len() == this.allowedRank)
- other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- iwf(post_this) && post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
- [the point is removed] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) && p != other.values)
%aftercall Box_from_point
assert forall|p: Seq<int>| #[trigger] bin($ret, p) == (p == other.values) by { assert(sin($ret.ranges, p) == bin($ret, p)); }
%endfn

%fn IX::operator-=(MR const&)
%name Ix_sub_box
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(post_this) && post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
- [exactly the difference] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) && !bin(other, p))
%endfn

%fn IX::operator-=(marco::modeling::IndexSet const&)
%name Ix_sub
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(post_this) && post_this.initialized == this.initialized && post_this.allowedRank == this.allowedRank
- [exactly the difference] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) && !iin(other, p))
%endfn

%fn IX::operator-(marco::modeling::Point const&) const
%name Ix_minus_point
%req
- iwf(this) && (this.initialized ==> other.values.len() == this.allowedRank)
- other.values.len() > 0
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- iwf(ret) && ret.initialized == this.initialized && ret.allowedRank == this.allowedRank
- [the point is removed] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) && p != other.values)
%endfn

%fn IX::operator-(MR const&) const
%name Ix_minus_box
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(ret) && ret.initialized == this.initialized && ret.allowedRank == this.allowedRank
- [exactly the difference] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) && !bin(other, p))
%endfn

%fn IX::operator-(marco::modeling::IndexSet const&) const
%name Ix_minus
%req
- iwf(this) && iwf(other) && (this.root is Some && other.root is Some ==> this.allowedRank == other.allowedRank)
%ens
- iwf(ret) && ret.initialized == this.initialized && ret.allowedRank == this.allowedRank
- [exactly the difference] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(this, p) && !iin(other, p))
%endfn
