%abbr RT:: = marco::modeling::r_tree::impl::RTreeCRTP<marco::modeling::IndexSet, marco::modeling::MultidimensionalRange>::
%prelude
// every box of s has a point of x
pub open spec fn alltouch(s: Seq<MultidimensionalRange>, x: IndexSet) -> bool { forall|k: int| 0 <= k < s.len() ==> exists|p: Seq<int>| bin(#[trigger] s[k], p) && iin(x, p) }
pub proof fn lemma_alltouch_push(s: Seq<MultidimensionalRange>, b: MultidimensionalRange, x: IndexSet) requires alltouch(s, x), exists|p: Seq<int>| bin(b, p) && iin(x, p) ensures alltouch(s.push(b), x)
{ let t = s.push(b); assert forall|k: int| 0 <= k < t.len() implies exists|p: Seq<int>| bin(#[trigger] t[k], p) && iin(x, p) by { if k < s.len() { assert(t[k] == s[k]); } } }
pub proof fn lemma_anyin_pop(s: Seq<MultidimensionalRange>, p: Seq<int>) requires s.len() > 0 ensures anyin(s, p) == (bin(s[0], p) || anyin(s.subrange(1, s.len() as int), p))
{ lemma_anyin_concat(seq![s[0]], s.subrange(1, s.len() as int), p); assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int)); assert(anyin(seq![s[0]], p) == bin(s[0], p)) by { if bin(s[0], p) { assert(bin(seq![s[0]][0], p)); } } }
// replacing the first box by its difference with an overlapping box reduces the number of points
pub proof fn lemma_vol_replace(s: Seq<MultidimensionalRange>, d: Seq<MultidimensionalRange>, o: MultidimensionalRange)
    requires s.len() > 0, allwf(s), allwf(d), pdisj(d), bwf(o), o.ranges.len() == s[0].ranges.len(), bov(s[0], o), forall|p: Seq<int>| (sin(s[0].ranges, p) && !sin(o.ranges, p)) <==> anyin(d, p)
    ensures vol((s + d).subrange(1, (s + d).len() as int)) < vol(s)
{
    let r = s.subrange(1, s.len() as int); let h = seq![s[0]]; assert((s + d).subrange(1, (s + d).len() as int) =~= r + d); assert(s =~= h + r);
    lemma_bsum_concat(r, d, d.len() as int); lemma_bsum_concat(h, r, r.len() as int);
    assert forall|p: Seq<int>| #[trigger] anyin(h, p) == bin(s[0], p) by { if bin(s[0], p) { assert(bin(h[0], p)); } }
    lemma_box_pt(s[0], o); let q = choose|p: Seq<int>| bin(s[0], p) && bin(o, p); assert(anyin(h, q) && !anyin(d, q));
    lemma_bsum_card(d, h); reveal_with_fuel(bsum, 2);
}
%end

%fn marco::modeling::IndexSet::complement(marco::modeling::MultidimensionalRange const&) const
%name Ix_complement
%req
- iwf(this) && bwf(other) && (this.root is Some ==> bwr(other, this.allowedRank))
%ens
- iwf(ret)
- [exactly the points of the box outside the set] forall|p: Seq<int>| #[trigger] iin(ret, p) == (bin(other, p) && !iin(this, p))
%entry
let ghost rk = other.ranges.len() as int;
%loop 1
%before
lemma_iflat(this); lemma_allbox_push(Seq::empty(), other, rk);
assert forall|p: Seq<int>| #[trigger] anyin(@currentRanges, p) == bin(other, p) by { lemma_anyin_push(Seq::empty(), other, p); }
%inv
- allbox(@currentRanges, rk) && allbox(@resultRanges, rk)
- $i > 0 ==> alltouch(@currentRanges, this)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@currentRanges, p) ==> bin(other, p) && !anyin(iflat(this).subrange(0, $i), p)
- forall|p: Seq<int>| bin(other, p) && !iin(this, p) ==> #[trigger] anyin(@resultRanges, p) || anyin(@currentRanges, p)
%begin
let ghost c0 = @currentRanges; let ghost r0 = @resultRanges;
assert(bwf(iflat(this)[$i])); assert(iflat(this).subrange(0, $i + 1) =~= iflat(this).subrange(0, $i).push(iflat(this)[$i]));
%after
assert(iflat(this).subrange(0, iflat(this).len() as int) =~= iflat(this));
if @currentRanges.len() > 0 { let p = choose|p: Seq<int>| bin(@currentRanges[0], p) && iin(this, p); assert(anyin(@currentRanges, p)); }
if @resultRanges.len() > 0 { assert(bwf(@resultRanges[0])); }
assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (bin(other, p) && !iin(this, p)) by { assert(!anyin(@currentRanges, p)); }
%endloop
%loop 2
%inv
- c0 == @currentRanges && allbox(@nextRanges, rk) && allbox(@resultRanges, rk) && alltouch(@nextRanges, this)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@nextRanges, p) ==> anyin(c0, p) && !bin(@range, p)
- forall|p: Seq<int>| #[trigger] anyin(r0, p) ==> anyin(@resultRanges, p)
- forall|p: Seq<int>| anyin(c0.subrange(0, $i), p) && !iin(this, p) ==> #[trigger] anyin(@resultRanges, p) || anyin(@nextRanges, p)
%begin
let ghost r1 = @resultRanges; let ghost n1 = @nextRanges; let ghost cb = c0[$i];
assert(bwf(cb)); assert(c0.subrange(0, $i + 1) =~= c0.subrange(0, $i).push(cb));
assert forall|p: Seq<int>| #[trigger] bin(cb, p) implies anyin(c0, p) by {}
%end
assert forall|p: Seq<int>| anyin(c0.subrange(0, $i), p) && !iin(this, p) implies #[trigger] anyin(@resultRanges, p) || anyin(@nextRanges, p) by { lemma_anyin_push(c0.subrange(0, $i - 1), cb, p); assert(anyin(r1, p) ==> anyin(@resultRanges, p)); assert(anyin(n1, p) ==> anyin(@nextRanges, p)); if bin(cb, p) { assert(!bin(@range, p)) by { if bin(@range, p) { assert(anyin(iflat(this), p)); } } } }
%after
assert(c0.subrange(0, c0.len() as int) =~= c0);
assert forall|p: Seq<int>| bin(other, p) && !iin(this, p) implies #[trigger] anyin(@resultRanges, p) || anyin(@nextRanges, p) by { assert(anyin(r0, p) || anyin(c0, p)); assert(anyin(r0, p) ==> anyin(@resultRanges, p)); }
assert forall|p: Seq<int>| #[trigger] anyin(@nextRanges, p) implies bin(other, p) && !anyin(iflat(this).subrange(0, $i_1 + 1), p) by { assert(anyin(c0, p)); lemma_anyin_push(iflat(this).subrange(0, $i_1), iflat(this)[$i_1], p); }
%endloop
%loop 3
%inv
- allbox(@nextRanges, rk) && allbox(@resultRanges, rk) && alltouch(@nextRanges, this)
- forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@nextRanges, p) ==> anyin(c0, p) && !bin(@range, p)
- forall|p: Seq<int>| #[trigger] anyin(r1, p) ==> anyin(@resultRanges, p)
- forall|p: Seq<int>| #[trigger] anyin(n1, p) ==> anyin(@nextRanges, p)
- forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) ==> anyin(@resultRanges, p) || anyin(@nextRanges, p)
%begin
let ghost r2 = @resultRanges; let ghost n2 = @nextRanges; let ghost db = $seq[$i];
assert(bwf(db)); assert($seq.subrange(0, $i + 1) =~= $seq.subrange(0, $i).push(db));
assert forall|p: Seq<int>| #[trigger] bin(db, p) implies bin(cb, p) && !bin(@range, p) by { assert(anyin($seq, p)); }
%end
if @nextRanges.len() > n2.len() { assert(@nextRanges =~= n2.push(db)); lemma_alltouch_push(n2, db, this); lemma_allbox_push(n2, db, rk); assert forall|p: Seq<int>| #[trigger] anyin(@nextRanges, p) == (anyin(n2, p) || bin(db, p)) by { lemma_anyin_push(n2, db, p); } }
else { assert(@resultRanges =~= r2.push(db)); lemma_allbox_push(r2, db, rk); assert forall|p: Seq<int>| #[trigger] anyin(@resultRanges, p) == (anyin(r2, p) || bin(db, p)) by { lemma_anyin_push(r2, db, p); } }
assert forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) implies anyin(@resultRanges, p) || anyin(@nextRanges, p) by { lemma_anyin_push($seq.subrange(0, $i - 1), db, p); assert(anyin($seq.subrange(0, $i - 1), p) ==> anyin(r2, p) || anyin(n2, p)); }
%after
assert($seq.subrange(0, $seq.len() as int) =~= $seq);
assert forall|p: Seq<int>| #[trigger] bin(cb, p) && !bin(@range, p) implies anyin(@resultRanges, p) || anyin(@nextRanges, p) by { assert(anyin($seq, p)); assert(anyin($seq.subrange(0, $seq.len() as int), p)); }
%endloop
%exit
if this.root is None { assert forall|p: Seq<int>| #[trigger] iin(ret, p) == bin(other, p) by { lemma_anyin_push(Seq::empty(), other, p); } }
%endfn

%fn marco::modeling::IndexSet::contains(marco::modeling::Point const&) const
%name Ix_contains_point
%req
- iwf(this) && (this.root is Some ==> other.values.len() == this.allowedRank)
- forall|i: int| 0 <= i < other.values.len() ==> #[trigger] other.values[i] < 0x7fff_ffff_ffff_ffff
%ens
- ret == iin(this, other.values)
%aftercall Box_from_point
assert(sin($ret.ranges, other.values)); assert(bin($ret, other.values)); assert forall|p: Seq<int>| #[trigger] bin($ret, p) implies p == other.values by { assert(sin($ret.ranges, p)); }
%endfn

%fn marco::modeling::IndexSet::contains(marco::modeling::MultidimensionalRange const&) const
%name Ix_contains_box
%req
- iwf(this) && bwf(other) && (this.root is Some ==> bwr(other, this.allowedRank))
%ens
- ret == (forall|p: Seq<int>| #[trigger] bin(other, p) ==> iin(this, p))
%entry
lemma_corner(other.ranges); assert(bin(other, corner(other.ranges)));
%loop 1
%before
lemma_npt_in(this.root->0, this.allowedRank); lemma_allbox_push(Seq::empty(), other, this.allowedRank as int);
assert forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) == bin(other, p) by { lemma_anyin_push(Seq::empty(), other, p); }
%inv
- allbox(@remainingRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) ==> bin(other, p)
- forall|p: Seq<int>| #[trigger] bin(other, p) ==> anyin(@remainingRanges, p) || iin(this, p)
- !@changesDetected ==> @remainingRanges.len() > 0 && forall|p: Seq<int>| #[trigger] bin(@remainingRanges[0], p) ==> !iin(this, p)
%dec
- vol(@remainingRanges)
- (if @changesDetected { 1int } else { 0int })
%begin
let ghost rem0 = @remainingRanges; let ghost front = rem0[0];
lemma_bsum_nonneg(rem0, rem0.len() as int);
assert(bwf(front)); lemma_spt_push(Seq::empty(), this.root->0); lemma_box_pt(this.root->0.boundary, front);
assert forall|p: Seq<int>| bin(front, p) && iin(this, p) implies #[trigger] bin(this.root->0.boundary, p) by { assert(npt(this.root->0, p)); }
%end
assert(@remainingRanges == rem0 || @changesDetected); lemma_bsum_nonneg(@remainingRanges, @remainingRanges.len() as int);
%after
if @remainingRanges.len() > 0 { let c = corner(@remainingRanges[0].ranges); assert(bwf(@remainingRanges[0])); lemma_corner(@remainingRanges[0].ranges); assert(bin(@remainingRanges[0], c)); assert(anyin(@remainingRanges, c)); assert(bin(other, c)); assert(!iin(this, c)); }
else { assert forall|p: Seq<int>| #[trigger] bin(other, p) implies iin(this, p) by { assert(!anyin(@remainingRanges, p)); } }
%endloop
%loop 2
%before
assert forall|p: Seq<int>| #[trigger] spt(@nodes, p) implies iin(this, p) by { assert(!spt(Seq::empty(), p)); assert(npt(this.root->0, p) == iin(this, p)); }
assert forall|p: Seq<int>| bin(front, p) && iin(this, p) implies #[trigger] spt(@nodes, p) by { assert(npt(this.root->0, p)); }
%inv
- rem0.len() > 0 && front == rem0[0]  && bwf(front)
- swfn(@nodes, this.allowedRank)
- !@changesDetected ==> @remainingRanges == rem0 && forall|p: Seq<int>| bin(front, p) && iin(this, p) ==> #[trigger] spt(@nodes, p)
- allbox(@remainingRanges, this.allowedRank as int)
- forall|p: Seq<int>| #[trigger] anyin(@remainingRanges, p) ==> bin(other, p)
- forall|p: Seq<int>| #[trigger] bin(other, p) ==> anyin(@remainingRanges, p) || iin(this, p)
- @changesDetected ==> vol(@remainingRanges) < vol(rem0)
- forall|p: Seq<int>| #[trigger] spt(@nodes, p) ==> iin(this, p)
%dec
- total(@nodes)
%begin
lemma_total_pop(@nodes);
let ghost nodes0 = @nodes;
assert(nwf(nodes0.last(), this.allowedRank)); lemma_spt_pop(nodes0, this.allowedRank);
%after
assert forall|p: Seq<int>| !@changesDetected && #[trigger] bin(front, p) implies !iin(this, p) by { if iin(this, p) { assert(spt(@nodes, p)); assert(@nodes.len() == 0); } }
%endloop
%loop 3
%after
lemma_cnts_pos(@nodes, @nodes.len() as int);
%inv
- total(@nodes) <= total(nodes0.drop_last()) + cnts(@node.children, $i)
- nodes0.len() > 0 && @node == nodes0.last() && nwf(@node, this.allowedRank)
- swfn(@nodes, this.allowedRank)
- forall|p: Seq<int>| #[trigger] spt(@nodes, p) ==> spt(nodes0, p)
- forall|p: Seq<int>| bin(front, p) ==> #[trigger] spt(@nodes, p) == (spt(nodes0.drop_last(), p) || cpt(@node, $i, p))
%begin
assert(nwf(@node.children[$i], this.allowedRank)); lemma_total_push(@nodes, @node.children[$i]); lemma_cnt_pos(@node.children[$i]);
lemma_spt_push(@nodes, @node.children[$i]); lemma_npt_in(@node.children[$i], this.allowedRank); lemma_box_pt(@node.children[$i].boundary, front);
%endloop
%loop 4
%end
assert forall|p: Seq<int>| bin(front, p) implies !#[trigger] opt(@node, $i, p) by { if opt(@node, $i, p) { assert(!opt(@node, $i - 1, p)); assert(bin(@node.objects[$i - 1].value, p)); } }
%inv
- !@changesDetected && @remainingRanges == rem0 && nwf(@node, this.allowedRank)  && bwf(front) && rem0.len() > 0 && front == rem0[0]
- forall|p: Seq<int>| bin(front, p) ==> !#[trigger] opt(@node, $i, p)
%begin
let ghost ob = @node.objects[$i].value;
lemma_box_pt(front, ob);
%after
assert forall|p: Seq<int>| !@changesDetected && bin(front, p) && iin(this, p) implies #[trigger] spt(@nodes, p) by { assert(spt(nodes0, p)); }
%endloop
%loop 5
%inv
- @remainingRanges == rem0 + $seq.subrange(0, $i)
%after
let ghost sub = $seq;
assert(sub.subrange(0, sub.len() as int) =~= sub); assert(allbox(sub, this.allowedRank as int));
let ghost big = rem0 + sub;
lemma_allbox_concat(rem0, sub, this.allowedRank as int);
let ghost rest = big.subrange(1, big.len() as int);
assert forall|k: int| 0 <= k < rest.len() implies bwf(#[trigger] rest[k]) && rest[k].ranges.len() == this.allowedRank by { assert(rest[k] == big[k + 1]); }
assert forall|p: Seq<int>| #[trigger] anyin(rest, p) implies bin(other, p) by { lemma_anyin_pop(big, p); lemma_anyin_concat(rem0, sub, p); assert(anyin(rem0, p) ==> bin(other, p)); if anyin(sub, p) { assert(bin(front, p)); assert(anyin(rem0, p)); } }
lemma_vol_replace(rem0, sub, ob); assert(vol(rest) < vol(rem0));
assert forall|p: Seq<int>| #[trigger] bin(other, p) implies anyin(rest, p) || iin(this, p) by { lemma_anyin_pop(big, p); lemma_anyin_concat(rem0, sub, p); lemma_anyin_concat(rem0.subrange(1, rem0.len() as int), sub, p); assert(rest =~= rem0.subrange(1, rem0.len() as int) + sub); lemma_anyin_pop(rem0, p); if bin(front, p) && bin(ob, p) { assert(bin(@node.objects[$i_4].value, p)); assert(opt(@node, @node.objects.len() as int, p)); assert(spt(nodes0, p)); } }
%endloop
%exit
%endfn

%fn marco::modeling::IndexSet::size() const
%name Ix_size
%req
- iwf(this) && (forall|k: int| 0 <= k < iflat(this).len() ==> fits((#[trigger] iflat(this)[k]).ranges)) && vol(iflat(this)) <= 0xffff_ffff_ffff_ffff
%ens
- [the number of points] ret == allpts(iflat(this), iflat(this).len() as int).len()
- allpts(iflat(this), iflat(this).len() as int).no_duplicates() && (forall|p: Seq<int>| #[trigger] allpts(iflat(this), iflat(this).len() as int).contains(p) == iin(this, p))
- ret == vol(iflat(this))
%loop 1
%before
lemma_iflat(this); assert(iflat(this).subrange(0, iflat(this).len() as int) =~= iflat(this)); lemma_allpts(iflat(this), iflat(this).len() as int);
%inv
- @result == bsum(iflat(this), $i)
%begin
lemma_bsum_from(iflat(this), $i + 1, iflat(this).len() as int); assert(bwf(iflat(this)[$i])); lemma_bsum_nonneg(iflat(this), $i); assert(fits(iflat(this)[$i].ranges));
%endloop
%endfn

%prelude
pub proof fn lemma_bsum_from(f: Seq<MultidimensionalRange>, m: int, n: int) requires allwf(f), 0 <= m <= n <= f.len() ensures bsum(f, m) <= bsum(f, n) decreases n - m { if m < n { lemma_bsum_from(f, m, n - 1); assert(bwf(f[n - 1])); lemma_bsz_pos(f[n - 1].ranges, f[n - 1].ranges.len() as int); } }
%end

%fn RT::insert(marco::modeling::MultidimensionalRange)
%name Rt_insert
%trusted placement of a box in the tree (choice of the leaf, splitting, merging of neighbouring boxes; mutable Node and parent pointers)
%req
- 1 < this.maxElements && 1 <= this.minElements && this.minElements * 2 <= this.maxElements && iwf(this) && bwf(obj) && (this.initialized ==> obj.ranges.len() == this.allowedRank)
- [the box is disjoint from the stored ones] forall|p: Seq<int>| #[trigger] bin(obj, p) ==> !iin(this, p)
%ens
- iwf(post_this) && post_this.initialized && post_this.root is Some && post_this.allowedRank == obj.ranges.len() && post_this.minElements == this.minElements && post_this.maxElements == this.maxElements
- forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || bin(obj, p))
%endfn

%fn marco::modeling::IndexSet::insert(marco::modeling::MultidimensionalRange)
%name Ix_insert_box
%req
- iwf(this) && bwf(other) && (this.initialized ==> other.ranges.len() == this.allowedRank)
%ens
- iwf(post_this) && post_this.initialized && post_this.allowedRank == other.ranges.len()
- [exactly the union] forall|p: Seq<int>| #[trigger] iin(post_this, p) == (iin(this, p) || bin(other, p))
%entry
let ghost rk = other.ranges.len() as int;
lemma_corner(other.ranges); assert(bin(other, corner(other.ranges)));
let ghost empty = Seq::<MultidimensionalRange>::empty();
assert forall|p: Seq<int>| #[trigger] anyin(empty.push(other), p) == bin(other, p) by { lemma_anyin_push(empty, other, p); }
lemma_allbox_push(empty, other, rk); lemma_pdisj_push(empty, other);
%loop 1
%before
lemma_iflat(this);
%inv
- allbox(@current, rk) && allbox(@nonOverlappingRanges, rk) && pdisj(@nonOverlappingRanges) && pdisj(@current)
- $i > 0 ==> alltouch(@current, this)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@current, p) ==> bin(other, p) && !anyin(iflat(this).subrange(0, $i), p) && !anyin(@nonOverlappingRanges, p)
- forall|p: Seq<int>| bin(other, p) && !iin(this, p) ==> #[trigger] anyin(@nonOverlappingRanges, p) || anyin(@current, p)
%begin
let ghost c0 = @current;
let ghost r0 = @nonOverlappingRanges;
assert(bwf(iflat(this)[$i])); assert(iflat(this).subrange(0, $i + 1) =~= iflat(this).subrange(0, $i).push(iflat(this)[$i]));
%after
assert(iflat(this).subrange(0, iflat(this).len() as int) =~= iflat(this));
if @current.len() > 0 { let p = choose|p: Seq<int>| bin(@current[0], p) && iin(this, p); assert(anyin(@current, p)); }
assert forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) == (bin(other, p) && !iin(this, p)) by { assert(!anyin(@current, p)); }
%endloop
%loop 2
%inv
- c0 == @current && allbox(@next, rk) && allbox(@nonOverlappingRanges, rk) && alltouch(@next, this) && pdisj(@next) && pdisj(@nonOverlappingRanges)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@next, p) ==> anyin(c0.subrange(0, $i), p) && anyin(c0, p) && !bin(@range, p) && !anyin(@nonOverlappingRanges, p)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) ==> anyin(r0, p) || anyin(c0.subrange(0, $i), p)
- forall|p: Seq<int>| #[trigger] anyin(r0, p) ==> anyin(@nonOverlappingRanges, p)
- forall|p: Seq<int>| anyin(c0.subrange(0, $i), p) && !iin(this, p) ==> #[trigger] anyin(@nonOverlappingRanges, p) || anyin(@next, p)
%begin
let ghost r1 = @nonOverlappingRanges;
let ghost n1 = @next;
let ghost cb = c0[$i];
assert(bwf(cb)); assert(c0.subrange(0, $i + 1) =~= c0.subrange(0, $i).push(cb));
assert forall|p: Seq<int>| #[trigger] bin(cb, p) implies anyin(c0, p) && !anyin(c0.subrange(0, $i), p) by { if anyin(c0.subrange(0, $i), p) { lemma_pdisj_prefix(c0, $i, p); } }
%end
assert forall|p: Seq<int>| #[trigger] anyin(c0.subrange(0, $i), p) == (anyin(c0.subrange(0, $i - 1), p) || bin(cb, p)) by { lemma_anyin_push(c0.subrange(0, $i - 1), cb, p); }
assert forall|p: Seq<int>| anyin(c0.subrange(0, $i), p) && !iin(this, p) implies #[trigger] anyin(@nonOverlappingRanges, p) || anyin(@next, p) by { assert(anyin(r1, p) ==> anyin(@nonOverlappingRanges, p)); assert(anyin(n1, p) ==> anyin(@next, p)); if bin(cb, p) { assert(!bin(@range, p)) by { if bin(@range, p) { assert(anyin(iflat(this), p)); } } } }
%after
assert(c0.subrange(0, c0.len() as int) =~= c0);
assert forall|p: Seq<int>| bin(other, p) && !iin(this, p) implies #[trigger] anyin(@nonOverlappingRanges, p) || anyin(@next, p) by { assert(anyin(r0, p) || anyin(c0, p)); assert(anyin(r0, p) ==> anyin(@nonOverlappingRanges, p)); }
assert forall|p: Seq<int>| #[trigger] anyin(@next, p) implies bin(other, p) && !anyin(iflat(this).subrange(0, $i_1 + 1), p) by { assert(anyin(c0, p)); lemma_anyin_push(iflat(this).subrange(0, $i_1), iflat(this)[$i_1], p); }
%endloop
%loop 3
%inv
- allbox(@next, rk) && allbox(@nonOverlappingRanges, rk) && alltouch(@next, this) && pdisj(@next) && pdisj(@nonOverlappingRanges)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) ==> bin(other, p) && !iin(this, p)
- forall|p: Seq<int>| #[trigger] anyin(@next, p) ==> anyin(n1, p) || anyin($seq.subrange(0, $i), p)
- forall|p: Seq<int>| #[trigger] anyin(@next, p) ==> !anyin(@nonOverlappingRanges, p)
- forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) ==> anyin(r1, p) || anyin($seq.subrange(0, $i), p)
- forall|p: Seq<int>| #[trigger] anyin(r1, p) ==> anyin(@nonOverlappingRanges, p)
- forall|p: Seq<int>| #[trigger] anyin(n1, p) ==> anyin(@next, p)
- forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) ==> anyin(@nonOverlappingRanges, p) || anyin(@next, p)
%begin
let ghost r2 = @nonOverlappingRanges;
let ghost n2 = @next;
let ghost db = $seq[$i];
assert(bwf(db)); assert($seq.subrange(0, $i + 1) =~= $seq.subrange(0, $i).push(db));
assert forall|p: Seq<int>| #[trigger] bin(db, p) implies bin(cb, p) && !bin(@range, p) by { assert(anyin($seq, p)); }
assert forall|p: Seq<int>| #[trigger] bin(db, p) implies !anyin($seq.subrange(0, $i), p) by { if anyin($seq.subrange(0, $i), p) { lemma_pdisj_prefix($seq, $i, p); } }
assert forall|p: Seq<int>| #[trigger] bin(db, p) implies !anyin(n2, p) && !anyin(r2, p) by {
  assert(bin(cb, p)); assert(anyin(c0, p) && !anyin(c0.subrange(0, $i_2), p)); if anyin(n1, p) { assert(anyin(c0.subrange(0, $i_2), p)); } if anyin(r1, p) { assert(anyin(r0, p)); }
}
%end
if @next.len() > n2.len() { assert(@next =~= n2.push(db)); lemma_alltouch_push(n2, db, this); lemma_allbox_push(n2, db, rk); lemma_pdisj_push(n2, db); assert forall|p: Seq<int>| #[trigger] anyin(@next, p) == (anyin(n2, p) || bin(db, p)) by { lemma_anyin_push(n2, db, p); } }
else { assert(@nonOverlappingRanges =~= r2.push(db)); lemma_allbox_push(r2, db, rk); lemma_pdisj_push(r2, db); assert forall|p: Seq<int>| #[trigger] anyin(@nonOverlappingRanges, p) == (anyin(r2, p) || bin(db, p)) by { lemma_anyin_push(r2, db, p); } }
assert forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) == (anyin($seq.subrange(0, $i - 1), p) || bin(db, p)) by { lemma_anyin_push($seq.subrange(0, $i - 1), db, p); }
assert forall|p: Seq<int>| #[trigger] anyin($seq.subrange(0, $i), p) implies anyin(@nonOverlappingRanges, p) || anyin(@next, p) by { assert(anyin($seq.subrange(0, $i - 1), p) ==> anyin(r2, p) || anyin(n2, p)); }
%after
assert($seq.subrange(0, $seq.len() as int) =~= $seq);
assert forall|p: Seq<int>| #[trigger] anyin($seq, p) implies anyin(@nonOverlappingRanges, p) || anyin(@next, p) by { assert(anyin($seq.subrange(0, $seq.len() as int), p)); }
assert forall|p: Seq<int>| #[trigger] bin(cb, p) && !bin(@range, p) implies anyin(@nonOverlappingRanges, p) || anyin(@next, p) by { assert(anyin($seq, p)); }
%endloop
%loop 4
%before
let ghost add = @nonOverlappingRanges;
assert forall|p: Seq<int>| #[trigger] anyin(add, p) == (bin(other, p) && !iin(old_this, p)) by { if old_this.root is None { } }
%inv
- @nonOverlappingRanges == add
- iwf(this) && this.minElements == old_this.minElements && this.maxElements == old_this.maxElements && (this.initialized ==> this.allowedRank == rk) && ($i > 0 || old_this.root is Some ==> this.root is Some && this.initialized)
- forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) || anyin(add.subrange(0, $i), p))
%begin
let ghost t0 = this;
assert(bwf(add[$i])); assert(add.subrange(0, $i + 1) =~= add.subrange(0, $i).push(add[$i]));
assert forall|p: Seq<int>| #[trigger] bin(add[$i], p) implies !iin(this, p) by { assert(anyin(add, p)); if anyin(add.subrange(0, $i), p) { lemma_pdisj_prefix(add, $i, p); } }
%end
assert forall|p: Seq<int>| #[trigger] iin(this, p) == (iin(old_this, p) || anyin(add.subrange(0, $i), p)) by { lemma_anyin_push(add.subrange(0, $i - 1), add[$i - 1], p); assert(iin(t0, p) == (iin(old_this, p) || anyin(add.subrange(0, $i - 1), p))); }
%after
assert(add.subrange(0, add.len() as int) =~= add);
assert(iin(this, corner(other.ranges)) == (iin(old_this, corner(other.ranges)) || anyin(add, corner(other.ranges)))); assert(iin(old_this, corner(other.ranges)) ==> old_this.root is Some);
%endloop
%endfn
