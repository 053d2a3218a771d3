%ghosttype AccessFunction = AFn
%merge MCIMGroup = MCIMGroupGeneric
%extfn map AFn/2:Point = afx_map_point
%extfn map AFn/2:IndexSet = afx_map_set
%extfn inverseMap AFn = afx_inverse
%extfn operator== AFn = afx_eq
%extfn clone AFn = afx_clone
%abbr MG:: = marco::modeling::MCIMGroup::
%abbr GG:: = marco::modeling::MCIMGroupGeneric::
%abbr GA:: = marco::modeling::MCIMGroupAffineConstant::
%abbr MC:: = marco::modeling::internal::MCIM::
%abbr PT = marco::modeling::Point
%abbr IX = marco::modeling::IndexSet
%iterview IndexSet = ipts($x) : marco::modeling::Point
%dispatch MG::empty() const => GG::empty() const
%dispatch MG::getKeys() const => GG::getKeys() const
%dispatch MG::hasKey(PT const&) const => GG::hasKey(PT const&) const
%dispatch MG::setKeys(IX) => GG::setKeys(IX)
%dispatch MG::addKeys(IX const&) => GG::addKeys(IX const&)
%dispatch MG::removeKeys(IX const&) => GG::removeKeys(IX const&)
%dispatch MG::getValues() const => GG::getValues() const
%dispatch MG::hasValue(PT const&) const => GG::hasValue(PT const&) const
%dispatch MG::removeValues(IX const&) => GG::removeValues(IX const&)
%dispatch MG::has(PT const&, PT const&) const => GG::has(PT const&, PT const&) const
%dispatch MG::set(PT const&, PT const&) => GG::set(PT const&, PT const&)
%dispatch MG::unset(PT const&, PT const&) => GG::unset(PT const&, PT const&)
%dispatch MG::clone() const => GG::clone() const
%dispatch MG::filterKeys(IX const&) const => GG::filterKeys(IX const&) const
%dispatch MG::filterValues(IX const&) const => GG::filterValues(IX const&) const
%dispatch MG::build(marco::modeling::AccessFunction const&) => GG::build(marco::modeling::AccessFunction const&)
%prelude
// an access function that accesses one element per index: what the incidence matrix relies on (C10, C13, C14)
pub struct AFn { pub id: int }
pub uninterp spec fn afv(f: AFn, p: Seq<int>) -> Seq<int>;
pub uninterp spec fn afe(f: AFn) -> int;   // rank of the indices
pub uninterp spec fn afr(f: AFn) -> int;   // rank of the elements
#[verifier::external_body] fn afx_map_point(Ghost(f): Ghost<AFn>, Ghost(p): Ghost<Point>) -> (r: Ghost<IndexSet>) requires p.values.len() == afe(f) ensures iwf(r@), r@.root is Some ==> r@.allowedRank == afr(f), forall|q: Seq<int>| #[trigger] iin(r@, q) == (q == afv(f, p.values)) { unimplemented!() } //@lib virtual call of AccessFunction::map(Point): the contract of C10
#[verifier::external_body] fn afx_map_set(Ghost(f): Ghost<AFn>, Ghost(s): Ghost<IndexSet>) -> (r: Ghost<IndexSet>) requires iwf(s), s.root is Some ==> s.allowedRank == afe(f) ensures iwf(r@), r@.root is Some ==> r@.allowedRank == afr(f), forall|q: Seq<int>| #[trigger] iin(r@, q) == imgs(f, s, q) { unimplemented!() } //@lib virtual call of AccessFunction::map(IndexSet): the contract of C13
#[verifier::external_body] fn afx_inverse(Ghost(f): Ghost<AFn>, Ghost(v): Ghost<IndexSet>, Ghost(s): Ghost<IndexSet>) -> (r: Ghost<IndexSet>) requires iwf(s), iwf(v), s.root is Some ==> s.allowedRank == afe(f), v.root is Some ==> v.allowedRank == afr(f) ensures iwf(r@), r@.root is Some ==> r@.allowedRank == afe(f), forall|p: Seq<int>| #[trigger] iin(r@, p) == (iin(s, p) && iin(v, afv(f, p))) { unimplemented!() } //@lib virtual call of AccessFunction::inverseMap: the contract of C14
#[verifier::external_body] fn afx_eq(Ghost(f): Ghost<AFn>, Ghost(g): Ghost<AFn>) -> (r: Ghost<bool>) ensures r@ ==> sameaf(f, g) { unimplemented!() } //@lib equal access functions access the same elements
#[verifier::external_body] fn afx_clone(Ghost(f): Ghost<AFn>) -> (r: Ghost<AFn>) ensures sameaf(r@, f) { unimplemented!() } //@lib a clone of an access function accesses the same elements
pub open spec fn imgs(f: AFn, s: IndexSet, q: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] iin(s, p) && afv(f, p) == q }
pub open spec fn sameaf(f: AFn, g: AFn) -> bool { afe(f) == afe(g) && afr(f) == afr(g) && forall|p: Seq<int>| #[trigger] afv(f, p) == afv(g, p) }
// the points of a set, in the order of its iterator
pub uninterp spec fn ipts(x: IndexSet) -> Seq<Point>;
#[verifier::external_body] pub proof fn lemma_ipts(x: IndexSet) requires iwf(x) ensures forall|k: int| 0 <= k < ipts(x).len() ==> (#[trigger] ipts(x)[k]).values.len() == x.allowedRank && iin(x, ipts(x)[k].values) && cok(ipts(x)[k].values), forall|p: Seq<int>| #[trigger] iin(x, p) ==> exists|k: int| 0 <= k < ipts(x).len() && (#[trigger] ipts(x)[k]).values == p { } //@lib the iterator of IndexSet yields its points
pub open spec fn ptsn(x: IndexSet, n: int, p: Seq<int>) -> bool { exists|k: int| 0 <= k < n && (#[trigger] ipts(x)[k]).values == p }
pub open spec fn cok(p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_ix(x: IndexSet) requires iwf(x) ensures (x.root is Some) == (exists|p: Seq<int>| #[trigger] iin(x, p)), forall|p: Seq<int>| #[trigger] iin(x, p) ==> x.root is Some && p.len() == x.allowedRank
{ lemma_iflat(x); assert forall|p: Seq<int>| #[trigger] iin(x, p) implies x.root is Some && p.len() == x.allowedRank by { let k = choose|k: int| 0 <= k < iflat(x).len() && bin(#[trigger] iflat(x)[k], p); assert(bwf(iflat(x)[k])); } }
// a group: its keys, each with the element that the access function accesses
pub open spec fn gwf(g: MCIMGroupGeneric) -> bool { iwf(g.keys) && (g.keys.initialized ==> g.keys.allowedRank == afe(g.accessFunction)) }
pub open spec fn ghas(g: MCIMGroupGeneric, k: Seq<int>, v: Seq<int>) -> bool { iin(g.keys, k) && afv(g.accessFunction, k) == v }
pub open spec fn erk(m: MCIM) -> int { m.equationSpace.allowedRank as int }
pub open spec fn vrk(m: MCIM) -> int { m.variableSpace.allowedRank as int }
pub open spec fn spwf(x: IndexSet) -> bool { iwf(x) && x.root is Some && x.allowedRank > 0 && x.allowedRank < 0x8000_0000 }
pub open spec fn gfit(g: MCIMGroupGeneric, e: IndexSet, v: IndexSet) -> bool { gwf(g) && afe(g.accessFunction) == e.allowedRank && afr(g.accessFunction) == v.allowedRank && (forall|k: Seq<int>| #[trigger] iin(g.keys, k) ==> iin(e, k) && iin(v, afv(g.accessFunction, k))) }
pub open spec fn allfit(s: Seq<MCIMGroupGeneric>, e: IndexSet, v: IndexSet) -> bool { forall|i: int| 0 <= i < s.len() ==> gfit(#[trigger] s[i], e, v) }
pub open spec fn allne(s: Seq<MCIMGroupGeneric>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).keys.root is Some }
pub open spec fn ptfit(x: IndexSet, e: IndexSet, v: IndexSet) -> bool { iwf(x) && (x.initialized ==> x.allowedRank == e.allowedRank + v.allowedRank) && forall|p: Seq<int>| #[trigger] iin(x, p) ==> iin(e, p.subrange(0, e.allowedRank as int)) && iin(v, p.subrange(e.allowedRank as int, e.allowedRank + v.allowedRank)) }
// an incidence matrix whose elements lie within its spaces
pub open spec fn mwf(m: MCIM) -> bool { spwf(m.equationSpace) && spwf(m.variableSpace) && allfit(m.groups, m.equationSpace, m.variableSpace) && allne(m.groups) && ptfit(m.points, m.equationSpace, m.variableSpace) }
pub open spec fn ghasn(s: Seq<MCIMGroupGeneric>, n: int, e: Seq<int>, v: Seq<int>) -> bool { exists|i: int| 0 <= i < n && ghas(#[trigger] s[i], e, v) }
// the pairs of the matrix
pub open spec fn mset(m: MCIM, e: Seq<int>, v: Seq<int>) -> bool { iin(m.points, e + v) || ghasn(m.groups, m.groups.len() as int, e, v) }
// what setting (unsetting) a pair does to a group
pub open spec fn gadd(a: MCIMGroupGeneric, b: MCIMGroupGeneric, e: Seq<int>, v: Seq<int>) -> bool { gwf(b) && b.accessFunction == a.accessFunction && forall|k: Seq<int>| #[trigger] iin(b.keys, k) == (iin(a.keys, k) || (k == e && afv(a.accessFunction, e) == v)) }
pub open spec fn gdel(a: MCIMGroupGeneric, b: MCIMGroupGeneric, e: Seq<int>, v: Seq<int>) -> bool { gwf(b) && b.accessFunction == a.accessFunction && forall|k: Seq<int>| #[trigger] iin(b.keys, k) == (iin(a.keys, k) && !(k == e && afv(a.accessFunction, e) == v)) }
pub open spec fn allows(s: Seq<MCIMGroupGeneric>, n: int, e: Seq<int>, v: Seq<int>) -> bool { exists|j: int| 0 <= j < n && afv((#[trigger] s[j]).accessFunction, e) == v }
pub proof fn lemma_gadd(a: MCIMGroupGeneric, b: MCIMGroupGeneric, e: Seq<int>, v: Seq<int>, x: IndexSet, y: IndexSet) requires gfit(a, x, y), gadd(a, b, e, v), iin(x, e), iin(y, v) ensures gfit(b, x, y), a.keys.root is Some ==> b.keys.root is Some
{ lemma_ix(a.keys); lemma_ix(b.keys); if a.keys.root is Some { let p = choose|p: Seq<int>| iin(a.keys, p); assert(iin(b.keys, p)); } }
// pushing a group adds its pairs
pub proof fn lemma_ghas_push(s: Seq<MCIMGroupGeneric>, g: MCIMGroupGeneric) ensures forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(s.push(g), s.len() as int + 1, e, v) == (ghasn(s, s.len() as int, e, v) || ghas(g, e, v))
{
    let t = s.push(g);
    assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(t, s.len() as int + 1, e, v) == (ghasn(s, s.len() as int, e, v) || ghas(g, e, v)) by {
        if ghasn(s, s.len() as int, e, v) { let i = choose|i: int| 0 <= i < s.len() && ghas(#[trigger] s[i], e, v); assert(t[i] == s[i]); }
        if ghas(g, e, v) { assert(t[s.len() as int] == g); }
        if ghasn(t, s.len() as int + 1, e, v) { let i = choose|i: int| 0 <= i < s.len() + 1 && ghas(#[trigger] t[i], e, v); if i < s.len() { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_ghas_step(s: Seq<MCIMGroupGeneric>, n: int) requires 0 <= n < s.len() ensures forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(s, n + 1, e, v) == (ghasn(s, n, e, v) || ghas(s[n], e, v))
{
    assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(s, n + 1, e, v) == (ghasn(s, n, e, v) || ghas(s[n], e, v)) by {
        if ghasn(s, n, e, v) { let i = choose|i: int| 0 <= i < n && ghas(#[trigger] s[i], e, v); assert(0 <= i < n + 1); }
        if ghasn(s, n + 1, e, v) { let i = choose|i: int| 0 <= i < n + 1 && ghas(#[trigger] s[i], e, v); if i < n {} }
    }
}
// a group without keys has no pair
pub proof fn lemma_ghas_none(g: MCIMGroupGeneric) requires iwf(g.keys), g.keys.root is None ensures forall|e: Seq<int>, v: Seq<int>| !#[trigger] ghas(g, e, v) { lemma_ix(g.keys); }
pub proof fn lemma_set(m: MCIM, g: Seq<MCIMGroupGeneric>, x: IndexSet, e0: Seq<int>, v0: Seq<int>, e: Seq<int>, v: Seq<int>)
    requires mwf(m), g.len() == m.groups.len(), e0.len() == erk(m), e.len() == erk(m), forall|j: int| 0 <= j < g.len() ==> gadd(m.groups[j], #[trigger] g[j], e0, v0),
        forall|p: Seq<int>| #[trigger] iin(x, p) == (iin(m.points, p) || (!allows(m.groups, g.len() as int, e0, v0) && p == e0 + v0))
    ensures (iin(x, e + v) || ghasn(g, g.len() as int, e, v)) == (mset(m, e, v) || (e == e0 && v == v0))
{
    lemma_cat(e, v, e0, v0); let n = g.len() as int;
    if ghasn(m.groups, n, e, v) { let i = choose|i: int| 0 <= i < n && ghas(#[trigger] m.groups[i], e, v); assert(gadd(m.groups[i], g[i], e0, v0)); assert(ghas(g[i], e, v)); }
    if ghasn(g, n, e, v) { let i = choose|i: int| 0 <= i < n && ghas(#[trigger] g[i], e, v); assert(gadd(m.groups[i], g[i], e0, v0)); if !(e == e0 && v == v0) { assert(ghas(m.groups[i], e, v)); } }
    if e == e0 && v == v0 && allows(m.groups, n, e0, v0) { let i = choose|i: int| 0 <= i < n && afv((#[trigger] m.groups[i]).accessFunction, e0) == v0; assert(gadd(m.groups[i], g[i], e0, v0)); assert(ghas(g[i], e, v)); }
}
pub proof fn lemma_cat(e: Seq<int>, v: Seq<int>, f: Seq<int>, w: Seq<int>) requires e.len() == f.len() ensures (e + v == f + w) == (e == f && v == w), (e + v).subrange(0, e.len() as int) =~= e, (e + v).subrange(e.len() as int, (e + v).len() as int) =~= v
{ if e + v == f + w { assert(e =~= (e + v).subrange(0, e.len() as int)); assert(f =~= (f + w).subrange(0, e.len() as int)); assert(v =~= (e + v).subrange(e.len() as int, (e + v).len() as int)); assert(w =~= (f + w).subrange(e.len() as int, (f + w).len() as int)); } }
pub proof fn lemma_fit_ranks(m: MCIM, e: Seq<int>, v: Seq<int>) requires mwf(m), mset(m, e, v), e.len() == erk(m) || v.len() == vrk(m) ensures iin(m.equationSpace, e), iin(m.variableSpace, v)
{ lemma_ix(m.points);
  if iin(m.points, e + v) { assert((e + v).len() == erk(m) + vrk(m)); assert((e + v).subrange(0, erk(m)) =~= e); assert((e + v).subrange(erk(m), erk(m) + vrk(m)) =~= v); }
  else { let i = choose|i: int| 0 <= i < m.groups.len() && ghas(#[trigger] m.groups[i], e, v); assert(gfit(m.groups[i], m.equationSpace, m.variableSpace)); } }
// the projections of the single points
pub proof fn lemma_pts(m: MCIM) requires mwf(m) ensures
    forall|v: Seq<int>| #[trigger] projsub(iflat(m.points), erk(m), erk(m) + vrk(m), v) == (exists|e: Seq<int>| e.len() == erk(m) && iin(m.points, #[trigger] (e + v))),
    forall|e: Seq<int>| #[trigger] projsub(iflat(m.points), 0, erk(m), e) == (exists|v: Seq<int>| v.len() == vrk(m) && iin(m.points, #[trigger] (e + v)))
{
    lemma_ix(m.points); let f = iflat(m.points); let a = erk(m); let b = erk(m) + vrk(m);
    assert forall|v: Seq<int>| #[trigger] projsub(f, a, b, v) == (exists|e: Seq<int>| e.len() == a && iin(m.points, #[trigger] (e + v))) by {
        if projsub(f, a, b, v) { let p = choose|p: Seq<int>| #[trigger] anyin(f, p) && v =~= p.subrange(a, b); assert(iin(m.points, p)); let e = p.subrange(0, a); assert(e + v =~= p); }
        if exists|e: Seq<int>| e.len() == a && iin(m.points, #[trigger] (e + v)) { let e = choose|e: Seq<int>| e.len() == a && iin(m.points, #[trigger] (e + v)); assert(v =~= (e + v).subrange(a, b)); assert(anyin(f, e + v)); }
    }
    assert forall|e: Seq<int>| #[trigger] projsub(f, 0, a, e) == (exists|v: Seq<int>| v.len() == vrk(m) && iin(m.points, #[trigger] (e + v))) by {
        if projsub(f, 0, a, e) { let p = choose|p: Seq<int>| #[trigger] anyin(f, p) && e =~= p.subrange(0, a); assert(iin(m.points, p)); let v = p.subrange(a, b); assert(e + v =~= p); }
        if exists|v: Seq<int>| v.len() == vrk(m) && iin(m.points, #[trigger] (e + v)) { let v = choose|v: Seq<int>| v.len() == vrk(m) && iin(m.points, #[trigger] (e + v)); assert(e =~= (e + v).subrange(0, a)); assert(anyin(f, e + v)); }
    }
}
pub proof fn lemma_carts(r: IndexSet, x: IndexSet, y: IndexSet) requires iwf(x), iwf(y), forall|q: Seq<int>| #[trigger] iin(r, q) == cart(iflat(x), iflat(y), x.allowedRank as int, y.allowedRank as int, q)
    ensures forall|e: Seq<int>, v: Seq<int>| e.len() == x.allowedRank && v.len() == y.allowedRank ==> #[trigger] iin(r, e + v) == (iin(x, e) && iin(y, v))
{ assert forall|e: Seq<int>, v: Seq<int>| e.len() == x.allowedRank && v.len() == y.allowedRank implies #[trigger] iin(r, e + v) == (iin(x, e) && iin(y, v)) by { let a = x.allowedRank as int; let b = y.allowedRank as int; assert((e + v).subrange(0, a) =~= e); assert((e + v).subrange(a, a + b) =~= v); } }
pub open spec fn keepin(f: Seq<MultidimensionalRange>, n: IndexSet, lo: int, hi: int, q: Seq<int>) -> bool { anyin(f, q) && iin(n, q.subrange(lo, hi)) }
pub open spec fn seqv(a: IndexSet, b: IndexSet) -> bool { a.allowedRank == b.allowedRank && forall|p: Seq<int>| #[trigger] iin(a, p) == iin(b, p) }
pub open spec fn sized(x: IndexSet) -> bool { (forall|k: int| 0 <= k < iflat(x).len() ==> fits((#[trigger] iflat(x)[k]).ranges)) && vol(iflat(x)) <= 0xffff_ffff_ffff_ffff }
// a group whose pairs are replaced
pub proof fn lemma_ghas_update(s: Seq<MCIMGroupGeneric>, i: int, g: MCIMGroupGeneric, x: IndexSet) requires 0 <= i < s.len(), g.accessFunction == s[i].accessFunction, forall|k: Seq<int>| #[trigger] iin(g.keys, k) == (iin(s[i].keys, k) || iin(x, k))
    ensures forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(s.update(i, g), s.len() as int, e, v) == (ghasn(s, s.len() as int, e, v) || (iin(x, e) && afv(g.accessFunction, e) == v))
{
    let t = s.update(i, g); let n = s.len() as int;
    assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(t, n, e, v) == (ghasn(s, n, e, v) || (iin(x, e) && afv(g.accessFunction, e) == v)) by {
        if ghasn(s, n, e, v) { let j = choose|j: int| 0 <= j < n && ghas(#[trigger] s[j], e, v); assert(ghas(t[j], e, v)); }
        if iin(x, e) && afv(g.accessFunction, e) == v { assert(ghas(t[i], e, v)); }
        if ghasn(t, n, e, v) { let j = choose|j: int| 0 <= j < n && ghas(#[trigger] t[j], e, v); if j != i { assert(ghas(s[j], e, v)); } else if iin(s[i].keys, e) { assert(ghas(s[i], e, v)); } }
    }
}
pub proof fn lemma_ptsn(x: IndexSet, n: int) requires 0 <= n < ipts(x).len() ensures forall|p: Seq<int>| #[trigger] ptsn(x, n + 1, p) == (ptsn(x, n, p) || ipts(x)[n].values == p)
{ assert forall|p: Seq<int>| #[trigger] ptsn(x, n + 1, p) == (ptsn(x, n, p) || ipts(x)[n].values == p) by { if ptsn(x, n, p) { let k = choose|k: int| 0 <= k < n && (#[trigger] ipts(x)[k]).values == p; assert(0 <= k < n + 1); } if ptsn(x, n + 1, p) { let k = choose|k: int| 0 <= k < n + 1 && (#[trigger] ipts(x)[k]).values == p; if k < n {} } } }
pub proof fn lemma_ptsall(x: IndexSet) requires iwf(x) ensures forall|p: Seq<int>| #[trigger] ptsn(x, ipts(x).len() as int, p) == iin(x, p)
{ lemma_ipts(x); assert forall|p: Seq<int>| #[trigger] ptsn(x, ipts(x).len() as int, p) == iin(x, p) by { if iin(x, p) { let k = choose|k: int| 0 <= k < ipts(x).len() && (#[trigger] ipts(x)[k]).values == p; } } }
// what is left of a group without the pairs of other groups
pub open spec fn gs0(a: MCIMGroupGeneric, b: MCIMGroupGeneric, r: Seq<MCIMGroupGeneric>, n: int) -> bool { gwf(b) && b.accessFunction == a.accessFunction && forall|k: Seq<int>| #[trigger] iin(b.keys, k) == (iin(a.keys, k) && !ghasn(r, n, k, afv(a.accessFunction, k))) }
pub open spec fn gval(s: Seq<MCIMGroupGeneric>, n: int, v: Seq<int>) -> bool { exists|i: int| 0 <= i < n && imgs((#[trigger] s[i]).accessFunction, s[i].keys, v) }
pub open spec fn gkey(s: Seq<MCIMGroupGeneric>, n: int, e: Seq<int>) -> bool { exists|i: int| 0 <= i < n && iin((#[trigger] s[i]).keys, e) }
%end

%fn GG::empty() const
%name Gg_empty
%req
- gwf(this)
%ens
- ret == (this.keys.root is None)
%endfn
%fn GG::getKeys() const
%name Gg_getKeys
%ens
- ret == this.keys
%endfn
%fn GG::hasKey(PT const&) const
%name Gg_hasKey
%req
- gwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values)
%ens
- ret == iin(this.keys, key.values)
%endfn
%fn GG::setKeys(IX)
%name Gg_setKeys
%req
- iwf(newKeys) && (newKeys.initialized ==> newKeys.allowedRank == afe(this.accessFunction))
%ens
- post_this.keys == newKeys && post_this.accessFunction == this.accessFunction
%endfn
%fn GG::addKeys(IX const&)
%name Gg_addKeys
%req
- gwf(this) && iwf(newKeys) && (newKeys.root is Some ==> newKeys.allowedRank == afe(this.accessFunction))
%ens
- gwf(post_this) && post_this.accessFunction == this.accessFunction
- [the keys are added] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) || iin(newKeys, k))
%endfn
%fn GG::removeKeys(IX const&)
%name Gg_removeKeys
%req
- gwf(this) && iwf(removedKeys) && (removedKeys.root is Some ==> removedKeys.allowedRank == afe(this.accessFunction))
%ens
- gwf(post_this) && post_this.accessFunction == this.accessFunction
- [the keys are removed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) && !iin(removedKeys, k))
%endfn
%fn GG::getValues() const
%name Gg_getValues
%req
- gwf(this)
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == afr(this.accessFunction))
- [the accessed elements] forall|v: Seq<int>| #[trigger] iin(ret, v) == imgs(this.accessFunction, this.keys, v)
%endfn
%fn GG::has(PT const&, PT const&) const
%name Gg_has
%req
- gwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values)
%ens
- [membership of the pair] ret == ghas(this, key.values, value.values)
%endfn
%fn GG::hasValue(PT const&) const
%name Gg_hasValue
%req
- gwf(this) && point.values.len() == afr(this.accessFunction) && cok(point.values)
%ens
- ret == imgs(this.accessFunction, this.keys, point.values)
%endfn
%fn GG::removeValues(IX const&)
%name Gg_removeValues
%req
- gwf(this) && iwf(removedValues) && (removedValues.root is Some ==> removedValues.allowedRank == afr(this.accessFunction))
%ens
- gwf(post_this) && post_this.accessFunction == this.accessFunction
- [the keys with such a value are removed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) && !iin(removedValues, afv(this.accessFunction, k)))
%aftercall Ix_intersect
lemma_ix($ret); lemma_ix($1);
%endfn
%fn GG::set(PT const&, PT const&)
%name Gg_set
%req
- gwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values) && key.values.len() > 0 && value.values.len() > 0
%ens
- gwf(post_this) && post_this.accessFunction == this.accessFunction
- [tells whether the access function allows the pair] ret == (afv(this.accessFunction, key.values) == value.values)
- [the pair is added when it is allowed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) || (ret && k == key.values))
%aftercall afx_inverse
lemma_ix($ret); assert(iin($ret, key.values) == (afv(this.accessFunction, key.values) == value.values));
%endfn
%fn GG::unset(PT const&, PT const&)
%name Gg_unset
%req
- gwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values) && key.values.len() > 0 && value.values.len() > 0
%ens
- gwf(post_this) && post_this.accessFunction == this.accessFunction
- [exactly the pair is removed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) && !(k == key.values && afv(this.accessFunction, k) == value.values))
%endfn
%fn GG::build(marco::modeling::AccessFunction const&)
%name Gg_build
%ens
- gwf(ret) && sameaf(ret.accessFunction, accessFunction) && ret.keys.root is None && !ret.keys.initialized
%endfn
%fn GG::clone() const
%name Gg_clone
%req
- gwf(this)
%ens
- gwf(ret) && sameaf(ret.accessFunction, this.accessFunction) && ret.keys == this.keys
%endfn
%fn GG::filterKeys(IX const&) const
%name Gg_filterKeys
%req
- gwf(this) && iwf(filter) && (filter.root is Some ==> filter.allowedRank == afe(this.accessFunction))
%ens
- gwf(ret) && sameaf(ret.accessFunction, this.accessFunction)
- [the keys among the given ones] forall|k: Seq<int>| #[trigger] iin(ret.keys, k) == (iin(this.keys, k) && iin(filter, k))
%aftercall Ix_intersect
lemma_ix($ret); lemma_ix($1);
%endfn
%fn GG::filterValues(IX const&) const
%name Gg_filterValues
%req
- gwf(this) && iwf(filter) && (filter.root is Some ==> filter.allowedRank == afr(this.accessFunction))
%ens
- gwf(ret) && sameaf(ret.accessFunction, this.accessFunction)
- [the keys whose value is among the given ones] forall|k: Seq<int>| #[trigger] iin(ret.keys, k) == (iin(this.keys, k) && iin(filter, afv(this.accessFunction, k)))
%aftercall Ix_intersect
lemma_ix($ret); lemma_ix($1);
%endfn
// ---- the matrix
%fn MC::get(PT const&, PT const&) const
%name Mc_get
%req
- mwf(this) && equation.values.len() == erk(this) && variable.values.len() == vrk(this) && cok(equation.values) && cok(variable.values)
%ens
- [membership of the pair] ret == mset(this, equation.values, variable.values)
%loop 1
%inv
- $acc == ghasn(this.groups, $i, equation.values, variable.values)
%begin
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace));
%endloop
%endfn
%fn MC::set(PT const&, PT const&)
%name Mc_set
%req
- mwf(this) && iin(this.equationSpace, equation.values) && iin(this.variableSpace, variable.values) && cok(equation.values) && cok(variable.values)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the pair is added] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) || (e == equation.values && v == variable.values))
%loop 1
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- allfit(this.groups, this.equationSpace, this.variableSpace) && allne(this.groups)
- forall|j: int| $i <= j < this.groups.len() ==> #[trigger] this.groups[j] == old_this.groups[j]
- @anyGroupSet == allows(old_this.groups, $i, eq, va)
- forall|j: int| 0 <= j < $i ==> gadd(old_this.groups[j], #[trigger] this.groups[j], eq, va)
%begin
let ghost t0 = this;
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace)); assert(this.groups[$i] == old_this.groups[$i]);
%end
let k = $i - 1;
assert(gadd(t0.groups[k], this.groups[k], eq, va)); lemma_gadd(t0.groups[k], this.groups[k], eq, va, this.equationSpace, this.variableSpace);
assert forall|i: int| 0 <= i < this.groups.len() implies gfit(#[trigger] this.groups[i], this.equationSpace, this.variableSpace) && this.groups[i].keys.root is Some by { if i != k { assert(this.groups[i] == t0.groups[i]); assert(gfit(t0.groups[i], t0.equationSpace, t0.variableSpace)); } assert(t0.groups[i].keys.root is Some); }
assert forall|j: int| 0 <= j < $i implies gadd(old_this.groups[j], #[trigger] this.groups[j], eq, va) by { if j < k { assert(this.groups[j] == t0.groups[j]); } }
assert forall|j: int| $i <= j < this.groups.len() implies #[trigger] this.groups[j] == old_this.groups[j] by { assert(this.groups[j] == t0.groups[j]); }
%endloop
%entry
let ghost eq = equation.values; let ghost va = variable.values;
lemma_ix(this.equationSpace); lemma_ix(this.variableSpace); lemma_ix(this.points);
%exit
lemma_cat(eq, va, eq, va);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(old_this) && v.len() == vrk(old_this) implies #[trigger] mset(post_this, e, v) == (mset(old_this, e, v) || (e == equation.values && v == variable.values)) by { lemma_set(old_this, post_this.groups, post_this.points, eq, va, e, v); }
%endfn
%fn MC::unset(PT const&, PT const&)
%name Mc_unset
%req
- mwf(this) && iin(this.equationSpace, equation.values) && iin(this.variableSpace, variable.values) && cok(equation.values) && cok(variable.values)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the pair is removed] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) && !(e == equation.values && v == variable.values))
%loop 1
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- forall|j: int| $i <= j < this.groups.len() ==> #[trigger] this.groups[j] == old_this.groups[j]
- allfit(@newGroups, this.equationSpace, this.variableSpace) && allne(@newGroups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && !(e == eq && v == va))
%begin
let ghost t0 = this; let ghost n0 = @newGroups;
assert(this.groups[$i] == old_this.groups[$i]); assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace));
%end
let k = $i - 1; let a = old_this.groups[k]; let b = this.groups[k];
assert(gdel(a, b, eq, va)); lemma_ghas_step(old_this.groups, k); lemma_ghas_push(n0, b); if b.keys.root is None { lemma_ghas_none(b); }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(b, e, v) == (ghas(a, e, v) && !(e == eq && v == va)) by {}
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && !(e == eq && v == va)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(old_this.groups, k, e, v) && !(e == eq && v == va))); assert(ghasn(old_this.groups, k + 1, e, v) == (ghasn(old_this.groups, k, e, v) || ghas(a, e, v))); assert(ghas(b, e, v) == (ghas(a, e, v) && !(e == eq && v == va))); if b.keys.root is Some { assert(@newGroups == n0.push(b)); assert(ghasn(n0.push(b), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(b, e, v))); } else { assert(@newGroups == n0); } }
assert forall|j: int| $i <= j < this.groups.len() implies #[trigger] this.groups[j] == old_this.groups[j] by { assert(this.groups[j] == t0.groups[j]); }
%endloop
%entry
let ghost eq = equation.values; let ghost va = variable.values;
lemma_ix(this.equationSpace); lemma_ix(this.variableSpace); lemma_ix(this.points);
%exit
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(old_this) && v.len() == vrk(old_this) implies #[trigger] mset(post_this, e, v) == (mset(old_this, e, v) && !(e == equation.values && v == variable.values)) by { lemma_cat(e, v, eq, va); }
%endfn
%fn MC::empty() const
%name Mc_empty
%req
- mwf(this)
%ens
- [tells whether there is no pair] ret == !(exists|e: Seq<int>, v: Seq<int>| #[trigger] mset(this, e, v))
%exit
lemma_ix(this.points);
if this.groups.len() > 0 { let g = this.groups[0]; assert(gfit(g, this.equationSpace, this.variableSpace) && g.keys.root is Some); lemma_ix(g.keys); let k = choose|k: Seq<int>| iin(g.keys, k); assert(ghas(g, k, afv(g.accessFunction, k))); assert(mset(this, k, afv(g.accessFunction, k))); }
if this.points.root is Some { let p = choose|p: Seq<int>| iin(this.points, p); let e = p.subrange(0, erk(this)); let v = p.subrange(erk(this), p.len() as int); assert(e + v =~= p); assert(mset(this, e, v)); }
%endfn
%fn MC::clear()
%name Mc_clear
%req
- mwf(this)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [no pair is left] forall|e: Seq<int>, v: Seq<int>| !#[trigger] mset(post_this, e, v)
%endfn
%fn MC::flattenRows() const
%name Mc_flattenRows
%req
- mwf(this)
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == vrk(this))
- [exactly the variables with a pair] forall|v: Seq<int>| #[trigger] iin(ret, v) == (exists|e: Seq<int>| e.len() == erk(this) && #[trigger] mset(this, e, v))
%loop 1
%inv
- iwf(result) && (result.initialized ==> result.allowedRank == vrk(this))
- forall|v: Seq<int>| #[trigger] iin(result, v) == gval(this.groups, $i, v)
%begin
let ghost r0 = result;
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace));
%end
let k = $i - 1;
assert forall|v: Seq<int>| #[trigger] iin(result, v) == gval(this.groups, $i, v) by { assert(iin(r0, v) == gval(this.groups, k, v)); if gval(this.groups, k, v) { let i = choose|i: int| 0 <= i < k && imgs((#[trigger] this.groups[i]).accessFunction, this.groups[i].keys, v); assert(0 <= i < $i); } if imgs(this.groups[k].accessFunction, this.groups[k].keys, v) { assert(gval(this.groups, $i, v)); } }
%endloop
%aftercall Ix_takeLast
lemma_ix($ret); lemma_ix(this.points); lemma_pts(this);
%exit
assert forall|v: Seq<int>| #[trigger] iin(ret, v) == (exists|e: Seq<int>| e.len() == erk(this) && #[trigger] mset(this, e, v)) by {
    if gval(this.groups, this.groups.len() as int, v) { let i = choose|i: int| 0 <= i < this.groups.len() && imgs((#[trigger] this.groups[i]).accessFunction, this.groups[i].keys, v); let g = this.groups[i]; let e = choose|p: Seq<int>| #[trigger] iin(g.keys, p) && afv(g.accessFunction, p) == v; assert(gfit(g, this.equationSpace, this.variableSpace)); lemma_ix(g.keys); assert(ghas(g, e, v)); assert(mset(this, e, v)); }
    if projsub(iflat(this.points), erk(this), erk(this) + vrk(this), v) { let e = choose|e: Seq<int>| e.len() == erk(this) && iin(this.points, #[trigger] (e + v)); assert(mset(this, e, v)); }
    if exists|e: Seq<int>| e.len() == erk(this) && #[trigger] mset(this, e, v) { let e = choose|e: Seq<int>| e.len() == erk(this) && #[trigger] mset(this, e, v); if iin(this.points, e + v) {} else { let i = choose|i: int| 0 <= i < this.groups.len() && ghas(#[trigger] this.groups[i], e, v); assert(imgs(this.groups[i].accessFunction, this.groups[i].keys, v)); assert(gval(this.groups, this.groups.len() as int, v)); } }
}
%endfn
%fn MC::flattenColumns() const
%name Mc_flattenColumns
%req
- mwf(this)
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == erk(this))
- [exactly the equations with a pair] forall|e: Seq<int>| #[trigger] iin(ret, e) == (exists|v: Seq<int>| v.len() == vrk(this) && #[trigger] mset(this, e, v))
%loop 1
%inv
- iwf(result) && (result.initialized ==> result.allowedRank == erk(this))
- forall|e: Seq<int>| #[trigger] iin(result, e) == gkey(this.groups, $i, e)
%begin
let ghost r0 = result;
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace)); lemma_ix(this.groups[$i].keys);
%end
let k = $i - 1;
assert forall|e: Seq<int>| #[trigger] iin(result, e) == gkey(this.groups, $i, e) by { assert(iin(r0, e) == gkey(this.groups, k, e)); if gkey(this.groups, k, e) { let i = choose|i: int| 0 <= i < k && iin((#[trigger] this.groups[i]).keys, e); assert(0 <= i < $i); } if iin(this.groups[k].keys, e) { assert(gkey(this.groups, $i, e)); } }
%endloop
%aftercall Ix_takeFirst
lemma_ix($ret); lemma_ix(this.points); lemma_pts(this);
%exit
assert forall|e: Seq<int>| #[trigger] iin(ret, e) == (exists|v: Seq<int>| v.len() == vrk(this) && #[trigger] mset(this, e, v)) by {
    if gkey(this.groups, this.groups.len() as int, e) { let i = choose|i: int| 0 <= i < this.groups.len() && iin((#[trigger] this.groups[i]).keys, e); let g = this.groups[i]; let v = afv(g.accessFunction, e); assert(gfit(g, this.equationSpace, this.variableSpace)); lemma_ix(this.variableSpace); assert(iin(this.variableSpace, v)); assert(ghas(g, e, v)); assert(mset(this, e, v)); }
    if projsub(iflat(this.points), 0, erk(this), e) { let v = choose|v: Seq<int>| v.len() == vrk(this) && iin(this.points, #[trigger] (e + v)); assert(mset(this, e, v)); }
    if exists|v: Seq<int>| v.len() == vrk(this) && #[trigger] mset(this, e, v) { let v = choose|v: Seq<int>| v.len() == vrk(this) && #[trigger] mset(this, e, v); if iin(this.points, e + v) {} else { let i = choose|i: int| 0 <= i < this.groups.len() && ghas(#[trigger] this.groups[i], e, v); assert(gkey(this.groups, this.groups.len() as int, e)); } }
}
%endfn
%fn MC::filterRows(IX const&) const
%name Mc_filterRows
%req
- mwf(this) && iwf(filter) && (filter.root is Some ==> filter.allowedRank == erk(this))
%ens
- mwf(ret) && ret.equationSpace == this.equationSpace && ret.variableSpace == this.variableSpace
- [exactly the pairs of the chosen equations] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(ret, e, v) == (mset(this, e, v) && iin(filter, e))
%loop 1
%inv
- result.equationSpace == this.equationSpace && result.variableSpace == this.variableSpace && result.points.root is None && !result.points.initialized && iwf(result.points)
- allfit(result.groups, this.equationSpace, this.variableSpace) && allne(result.groups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(filter, e))
%begin
let ghost n0 = result.groups; let ghost mut gb = this.groups[$i];
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace));
%end
let k = $i - 1; let a = this.groups[k]; let b = gb;
lemma_ghas_step(this.groups, k); lemma_ghas_push(n0, b); if b.keys.root is None { lemma_ghas_none(b); }
assert(gfit(b, this.equationSpace, this.variableSpace));
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(b, e, v) == (ghas(a, e, v) && iin(filter, e)) by { assert(afv(b.accessFunction, e) == afv(a.accessFunction, e)); }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(filter, e)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(this.groups, k, e, v) && iin(filter, e))); assert(ghasn(this.groups, k + 1, e, v) == (ghasn(this.groups, k, e, v) || ghas(a, e, v))); assert(ghas(b, e, v) == (ghas(a, e, v) && iin(filter, e))); if b.keys.root is Some { assert(result.groups == n0.push(b)); assert(ghasn(n0.push(b), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(b, e, v))); } else { assert(result.groups == n0); } }
%endloop
%aftercall Ix_takeFirst
let ghost rws = $ret;
lemma_ix($ret); lemma_ix(this.points); lemma_pts(this); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace);
%aftercall Gg_empty
gb = $1;
%aftercall Ix_intersect
lemma_ix($ret); assert forall|p: Seq<int>| #[trigger] iin($1, p) && #[trigger] iin($2, p) implies $ret.root is Some by { assert(iin($ret, p)); }
%aftercall Ix_append
lemma_ix($ret); lemma_carts($ret, $1, $2);
%exit
lemma_ix(ret.points);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) implies iin(ret.points, #[trigger] (e + v)) == (iin(this.points, e + v) && iin(filter, e)) by {
    assert((e + v).subrange(0, erk(this)) =~= e); assert((e + v).subrange(erk(this), erk(this) + vrk(this)) =~= v);
    if iin(this.points, e + v) { assert(iin(this.equationSpace, e) && iin(this.variableSpace, v)); assert(projsub(iflat(this.points), 0, erk(this), e)); assert(projsub(iflat(this.points), erk(this), erk(this) + vrk(this), v)); assert(iin(rws, e)); }
}
%endfn
%fn MC::filterColumns(IX const&) const
%name Mc_filterColumns
%req
- mwf(this) && iwf(filter) && (filter.root is Some ==> filter.allowedRank == vrk(this))
%ens
- mwf(ret) && ret.equationSpace == this.equationSpace && ret.variableSpace == this.variableSpace
- [exactly the pairs of the chosen variables] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(ret, e, v) == (mset(this, e, v) && iin(filter, v))
%loop 1
%inv
- result.equationSpace == this.equationSpace && result.variableSpace == this.variableSpace && result.points.root is None && !result.points.initialized && iwf(result.points)
- allfit(result.groups, this.equationSpace, this.variableSpace) && allne(result.groups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(filter, v))
%begin
let ghost n0 = result.groups; let ghost mut gb = this.groups[$i];
assert(gfit(this.groups[$i], this.equationSpace, this.variableSpace));
%end
let k = $i - 1; let a = this.groups[k]; let b = gb;
lemma_ghas_step(this.groups, k); lemma_ghas_push(n0, b); if b.keys.root is None { lemma_ghas_none(b); }
assert(gfit(b, this.equationSpace, this.variableSpace));
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(b, e, v) == (ghas(a, e, v) && iin(filter, v)) by { assert(afv(b.accessFunction, e) == afv(a.accessFunction, e)); }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(filter, v)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(this.groups, k, e, v) && iin(filter, v))); assert(ghasn(this.groups, k + 1, e, v) == (ghasn(this.groups, k, e, v) || ghas(a, e, v))); assert(ghas(b, e, v) == (ghas(a, e, v) && iin(filter, v))); if b.keys.root is Some { assert(result.groups == n0.push(b)); assert(ghasn(n0.push(b), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(b, e, v))); } else { assert(result.groups == n0); } }
%endloop
%aftercall Ix_takeLast
let ghost rws = $ret;
lemma_ix($ret); lemma_ix(this.points); lemma_pts(this); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace);
%aftercall Gg_empty
gb = $1;
%aftercall Ix_intersect
lemma_ix($ret); assert forall|p: Seq<int>| #[trigger] iin($1, p) && #[trigger] iin($2, p) implies $ret.root is Some by { assert(iin($ret, p)); }
%aftercall Ix_prepend
lemma_ix($ret); lemma_carts($ret, $2, $1);
%exit
lemma_ix(ret.points);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) implies iin(ret.points, #[trigger] (e + v)) == (iin(this.points, e + v) && iin(filter, v)) by {
    assert((e + v).subrange(0, erk(this)) =~= e); assert((e + v).subrange(erk(this), erk(this) + vrk(this)) =~= v);
    if iin(this.points, e + v) { assert(iin(this.equationSpace, e) && iin(this.variableSpace, v)); assert(projsub(iflat(this.points), 0, erk(this), e)); assert(projsub(iflat(this.points), erk(this), erk(this) + vrk(this), v)); assert(iin(rws, v)); }
}
%endfn
%fn MC::setEquationSpace(std::shared_ptr<IX const>)
%name Mc_setEquationSpace
%req
- mwf(this) && spwf(newEquationSpace) && newEquationSpace.allowedRank == erk(this)
%ens
- mwf(post_this) && post_this.equationSpace == newEquationSpace && post_this.variableSpace == this.variableSpace
- [exactly the pairs within the new equation space] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) && iin(newEquationSpace, e))
%entry
let ghost a = erk(this); let ghost b = vrk(this); let ghost ns = newEquationSpace;
lemma_ix(this.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace); lemma_ix(newEquationSpace);
%loop 1
%inv
- this.equationSpace == newEquationSpace && this.variableSpace == old_this.variableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- forall|j: int| $i <= j < this.groups.len() ==> #[trigger] this.groups[j] == old_this.groups[j]
- allfit(@newGroups, this.equationSpace, this.variableSpace) && allne(@newGroups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && iin(ns, e))
%begin
let ghost t0 = this; let ghost n0 = @newGroups; let ghost mut gb = this.groups[$i];
assert(this.groups[$i] == old_this.groups[$i]); assert(gfit(old_this.groups[$i], old_this.equationSpace, old_this.variableSpace)); lemma_ix(this.groups[$i].keys);
%end
let k = $i - 1; let ga = old_this.groups[k];
lemma_ghas_step(old_this.groups, k); lemma_ghas_push(n0, gb); if gb.keys.root is None { lemma_ghas_none(gb); }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(gb, e, v) == (ghas(ga, e, v) && iin(ns, e)) by { if iin(ga.keys, e) { assert(imgs(ga.accessFunction, ga.keys, afv(ga.accessFunction, e))); } }
if gb.keys.root is Some { assert(gfit(gb, this.equationSpace, this.variableSpace)) by { assert forall|e: Seq<int>| #[trigger] iin(gb.keys, e) implies iin(this.equationSpace, e) && iin(this.variableSpace, afv(ga.accessFunction, e)) by { assert(ghas(gb, e, afv(ga.accessFunction, e))); assert(ghas(ga, e, afv(ga.accessFunction, e))); } } }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && iin(ns, e)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(old_this.groups, k, e, v) && iin(ns, e))); assert(ghasn(old_this.groups, k + 1, e, v) == (ghasn(old_this.groups, k, e, v) || ghas(ga, e, v))); assert(ghas(gb, e, v) == (ghas(ga, e, v) && iin(ns, e))); if gb.keys.root is Some { assert(@newGroups == n0.push(gb)); assert(ghasn(n0.push(gb), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(gb, e, v))); } else { assert(@newGroups == n0); } }
assert forall|j: int| $i <= j < this.groups.len() implies #[trigger] this.groups[j] == old_this.groups[j] by { assert(this.groups[j] == t0.groups[j]); }
%endloop
%aftercall Ix_intersect
gb = MCIMGroupGeneric { keys: $ret, accessFunction: gb.accessFunction }; lemma_ix($ret);
%loop 2
%before
lemma_iflat(this.points); assert(iflat(this.points).subrange(0, iflat(this.points).len() as int) =~= iflat(this.points));
%inv
- this.points == old_this.points
- iwf(@newPoints) && (@newPoints.initialized ==> @newPoints.allowedRank == a + b)
- forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == keepin(iflat(this.points).subrange(0, $i), ns, 0, a, q)
%begin
let ghost p0 = @newPoints; let ghost bx = iflat(this.points)[$i];
assert(bwf(bx)); assert(bx.ranges =~= bx.ranges.subrange(0, a) + bx.ranges.subrange(a, a + b));
assert(iflat(this.points).subrange(0, $i + 1) =~= iflat(this.points).subrange(0, $i).push(bx));
assert(swf(bx.ranges.subrange(0, a)) && swf(bx.ranges.subrange(a, a + b))) by { assert forall|i: int| 0 <= i < a implies rwf(#[trigger] bx.ranges.subrange(0, a)[i]) by { assert(rwf(bx.ranges[i])); } assert forall|i: int| 0 <= i < b implies rwf(#[trigger] bx.ranges.subrange(a, a + b)[i]) by { assert(rwf(bx.ranges[a + i])); } }
%endloop
%loop 3
%before
lemma_iflat(@intersection); lemma_ix(@intersection);
%inv
- iwf(@newPoints) && (@newPoints.initialized ==> @newPoints.allowedRank == a + b)
- forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == (iin(p0, q) || (q.len() == a + b && anyin(iflat(@intersection).subrange(0, $i), q.subrange(0, a)) && sin(bx.ranges.subrange(a, a + b), q.subrange(a, a + b))))
%begin
let ghost p1 = @newPoints; let ghost ib = iflat(@intersection)[$i];
assert(bwf(ib)); assert(iflat(@intersection).subrange(0, $i + 1) =~= iflat(@intersection).subrange(0, $i).push(ib));
%end
assert forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == (iin(p0, q) || (q.len() == a + b && anyin(iflat(@intersection).subrange(0, $i), q.subrange(0, a)) && sin(bx.ranges.subrange(a, a + b), q.subrange(a, a + b)))) by {
    assert(iin(p1, q) == (iin(p0, q) || (q.len() == a + b && anyin(iflat(@intersection).subrange(0, $i - 1), q.subrange(0, a)) && sin(bx.ranges.subrange(a, a + b), q.subrange(a, a + b))))); lemma_anyin_push(iflat(@intersection).subrange(0, $i - 1), ib, q.subrange(0, a));
    if q.len() == a + b { lemma_concat_points(ib.ranges, bx.ranges.subrange(a, a + b), q); } }
%after
assert(iflat(@intersection).subrange(0, iflat(@intersection).len() as int) =~= iflat(@intersection));
assert forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == keepin(iflat(this.points).subrange(0, $i_2 + 1), ns, 0, a, q) by {
    assert(iin(p0, q) == keepin(iflat(this.points).subrange(0, $i_2), ns, 0, a, q)); lemma_anyin_push(iflat(this.points).subrange(0, $i_2), bx, q);
    assert(anyin(iflat(@intersection), q.subrange(0, a)) == iin(@intersection, q.subrange(0, a)));
    if q.len() == a + b { lemma_concat_points(bx.ranges.subrange(0, a), bx.ranges.subrange(a, a + b), q); } }
%endloop
%exit
lemma_ix(post_this.points);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(old_this) && v.len() == vrk(old_this) implies iin(post_this.points, #[trigger] (e + v)) == (iin(old_this.points, e + v) && iin(ns, e)) by { assert((e + v).subrange(0, a) =~= e); assert((e + v).subrange(a, a + b) =~= v); assert(iin(old_this.points, e + v) == anyin(iflat(old_this.points), e + v)); }
assert(ptfit(post_this.points, post_this.equationSpace, post_this.variableSpace)) by { assert forall|p: Seq<int>| #[trigger] iin(post_this.points, p) implies iin(post_this.equationSpace, p.subrange(0, a)) && iin(post_this.variableSpace, p.subrange(a, a + b)) by { assert(iin(old_this.points, p)); } }
%endfn
%fn MC::setVariableSpace(std::shared_ptr<IX const>)
%name Mc_setVariableSpace
%req
- mwf(this) && spwf(newVariableSpace) && newVariableSpace.allowedRank == vrk(this)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == newVariableSpace
- [exactly the pairs within the new variable space] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) && iin(newVariableSpace, v))
%entry
let ghost a = erk(this); let ghost b = vrk(this); let ghost ns = newVariableSpace;
lemma_ix(this.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace); lemma_ix(newVariableSpace);
%loop 1
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == newVariableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- forall|j: int| $i <= j < this.groups.len() ==> #[trigger] this.groups[j] == old_this.groups[j]
- allfit(@newGroups, this.equationSpace, this.variableSpace) && allne(@newGroups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && iin(ns, v))
%begin
let ghost t0 = this; let ghost n0 = @newGroups; let ghost mut gb = this.groups[$i];
assert(this.groups[$i] == old_this.groups[$i]); assert(gfit(old_this.groups[$i], old_this.equationSpace, old_this.variableSpace)); lemma_ix(this.groups[$i].keys);
%end
let k = $i - 1; let ga = old_this.groups[k];
lemma_ghas_step(old_this.groups, k); lemma_ghas_push(n0, gb); if gb.keys.root is None { lemma_ghas_none(gb); }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(gb, e, v) == (ghas(ga, e, v) && iin(ns, v)) by { if iin(ga.keys, e) { assert(imgs(ga.accessFunction, ga.keys, afv(ga.accessFunction, e))); } }
if gb.keys.root is Some { assert(gfit(gb, this.equationSpace, this.variableSpace)) by { assert forall|e: Seq<int>| #[trigger] iin(gb.keys, e) implies iin(this.equationSpace, e) && iin(this.variableSpace, afv(ga.accessFunction, e)) by { assert(ghas(gb, e, afv(ga.accessFunction, e))); assert(ghas(ga, e, afv(ga.accessFunction, e))); } } }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(@newGroups, @newGroups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && iin(ns, v)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(old_this.groups, k, e, v) && iin(ns, v))); assert(ghasn(old_this.groups, k + 1, e, v) == (ghasn(old_this.groups, k, e, v) || ghas(ga, e, v))); assert(ghas(gb, e, v) == (ghas(ga, e, v) && iin(ns, v))); if gb.keys.root is Some { assert(@newGroups == n0.push(gb)); assert(ghasn(n0.push(gb), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(gb, e, v))); } else { assert(@newGroups == n0); } }
assert forall|j: int| $i <= j < this.groups.len() implies #[trigger] this.groups[j] == old_this.groups[j] by { assert(this.groups[j] == t0.groups[j]); }
%endloop
%aftercall Ix_intersect
lemma_ix($ret); lemma_ix($1);
%aftercall afx_inverse
gb = MCIMGroupGeneric { keys: $ret, accessFunction: gb.accessFunction }; lemma_ix($ret);
%loop 2
%before
lemma_iflat(this.points); assert(iflat(this.points).subrange(0, iflat(this.points).len() as int) =~= iflat(this.points));
%inv
- this.points == old_this.points
- iwf(@newPoints) && (@newPoints.initialized ==> @newPoints.allowedRank == a + b)
- forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == keepin(iflat(this.points).subrange(0, $i), ns, a, a + b, q)
%begin
let ghost p0 = @newPoints; let ghost bx = iflat(this.points)[$i];
assert(bwf(bx)); assert(bx.ranges =~= bx.ranges.subrange(0, a) + bx.ranges.subrange(a, a + b));
assert(iflat(this.points).subrange(0, $i + 1) =~= iflat(this.points).subrange(0, $i).push(bx));
assert(swf(bx.ranges.subrange(0, a)) && swf(bx.ranges.subrange(a, a + b))) by { assert forall|i: int| 0 <= i < a implies rwf(#[trigger] bx.ranges.subrange(0, a)[i]) by { assert(rwf(bx.ranges[i])); } assert forall|i: int| 0 <= i < b implies rwf(#[trigger] bx.ranges.subrange(a, a + b)[i]) by { assert(rwf(bx.ranges[a + i])); } }
%endloop
%loop 3
%before
lemma_iflat(@intersection); lemma_ix(@intersection);
%inv
- iwf(@newPoints) && (@newPoints.initialized ==> @newPoints.allowedRank == a + b)
- forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == (iin(p0, q) || (q.len() == a + b && sin(bx.ranges.subrange(0, a), q.subrange(0, a)) && anyin(iflat(@intersection).subrange(0, $i), q.subrange(a, a + b))))
%begin
let ghost p1 = @newPoints; let ghost ib = iflat(@intersection)[$i];
assert(bwf(ib)); assert(iflat(@intersection).subrange(0, $i + 1) =~= iflat(@intersection).subrange(0, $i).push(ib));
%end
assert forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == (iin(p0, q) || (q.len() == a + b && sin(bx.ranges.subrange(0, a), q.subrange(0, a)) && anyin(iflat(@intersection).subrange(0, $i), q.subrange(a, a + b)))) by {
    assert(iin(p1, q) == (iin(p0, q) || (q.len() == a + b && sin(bx.ranges.subrange(0, a), q.subrange(0, a)) && anyin(iflat(@intersection).subrange(0, $i - 1), q.subrange(a, a + b))))); lemma_anyin_push(iflat(@intersection).subrange(0, $i - 1), ib, q.subrange(a, a + b));
    if q.len() == a + b { lemma_concat_points(bx.ranges.subrange(0, a), ib.ranges, q); } }
%after
assert(iflat(@intersection).subrange(0, iflat(@intersection).len() as int) =~= iflat(@intersection));
assert forall|q: Seq<int>| #[trigger] iin(@newPoints, q) == keepin(iflat(this.points).subrange(0, $i_2 + 1), ns, a, a + b, q) by {
    assert(iin(p0, q) == keepin(iflat(this.points).subrange(0, $i_2), ns, a, a + b, q)); lemma_anyin_push(iflat(this.points).subrange(0, $i_2), bx, q);
    assert(anyin(iflat(@intersection), q.subrange(a, a + b)) == iin(@intersection, q.subrange(a, a + b)));
    if q.len() == a + b { lemma_concat_points(bx.ranges.subrange(0, a), bx.ranges.subrange(a, a + b), q); } }
%endloop
%exit
lemma_ix(post_this.points);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(old_this) && v.len() == vrk(old_this) implies iin(post_this.points, #[trigger] (e + v)) == (iin(old_this.points, e + v) && iin(ns, v)) by { assert((e + v).subrange(0, a) =~= e); assert((e + v).subrange(a, a + b) =~= v); assert(iin(old_this.points, e + v) == anyin(iflat(old_this.points), e + v)); }
assert(ptfit(post_this.points, post_this.equationSpace, post_this.variableSpace)) by { assert forall|p: Seq<int>| #[trigger] iin(post_this.points, p) implies iin(post_this.equationSpace, p.subrange(0, a)) && iin(post_this.variableSpace, p.subrange(a, a + b)) by { assert(iin(old_this.points, p)); } }
%endfn
%fn MC::MCIM(marco::modeling::internal::MCIM const&)
%name Mc_copy
%req
- mwf(other)
%ens
- mwf(ret) && ret.equationSpace == other.equationSpace && ret.variableSpace == other.variableSpace
- [a copy has the same pairs] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(other) && v.len() == vrk(other) ==> #[trigger] mset(ret, e, v) == mset(other, e, v)
%loop 1
%inv
- this.equationSpace == other.equationSpace && this.variableSpace == other.variableSpace && this.points == other.points
- allfit(this.groups, this.equationSpace, this.variableSpace) && allne(this.groups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(this.groups, this.groups.len() as int, e, v) == ghasn(other.groups, $i, e, v)
%begin
let ghost n0 = this.groups;
assert(gfit(other.groups[$i], other.equationSpace, other.variableSpace));
%end
let k = $i - 1; let b = this.groups.last(); let ga = other.groups[k]; assert(this.groups =~= n0.push(b)); lemma_ghas_step(other.groups, k); lemma_ghas_push(n0, b);
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(this.groups, this.groups.len() as int, e, v) == ghasn(other.groups, $i, e, v) by { assert(ghas(b, e, v) == ghas(ga, e, v)); assert(ghasn(n0, n0.len() as int, e, v) == ghasn(other.groups, k, e, v)); }
%endloop
%endfn
%fn MC::withSpace(std::shared_ptr<IX const>, std::shared_ptr<IX const>) const
%name Mc_withSpace
%req
- mwf(this) && spwf(newEquationSpace) && newEquationSpace.allowedRank == erk(this) && spwf(newVariableSpace) && newVariableSpace.allowedRank == vrk(this)
- sized(newEquationSpace) && sized(newVariableSpace) && sized(this.equationSpace) && sized(this.variableSpace)
%ens
- mwf(ret) && (forall|p: Seq<int>| #[trigger] iin(ret.equationSpace, p) == iin(newEquationSpace, p)) && (forall|p: Seq<int>| #[trigger] iin(ret.variableSpace, p) == iin(newVariableSpace, p))
- [exactly the pairs within the new spaces] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(ret, e, v) == (mset(this, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v))
%entry
let ghost mut gb: MCIMGroupGeneric = arbitrary();
lemma_ix(this.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace); lemma_ix(newEquationSpace); lemma_ix(newVariableSpace);
%loop 1
%inv
- result.equationSpace == newEquationSpace && result.variableSpace == newVariableSpace && result.points.root is None && !result.points.initialized && iwf(result.points)
- allfit(result.groups, newEquationSpace, newVariableSpace) && allne(result.groups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v))
%begin
let ghost n0 = result.groups; let ghost ga = this.groups[$i];
assert(gfit(ga, this.equationSpace, this.variableSpace)); lemma_ix(ga.keys); gb = ga;
%end
let k = $i - 1;
lemma_ghas_step(this.groups, k); lemma_ghas_push(n0, gb); if gb.keys.root is None { lemma_ghas_none(gb); } lemma_ix(gb.keys);
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(gb, e, v) == (ghas(ga, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v)) by { assert(afv(gb.accessFunction, e) == afv(ga.accessFunction, e)); }
if gb.keys.root is Some { assert(gfit(gb, newEquationSpace, newVariableSpace)) by { assert forall|e: Seq<int>| #[trigger] iin(gb.keys, e) implies iin(newEquationSpace, e) && iin(newVariableSpace, afv(gb.accessFunction, e)) by { assert(ghas(gb, e, afv(gb.accessFunction, e))); } } }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(result.groups, result.groups.len() as int, e, v) == (ghasn(this.groups, $i, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(this.groups, k, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v))); assert(ghasn(this.groups, k + 1, e, v) == (ghasn(this.groups, k, e, v) || ghas(ga, e, v))); assert(ghas(gb, e, v) == (ghas(ga, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v))); if gb.keys.root is Some { assert(result.groups == n0.push(gb)); assert(ghasn(n0.push(gb), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(gb, e, v))); } else { assert(result.groups == n0); } }
%endloop
%aftercall Ix_intersect
gb = MCIMGroupGeneric { keys: $ret, accessFunction: gb.accessFunction }; lemma_ix($ret);
%aftercall Gg_addKeys
gb = $post; lemma_ix($2); let w = choose|p: Seq<int>| #[trigger] iin($2, p); assert(iin($post.keys, w));
%aftercall Ix_append
lemma_ix($ret); lemma_carts($ret, $1, $2);
%exit
lemma_ix(ret.points);
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) implies (#[trigger] mset(this, e, v) ==> iin(this.equationSpace, e) && iin(this.variableSpace, v)) by { if mset(this, e, v) { lemma_fit_ranks(this, e, v); } }
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) implies #[trigger] mset(ret, e, v) == (mset(this, e, v) && iin(newEquationSpace, e) && iin(newVariableSpace, v)) by { assert((e + v).subrange(0, erk(this)) =~= e); assert((e + v).subrange(erk(this), erk(this) + vrk(this)) =~= v); }
assert(ptfit(ret.points, ret.equationSpace, ret.variableSpace)) by { let a = erk(this); let b = vrk(this); assert forall|p: Seq<int>| #[trigger] iin(ret.points, p) implies iin(ret.equationSpace, p.subrange(0, a)) && iin(ret.variableSpace, p.subrange(a, a + b)) by { assert(p.subrange(0, a) + p.subrange(a, a + b) =~= p); } }
%endfn
%fn MC::apply(IX const&, marco::modeling::AccessFunction const&)
%name Mc_apply
%req
- mwf(this) && afe(access) == erk(this) && afr(access) == vrk(this) && iwf(equations) && (equations.root is Some ==> equations.allowedRank == erk(this))
- forall|p: Seq<int>| #[trigger] iin(equations, p) ==> iin(this.equationSpace, p)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the accesses within the variable space are added] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) || (iin(equations, e) && afv(access, e) == v && iin(this.variableSpace, v)))
%entry
lemma_ix(this.variableSpace); lemma_ix(this.equationSpace);
%aftercall afx_map_set
lemma_ix($ret);
%aftercall Ix_intersect
lemma_ix($ret);
%aftercall afx_inverse
let ghost fe = $ret;
lemma_ix(fe); assert forall|e: Seq<int>| #[trigger] iin(fe, e) == (iin(equations, e) && iin(this.variableSpace, afv(access, e))) by { if iin(equations, e) { assert(imgs(access, equations, afv(access, e))); } }
%loop 1
%inv
- $acc ==> sameaf(this.groups[$i].accessFunction, access)
%endloop
%aftercall Gg_build
lemma_ghas_push(this.groups, $ret); lemma_ghas_none($ret);
%aftercall Gg_addKeys
assert forall|i: int| 0 <= i < old_this.groups.len() implies gfit(#[trigger] old_this.groups[i], this.equationSpace, this.variableSpace) && old_this.groups[i].keys.root is Some by {}
lemma_ix($post.keys); assert(exists|p: Seq<int>| #[trigger] iin(fe, p)); let w = choose|p: Seq<int>| #[trigger] iin(fe, p); assert(iin($post.keys, w));
if this.groups.len() == old_this.groups.len() { lemma_ghas_update(old_this.groups, groupIt, $post, fe); assert(gfit(old_this.groups[groupIt], this.equationSpace, this.variableSpace)); }
else { let i = old_this.groups.len() as int; lemma_ghas_push(old_this.groups, $post); assert(this.groups =~= old_this.groups.push($post)); }
%exit
assert forall|i: int| 0 <= i < this.groups.len() implies gfit(#[trigger] this.groups[i], this.equationSpace, this.variableSpace) && this.groups[i].keys.root is Some by { if i < old_this.groups.len() { assert(gfit(old_this.groups[i], this.equationSpace, this.variableSpace)); } }
assert forall|e: Seq<int>, v: Seq<int>| e.len() == erk(old_this) && v.len() == vrk(old_this) implies #[trigger] mset(this, e, v) == (mset(old_this, e, v) || (iin(equations, e) && afv(access, e) == v && iin(old_this.variableSpace, v))) by {
    assert(iin(fe, e) == (iin(equations, e) && iin(old_this.variableSpace, afv(access, e))));
    assert(ghasn(this.groups, this.groups.len() as int, e, v) == (ghasn(old_this.groups, old_this.groups.len() as int, e, v) || (iin(fe, e) && afv(access, e) == v)));
}
%endfn
%fn MC::apply(marco::modeling::AccessFunction const&)
%name Mc_apply_all
%req
- mwf(this) && afe(access) == erk(this) && afr(access) == vrk(this)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the accesses within the variable space are added] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) || (iin(this.equationSpace, e) && afv(access, e) == v && iin(this.variableSpace, v)))
%endfn
%fn MC::apply(marco::modeling::MultidimensionalRange const&, marco::modeling::AccessFunction const&)
%name Mc_apply_box
%req
- mwf(this) && afe(access) == erk(this) && afr(access) == vrk(this) && bwf(equations) && equations.ranges.len() == erk(this)
- forall|p: Seq<int>| #[trigger] bin(equations, p) ==> iin(this.equationSpace, p)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the accesses within the variable space are added] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) || (bin(equations, e) && afv(access, e) == v && iin(this.variableSpace, v)))
%endfn
%fn MC::operator+=(marco::modeling::internal::MCIM const&)
%name Mc_plusassign
%req
- mwf(this) && mwf(rhs) && seqv(this.equationSpace, rhs.equationSpace) && seqv(this.variableSpace, rhs.variableSpace)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the pairs of either matrix] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) || mset(rhs, e, v))
%entry
let ghost a = erk(this); let ghost b = vrk(this);
lemma_ix(rhs.points); lemma_ipts(rhs.points); lemma_ptsall(rhs.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace);
%loop 1
%inv
- mwf(this) && this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace
- forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b ==> #[trigger] mset(this, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, $i, e, v))
%begin
let ghost t0 = this;
assert(gfit(rhs.groups[$i], rhs.equationSpace, rhs.variableSpace)); lemma_ghas_step(rhs.groups, $i); lemma_ix(rhs.groups[$i].keys);
%end
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b implies #[trigger] mset(this, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, $i, e, v)) by { let k = $i - 1; assert(mset(t0, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, k, e, v))); assert(ghasn(rhs.groups, k + 1, e, v) == (ghasn(rhs.groups, k, e, v) || ghas(rhs.groups[k], e, v))); }
%endloop
%loop 2
%inv
- mwf(this) && this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace
- forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b ==> #[trigger] mset(this, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, rhs.groups.len() as int, e, v) || ptsn(rhs.points, $i, e + v))
%begin
let ghost t0 = this; let ghost pt = ipts(rhs.points)[$i].values;
assert(iin(rhs.points, pt)); assert(pt.subrange(0, a) + pt.subrange(a, a + b) =~= pt); lemma_ptsn(rhs.points, $i);
%end
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b implies #[trigger] mset(this, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, rhs.groups.len() as int, e, v) || ptsn(rhs.points, $i, e + v)) by { let k = $i - 1; lemma_cat(e, v, pt.subrange(0, a), pt.subrange(a, a + b)); assert(mset(t0, e, v) == (mset(old_this, e, v) || ghasn(rhs.groups, rhs.groups.len() as int, e, v) || ptsn(rhs.points, k, e + v))); assert(ptsn(rhs.points, k + 1, e + v) == (ptsn(rhs.points, k, e + v) || pt == e + v)); }
%endloop
%beforecall Mc_set
let ghost qe = $2.values; let ghost qv = $3.values;
assert(qe =~= pt.subrange(0, a)); assert(qv =~= pt.subrange(a, a + b));
%exit
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b implies #[trigger] mset(this, e, v) == (mset(old_this, e, v) || mset(rhs, e, v)) by { assert(ptsn(rhs.points, ipts(rhs.points).len() as int, e + v) == iin(rhs.points, e + v)); }
%endfn
%fn MC::operator+(marco::modeling::internal::MCIM const&) const
%name Mc_plus
%req
- mwf(this) && mwf(rhs) && seqv(this.equationSpace, rhs.equationSpace) && seqv(this.variableSpace, rhs.variableSpace)
%ens
- mwf(ret) && ret.equationSpace == this.equationSpace && ret.variableSpace == this.variableSpace
- [exactly the pairs of either matrix] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(ret, e, v) == (mset(this, e, v) || mset(rhs, e, v))
%endfn
%fn MC::operator-=(marco::modeling::internal::MCIM const&)
%name Mc_minusassign
%attr #[verifier::spinoff_prover]
%req
- mwf(this) && mwf(rhs) && seqv(this.equationSpace, rhs.equationSpace) && seqv(this.variableSpace, rhs.variableSpace)
%ens
- mwf(post_this) && post_this.equationSpace == this.equationSpace && post_this.variableSpace == this.variableSpace
- [exactly the pairs of this matrix that the other lacks] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(post_this, e, v) == (mset(this, e, v) && !mset(rhs, e, v))
%entry
let ghost mut mode: int = 0; let ghost mut gx: MCIMGroupGeneric = arbitrary(); let ghost mut rx: MCIMGroupGeneric = arbitrary();
let ghost a = erk(this); let ghost b = vrk(this); let ghost R = rhs.groups; let ghost nr = rhs.groups.len() as int;
lemma_ix(rhs.points); lemma_ix(this.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace);
assert forall|j: int| 0 <= j < this.groups.len() implies gs0(#[trigger] this.groups[j], this.groups[j], R, 0) && gfit(this.groups[j], this.equationSpace, this.variableSpace) by { assert(gfit(this.groups[j], this.equationSpace, this.variableSpace)); }
%loop 1
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- forall|j: int| 0 <= j < this.groups.len() ==> gs0(old_this.groups[j], #[trigger] this.groups[j], R, $i)
%begin
assert(gfit(R[$i], rhs.equationSpace, rhs.variableSpace)); lemma_ix(R[$i].keys); lemma_ghas_step(R, $i);
%endloop
%loop 2
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace && this.points == old_this.points && this.groups.len() == old_this.groups.len()
- forall|j: int| 0 <= j < this.groups.len() ==> gs0(old_this.groups[j], #[trigger] this.groups[j], R, if j < $i { $i_1 + 1 } else { $i_1 })
%begin
let ghost g0 = this.groups[$i]; let ghost t0 = this; let ghost rg = R[$i_1]; let ghost mut stage: int = 0;
mode = 1; gx = g0; rx = rg;
assert(gs0(old_this.groups[$i], g0, R, $i_1)); assert(gfit(old_this.groups[$i], old_this.equationSpace, old_this.variableSpace)); lemma_ix(g0.keys); lemma_ix(rg.keys);
%end
let j1 = $i - 1; let gn = this.groups[j1];
assert forall|k: Seq<int>| #[trigger] iin(gn.keys, k) == (iin(g0.keys, k) && !ghas(rg, k, afv(g0.accessFunction, k))) by { if iin(g0.keys, k) && iin(rg.keys, k) {} }
assert(gs0(old_this.groups[j1], gn, R, $i_1 + 1)) by { assert forall|k: Seq<int>| #[trigger] iin(gn.keys, k) == (iin(old_this.groups[j1].keys, k) && !ghasn(R, $i_1 + 1, k, afv(g0.accessFunction, k))) by { assert(ghasn(R, $i_1 + 1, k, afv(g0.accessFunction, k)) == (ghasn(R, $i_1, k, afv(g0.accessFunction, k)) || ghas(rg, k, afv(g0.accessFunction, k)))); assert(iin(g0.keys, k) == (iin(old_this.groups[j1].keys, k) && !ghasn(R, $i_1, k, afv(g0.accessFunction, k)))); } }
assert forall|j: int| 0 <= j < this.groups.len() implies gs0(old_this.groups[j], #[trigger] this.groups[j], R, if j < $i { $i_1 + 1 } else { $i_1 }) by { if j != j1 { assert(this.groups[j] == t0.groups[j]); assert(gs0(old_this.groups[j], t0.groups[j], R, if j < j1 { $i_1 + 1 } else { $i_1 })); } }
%endloop
%aftercall Ix_intersect
lemma_ix($ret);
if stage == 0 { assert forall|k: Seq<int>| #[trigger] iin(rg.keys, k) && iin(g0.keys, k) && afv(rg.accessFunction, k) == afv(g0.accessFunction, k) implies $ret.root is Some && iin($ret, afv(g0.accessFunction, k)) by { assert(imgs(g0.accessFunction, g0.keys, afv(g0.accessFunction, k))); assert(imgs(rg.accessFunction, rg.keys, afv(rg.accessFunction, k))); assert(iin($ret, afv(g0.accessFunction, k))); } }
else { assert forall|k: Seq<int>| #[trigger] iin(rg.keys, k) && iin(g0.keys, k) && afv(rg.accessFunction, k) == afv(g0.accessFunction, k) implies iin($ret, k) by {} }
stage = stage + 1;
%aftercall Gg_getValues
lemma_ix($ret);
%aftercall afx_inverse
lemma_ix($ret);
if mode == 1 { assert forall|k: Seq<int>| #[trigger] iin(rx.keys, k) && iin(gx.keys, k) && afv(rx.accessFunction, k) == afv(gx.accessFunction, k) implies iin($ret, k) by {} }
%aftercall Ix_intersect_box
lemma_ix($ret);
%loop 3
%before
lemma_ix(@commonKeys); lemma_ipts(@commonKeys); lemma_ptsall(@commonKeys);
%inv
- iwf(@removedKeys) && (@removedKeys.initialized ==> @removedKeys.allowedRank == a)
- forall|k: Seq<int>| #[trigger] iin(@removedKeys, k) == (ptsn(@commonKeys, $i, k) && afv(g0.accessFunction, k) == afv(rg.accessFunction, k))
%begin
let ghost kk = ipts(@commonKeys)[$i].values;
lemma_ptsn(@commonKeys, $i);
%aftercall Rt_eq
lemma_ix($1); lemma_ix($2); assert(iin($1, afv(g0.accessFunction, kk)) && iin($2, afv(rg.accessFunction, kk)));
%after
assert forall|k: Seq<int>| #[trigger] iin(@removedKeys, k) == (iin(g0.keys, k) && iin(rg.keys, k) && afv(g0.accessFunction, k) == afv(rg.accessFunction, k)) by { assert(ptsn(@commonKeys, ipts(@commonKeys).len() as int, k) == iin(@commonKeys, k)); if iin(rg.keys, k) {} }
%endloop
%loop 4
%before
lemma_ipts(this.points); lemma_ptsall(this.points);
%inv
- iwf(@removedPoints) && (@removedPoints.initialized ==> @removedPoints.allowedRank == a + b)
- forall|p: Seq<int>| #[trigger] iin(@removedPoints, p) == (ptsn(this.points, $i, p) && ghasn(R, nr, p.subrange(0, a), p.subrange(a, a + b)))
%begin
let ghost pt = ipts(this.points)[$i].values;
lemma_ptsn(this.points, $i);
%endloop
%loop 5
%inv
- @equation.values =~= pt.subrange(0, a) && @variable.values =~= pt.subrange(a, a + b)
- $acc == ghasn(R, $i, pt.subrange(0, a), pt.subrange(a, a + b))
%begin
assert(gfit(R[$i], rhs.equationSpace, rhs.variableSpace)); lemma_ghas_step(R, $i); assert(ghasn(R, $i + 1, pt.subrange(0, a), pt.subrange(a, a + b)) == (ghasn(R, $i, pt.subrange(0, a), pt.subrange(a, a + b)) || ghas(R[$i], pt.subrange(0, a), pt.subrange(a, a + b))));
%after
assert($acc == ghasn(R, nr, pt.subrange(0, a), pt.subrange(a, a + b))) by { if ghasn(R, $i, pt.subrange(0, a), pt.subrange(a, a + b)) { let z = choose|z: int| 0 <= z < $i && ghas(#[trigger] R[z], pt.subrange(0, a), pt.subrange(a, a + b)); assert(0 <= z < nr); } }
%endloop
%loop 6
%before
mode = 0;
let ghost p1 = this.points; let ghost og = @oldGroups;
%inv
- this.equationSpace == old_this.equationSpace && this.variableSpace == old_this.variableSpace && this.points == p1 && @oldGroups.len() == og.len()
- forall|j: int| $i <= j < og.len() ==> #[trigger] @oldGroups[j] == og[j]
- allfit(this.groups, this.equationSpace, this.variableSpace) && allne(this.groups)
- forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(this.groups, this.groups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && !ghasn(R, nr, e, v) && !iin(rhs.points, e + v))
%begin
let ghost n0 = this.groups; let ghost ga = old_this.groups[$i]; let ghost g6 = og[$i];
assert(@oldGroups[$i] == g6);
assert(gs0(ga, g6, R, nr)); assert(gfit(ga, old_this.equationSpace, old_this.variableSpace)); lemma_ix(g6.keys);
if g6.keys.root is None { lemma_ghas_none(g6); }
%end
let k6 = $i - 1; let gn = @oldGroups[k6];
lemma_ghas_step(old_this.groups, k6); lemma_ghas_push(n0, gn); if gn.keys.root is None { lemma_ghas_none(gn); } lemma_ix(gn.keys);
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghas(gn, e, v) == (ghas(ga, e, v) && !ghasn(R, nr, e, v) && !iin(rhs.points, e + v)) by { assert(iin(g6.keys, e) == (iin(ga.keys, e) && !ghasn(R, nr, e, afv(ga.accessFunction, e)))); if g6.keys.root is None { assert(!iin(g6.keys, e)); } else { assert(iin(gn.keys, e) == (iin(g6.keys, e) && !iin(rhs.points, e + afv(ga.accessFunction, e)))); } }
if gn.keys.root is Some { assert(gfit(gn, this.equationSpace, this.variableSpace)) by { assert forall|e: Seq<int>| #[trigger] iin(gn.keys, e) implies iin(this.equationSpace, e) && iin(this.variableSpace, afv(gn.accessFunction, e)) by { assert(ghas(gn, e, afv(gn.accessFunction, e))); } } }
assert forall|e: Seq<int>, v: Seq<int>| #[trigger] ghasn(this.groups, this.groups.len() as int, e, v) == (ghasn(old_this.groups, $i, e, v) && !ghasn(R, nr, e, v) && !iin(rhs.points, e + v)) by { assert(ghasn(n0, n0.len() as int, e, v) == (ghasn(old_this.groups, k6, e, v) && !ghasn(R, nr, e, v) && !iin(rhs.points, e + v))); assert(ghasn(old_this.groups, k6 + 1, e, v) == (ghasn(old_this.groups, k6, e, v) || ghas(ga, e, v))); assert(ghas(gn, e, v) == (ghas(ga, e, v) && !ghasn(R, nr, e, v) && !iin(rhs.points, e + v))); if gn.keys.root is Some { assert(this.groups == n0.push(gn)); assert(ghasn(n0.push(gn), n0.len() as int + 1, e, v) == (ghasn(n0, n0.len() as int, e, v) || ghas(gn, e, v))); } else { assert(this.groups == n0); } }
%endloop
%loop 7
%before
lemma_iflat(rhs.points); assert(iflat(rhs.points).subrange(0, iflat(rhs.points).len() as int) =~= iflat(rhs.points));
%inv
- @oldGroups.len() == og.len() && (forall|j: int| $i_6 < j < og.len() ==> #[trigger] @oldGroups[j] == og[j])
- gwf(@oldGroups[$i_6]) && @oldGroups[$i_6].accessFunction == g6.accessFunction
- forall|k: Seq<int>| #[trigger] iin(@oldGroups[$i_6].keys, k) == (iin(g6.keys, k) && !anyin(iflat(rhs.points).subrange(0, $i), k + afv(ga.accessFunction, k)))
%begin
let ghost g7 = @oldGroups[$i_6]; let ghost og7 = @oldGroups; let ghost bx = iflat(rhs.points)[$i];
lemma_ix(g7.keys);
assert(bwf(bx)); assert(bx.ranges =~= bx.ranges.subrange(0, a) + bx.ranges.subrange(a, a + b));
assert(iflat(rhs.points).subrange(0, $i + 1) =~= iflat(rhs.points).subrange(0, $i).push(bx));
%end
assert forall|k: Seq<int>| #[trigger] iin(@oldGroups[$i_6].keys, k) == (iin(g6.keys, k) && !anyin(iflat(rhs.points).subrange(0, $i), k + afv(ga.accessFunction, k))) by { let w = afv(ga.accessFunction, k); let q = k + w; lemma_anyin_push(iflat(rhs.points).subrange(0, $i - 1), bx, q); assert(iin(g7.keys, k) == (iin(g6.keys, k) && !anyin(iflat(rhs.points).subrange(0, $i - 1), q)));
  if iin(g6.keys, k) { assert(iin(ga.keys, k)); assert(iin(old_this.variableSpace, w)); lemma_cat(k, w, k, w); lemma_concat_points(bx.ranges.subrange(0, a), bx.ranges.subrange(a, a + b), q); } }
assert forall|j: int| $i_6 < j < og.len() implies #[trigger] @oldGroups[j] == og[j] by { assert(og7[j] == og[j]); }
%after
assert forall|k: Seq<int>| #[trigger] iin(@oldGroups[$i_6].keys, k) == (iin(g6.keys, k) && !iin(rhs.points, k + afv(ga.accessFunction, k))) by {}
%endloop
%aftercall Ix_from_boxes
assert forall|q: Seq<int>| #[trigger] iin($ret, q) == bin($1[0], q) by { lemma_anyin_push(Seq::empty(), $1[0], q); assert(!anyin(Seq::empty(), q)); }
%exit
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b implies #[trigger] mset(this, e, v) == (mset(old_this, e, v) && !mset(rhs, e, v)) by { assert((e + v).subrange(0, a) =~= e); assert((e + v).subrange(a, a + b) =~= v); assert(ptsn(old_this.points, ipts(old_this.points).len() as int, e + v) == iin(old_this.points, e + v)); }
assert(ptfit(this.points, this.equationSpace, this.variableSpace));
%endfn
%fn MC::operator-(marco::modeling::internal::MCIM const&) const
%name Mc_minus
%req
- mwf(this) && mwf(rhs) && seqv(this.equationSpace, rhs.equationSpace) && seqv(this.variableSpace, rhs.variableSpace)
%ens
- mwf(ret) && ret.equationSpace == this.equationSpace && ret.variableSpace == this.variableSpace
- [exactly the pairs of this matrix that the other lacks] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) ==> #[trigger] mset(ret, e, v) == (mset(this, e, v) && !mset(rhs, e, v))
%endfn
// ---- groups of accesses to a constant element: the same contracts as for the generic groups
%ghosttype AccessFunctionAffineConstant = AFn
%extfn getMappedPoint AFn = afx_mapped
%prelude
#[verifier::external_body] fn afx_mapped(Ghost(f): Ghost<AFn>) -> (r: Ghost<Option<Point>>) ensures r@ is Some && r@->0.values.len() == afr(f) && cok(r@->0.values) && forall|k: Seq<int>| k.len() == afe(f) ==> #[trigger] afv(f, k) == r@->0.values { unimplemented!() } //@lib AccessFunctionAffineConstant::getMappedPoint: the contract of C10
pub open spec fn cwf(g: MCIMGroupAffineConstant) -> bool { afe(g.accessFunction) >= 0 && iwf(g.keys) && (g.keys.initialized ==> g.keys.allowedRank == afe(g.accessFunction)) && iwf(g.mapped) && (g.mapped.root is Some ==> g.mapped.allowedRank == afr(g.accessFunction)) && g.mapped.root is Some && forall|k: Seq<int>, v: Seq<int>| k.len() == afe(g.accessFunction) ==> #[trigger] iin(g.mapped, v) == (#[trigger] afv(g.accessFunction, k) == v) }
pub open spec fn chas(g: MCIMGroupAffineConstant, k: Seq<int>, v: Seq<int>) -> bool { iin(g.keys, k) && afv(g.accessFunction, k) == v }
pub proof fn lemma_single(x: IndexSet) requires iwf(x), forall|p: Seq<int>, q: Seq<int>| #[trigger] iin(x, p) && #[trigger] iin(x, q) ==> p == q
 ensures forall|k: int| 0 <= k < iflat(x).len() ==> fits((#[trigger] iflat(x)[k]).ranges)
{ lemma_iflat(x);
  assert forall|k: int| 0 <= k < iflat(x).len() implies fits((#[trigger] iflat(x)[k]).ranges) by {
    let s = iflat(x)[k].ranges; assert(bwf(iflat(x)[k]));
    assert forall|i: int| 0 <= i < s.len() implies rlen(#[trigger] s[i]) <= 0x7fff_ffff_ffff_ffff by {
      let p = Seq::new(s.len(), |j: int| s[j].begin_ as int); let q = Seq::new(s.len(), |j: int| if j == i { s[j].end_ - 1 } else { s[j].begin_ as int });
      assert(sin(s, p)) by { assert forall|j: int| 0 <= j < s.len() implies rin(#[trigger] s[j], p[j]) by { assert(rwf(iflat(x)[k].ranges[j])); } }
      assert(sin(s, q)) by { assert forall|j: int| 0 <= j < s.len() implies rin(#[trigger] s[j], q[j]) by { assert(rwf(iflat(x)[k].ranges[j])); } }
      assert(bin(iflat(x)[k], p)); assert(bin(iflat(x)[k], q)); assert(iin(x, p)); assert(iin(x, q)); assert(p[i] == q[i]);
    } } }
%end
%fn GA::MCIMGroupAffineConstant(marco::modeling::AccessFunctionAffineConstant const&)
%name Ga_ctor
%req
- afr(accessFunction) > 0 && afe(accessFunction) >= 0
%ens
- cwf(ret) && sameaf(ret.accessFunction, accessFunction) && ret.keys.root is None && !ret.keys.initialized
%entry
let ghost mut m1: Seq<int> = Seq::empty();
%aftercall afx_mapped
m1 = $ret->0.values;
%exit
lemma_ix(ret.mapped); let fo = accessFunction; let m0 = m1;
assert(iin(ret.mapped, m0)); assert(sameaf(ret.accessFunction, fo)); assert(iwf(ret.keys)); assert(iwf(ret.mapped));assert(ret.mapped.root is Some); assert(ret.mapped.allowedRank == afr(fo));
assert forall|k: Seq<int>, v: Seq<int>| k.len() == afe(ret.accessFunction) implies #[trigger] iin(ret.mapped, v) == (#[trigger] afv(ret.accessFunction, k) == v) by { assert(afv(ret.accessFunction, k) == afv(fo, k)); assert(afv(fo, k) == m0); }
%endfn
%fn GA::has(PT const&, PT const&) const
%name Ga_has
%req
- cwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values)
%ens
- [membership of the pair] ret == chas(this, key.values, value.values)
%endfn
%fn GA::hasValue(PT const&) const
%name Ga_hasValue
%req
- cwf(this) && this.keys.root is Some && point.values.len() == afr(this.accessFunction) && cok(point.values)
%ens
- ret == imgs(this.accessFunction, this.keys, point.values)
%entry
lemma_ix(this.keys);
%endfn
%fn GA::removeValues(IX const&)
%name Ga_removeValues
%req
- cwf(this) && iwf(removedValues) && (removedValues.root is Some ==> removedValues.allowedRank == afr(this.accessFunction))
%ens
- cwf(post_this) && post_this.accessFunction == this.accessFunction
- [the keys with such a value are removed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) && !iin(removedValues, afv(this.accessFunction, k)))
%entry
lemma_ix(this.keys); lemma_ix(this.mapped); lemma_ix(removedValues);
%endfn
%fn GA::set(PT const&, PT const&)
%name Ga_set
%req
- cwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values) && key.values.len() > 0 && value.values.len() > 0
%ens
- cwf(post_this) && post_this.accessFunction == this.accessFunction
- [tells whether the access function allows the pair] ret == (afv(this.accessFunction, key.values) == value.values)
- [the pair is added when it is allowed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) || (ret && k == key.values))
%endfn
%fn GA::unset(PT const&, PT const&)
%name Ga_unset
%req
- cwf(this) && key.values.len() == afe(this.accessFunction) && cok(key.values) && value.values.len() == afr(this.accessFunction) && cok(value.values) && key.values.len() > 0 && value.values.len() > 0
%ens
- cwf(post_this) && post_this.accessFunction == this.accessFunction
- [exactly the pair is removed] forall|k: Seq<int>| #[trigger] iin(post_this.keys, k) == (iin(this.keys, k) && !(k == key.values && afv(this.accessFunction, k) == value.values))
%entry
lemma_ix(this.keys);
%endfn
%fn GA::filterValues(IX const&) const
%name Ga_filterValues
%req
- cwf(this) && iwf(filter) && (filter.root is Some ==> filter.allowedRank == afr(this.accessFunction)) && (forall|k: int| 0 <= k < iflat(filter).len() ==> fits((#[trigger] iflat(filter)[k]).ranges)) && vol(iflat(filter)) <= 0xffff_ffff_ffff_ffff && vol(iflat(this.mapped)) <= 0xffff_ffff_ffff_ffff
%ens
- gwf(ret) && sameaf(ret.accessFunction, this.accessFunction)
- [the keys whose value is among the given ones] forall|k: Seq<int>| #[trigger] iin(ret.keys, k) == (iin(this.keys, k) && iin(filter, afv(this.accessFunction, k)))
%entry
lemma_ix(this.keys); lemma_ix(this.mapped); lemma_ix(filter); let k0 = Seq::new(afe(this.accessFunction) as nat, |j: int| 0int); assert(afe(this.accessFunction) >= 0 ==> k0.len() == afe(this.accessFunction)); assert forall|p: Seq<int>, q: Seq<int>| #[trigger] iin(this.mapped, p) && #[trigger] iin(this.mapped, q) implies p == q by { let v = afv(this.accessFunction, k0); }
lemma_single(this.mapped);
%endfn
%fn GA::clone() const
%name Ga_clone
%req
- cwf(this)
%ens
- gwf(ret) && sameaf(ret.accessFunction, this.accessFunction) && ret.keys == this.keys
%endfn
