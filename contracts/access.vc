%alias data_type = int64_t
%ghosttype MLIRContext = MCtx
%ghosttype AffineExpr = AExpr
%ghosttype AffineDimExpr = AExpr
%ghosttype AffineConstantExpr = AExpr
%ghosttype AffineBinaryOpExpr = AExpr
%ghosttype AffineExprKind = AK
%ghosttype AffineMap = AMap
%ghosttype AccessFunction = AFn
%extbool AExpr = !($x is Null)
%extbool AFn = !($x is Null)
%extnull AFn = AFn::Null
%extconst AK Add = AK::Add
%extconst AK Mul = AK::Mul
%extconst AK Mod = AK::Mod
%extconst AK FloorDiv = AK::FloorDiv
%extconst AK CeilDiv = AK::CeilDiv
%extfn dyn_cast AExpr AffineDimExpr = ml_dyn_dim
%extfn dyn_cast AExpr AffineConstantExpr = ml_dyn_const
%extfn dyn_cast AExpr AffineBinaryOpExpr = ml_dyn_bin
%extfn cast AExpr AffineConstantExpr = ml_cast_const
%extfn getPosition AExpr = ml_position
%extfn getValue AExpr = ml_value
%extfn getKind AExpr = ml_kind
%extfn getLHS AExpr = ml_lhs
%extfn getRHS AExpr = ml_rhs
%extfn getContext AExpr = ml_ctx_e
%extfn getContext AMap = ml_ctx_m
%extfn getAffineDimExpr * = ml_dim
%extfn getAffineConstantExpr * = ml_const
%extfn operator+ AExpr = ml_add
%extfn operator- AExpr = ml_sub
%extfn operator* AExpr = ml_mul
%extfn floorDiv AExpr = ml_floordiv
%extfn getNumDims AMap = ml_numdims
%extfn getNumResults AMap = ml_numresults
%extfn getNumSymbols AMap = ml_numsymbols
%extfn getResults AMap = ml_results
%extfn getResult AMap = ml_result
%extfn isConstant AMap = ml_isconst
%extfn compose AMap AffineMap = ml_compose
%extfn compose AMap = ml_apply
%extfn simplifyAffineMap AMap = ml_simplify
%extfn get int/4 AffineMap = ml_map
%extfn build AMap AccessFunction = af_build
%extfn map AFn/2 = af_map
%extfn map AccessFunction/2 = af_map_this
%ghostfield AccessFunction.af : AFn
%iterview IndexSet = ipts($x) : marco::modeling::Point

%prelude
// ---- MLIR's affine expressions and maps as mathematical objects (assumed contracts: ml_*)
pub struct MCtx { pub x: int }
pub enum AK { Add, Mul, Mod, FloorDiv, CeilDiv, Constant, DimId, SymbolId }
pub enum AExpr { Null, Const(int), Dim(int), Bin(AK, Box<AExpr>, Box<AExpr>) }
pub struct AMap { pub dims: int, pub res: Seq<AExpr> }
pub enum AFn { Null, Fn(AMap), Gen(int, Seq<DAcc>) }
pub open spec fn fdiv(a: int, b: int) -> int { if b > 0 { a / b } else if b < 0 { (-a) / (-b) } else { 0 } }
pub open spec fn aeval(e: AExpr, p: Seq<int>) -> int decreases e {
    match e { AExpr::Null => 0, AExpr::Const(c) => c, AExpr::Dim(d) => p[d], AExpr::Bin(k, l, r) => bineval(k, aeval(*l, p), aeval(*r, p)) } }
pub open spec fn bineval(k: AK, a: int, b: int) -> int { match k { AK::Add => a + b, AK::Mul => a * b, AK::Mod => a - fdiv(a, b) * b, AK::FloorDiv => fdiv(a, b), AK::CeilDiv => -fdiv(-a, b), _ => 0 } }
pub open spec fn binkind(k: AK) -> bool { k is Add || k is Mul || k is Mod || k is FloorDiv || k is CeilDiv }
pub open spec fn i64ok(x: int) -> bool { -9223372036854775808 <= x <= 9223372036854775807 }
// a well-formed expression over n dimensions
pub open spec fn aok(e: AExpr, n: int) -> bool decreases e {
    match e { AExpr::Null => false, AExpr::Const(c) => i64ok(c), AExpr::Dim(d) => 0 <= d < n, AExpr::Bin(k, l, r) => binkind(k) && aok(*l, n) && aok(*r, n) } }
pub open spec fn amok(m: AMap) -> bool { 0 <= m.dims <= 0xffff_ffff && m.res.len() <= 0xffff_ffff && forall|i: int| 0 <= i < m.res.len() ==> aok(#[trigger] m.res[i], m.dims) }
// the point a map yields for a point
pub open spec fn mev(m: AMap, p: Seq<int>) -> Seq<int> { Seq::new(m.res.len(), |i: int| aeval(m.res[i], p)) }
pub open spec fn mfit(m: AMap, p: Seq<int>) -> bool { forall|i: int| 0 <= i < m.res.len() ==> i64ok(aeval(#[trigger] m.res[i], p)) }
pub proof fn lemma_aeval_prefix(e: AExpr, n: int, p: Seq<int>, q: Seq<int>)
    requires aok(e, n), n <= p.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> p[i] == q[i]
    ensures aeval(e, p) == aeval(e, q)
    decreases e
{ match e { AExpr::Bin(k, l, r) => { lemma_aeval_prefix(*l, n, p, q); lemma_aeval_prefix(*r, n, p, q); }, _ => {} } }
pub proof fn lemma_aok_mono(e: AExpr, n: int, m: int) requires aok(e, n), n <= m ensures aok(e, m) decreases e
{ match e { AExpr::Bin(k, l, r) => { lemma_aok_mono(*l, n, m); lemma_aok_mono(*r, n, m); }, _ => {} } }
// same value everywhere
pub open spec fn aeq(a: AExpr, b: AExpr) -> bool { forall|p: Seq<int>| #[trigger] aeval(a, p) == aeval(b, p) }
#[verifier::external_body] fn ml_dyn_dim(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(e is Null) ensures r@ == (if e is Dim { e } else { AExpr::Null }) { unimplemented!() } //@lib mlir::dyn_cast
#[verifier::external_body] fn ml_dyn_const(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(e is Null) ensures r@ == (if e is Const { e } else { AExpr::Null }) { unimplemented!() } //@lib mlir::dyn_cast
#[verifier::external_body] fn ml_dyn_bin(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(e is Null) ensures r@ == (if e is Bin { e } else { AExpr::Null }) { unimplemented!() } //@lib mlir::dyn_cast
#[verifier::external_body] fn ml_cast_const(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires e is Const ensures r@ == e { unimplemented!() } //@lib mlir::cast
#[verifier::external_body] fn ml_position(Ghost(e): Ghost<AExpr>) -> (r: Ghost<int>) requires e is Dim ensures r@ == e->Dim_0 { unimplemented!() } //@lib AffineDimExpr::getPosition
#[verifier::external_body] fn ml_value(Ghost(e): Ghost<AExpr>) -> (r: Ghost<int>) requires e is Const ensures r@ == e->Const_0 { unimplemented!() } //@lib AffineConstantExpr::getValue
#[verifier::external_body] fn ml_kind(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AK>) requires !(e is Null) ensures r@ == (match e { AExpr::Bin(k, l, x) => k, AExpr::Const(c) => AK::Constant, _ => AK::DimId }) { unimplemented!() } //@lib AffineExpr::getKind
#[verifier::external_body] fn ml_lhs(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires e is Bin ensures r@ == *e->Bin_1 { unimplemented!() } //@lib AffineBinaryOpExpr::getLHS
#[verifier::external_body] fn ml_rhs(Ghost(e): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires e is Bin ensures r@ == *e->Bin_2 { unimplemented!() } //@lib AffineBinaryOpExpr::getRHS
#[verifier::external_body] fn ml_ctx_e(Ghost(e): Ghost<AExpr>) -> (r: Ghost<MCtx>) { unimplemented!() } //@lib getContext
#[verifier::external_body] fn ml_ctx_m(Ghost(e): Ghost<AMap>) -> (r: Ghost<MCtx>) { unimplemented!() } //@lib getContext
#[verifier::external_body] fn ml_dim(Ghost(n): Ghost<int>, Ghost(c): Ghost<MCtx>) -> (r: Ghost<AExpr>) requires 0 <= n ensures r@ == AExpr::Dim(n) { unimplemented!() } //@lib mlir::getAffineDimExpr
#[verifier::external_body] fn ml_const(Ghost(n): Ghost<int>, Ghost(c): Ghost<MCtx>) -> (r: Ghost<AExpr>) ensures r@ == AExpr::Const(n) { unimplemented!() } //@lib mlir::getAffineConstantExpr
// MLIR simplifies what it builds: only the value is specified
#[verifier::external_body] fn ml_add(Ghost(a): Ghost<AExpr>, Ghost(b): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(a is Null), !(b is Null) ensures !(r@ is Null), forall|p: Seq<int>| #[trigger] aeval(r@, p) == aeval(a, p) + aeval(b, p), forall|n: int| aok(a, n) && aok(b, n) ==> #[trigger] aok(r@, n), ((a is Dim && b is Const) || (a is Const && b is Dim)) ==> roto(r@) { unimplemented!() } //@lib AffineExpr::operator+
#[verifier::external_body] fn ml_sub(Ghost(a): Ghost<AExpr>, Ghost(b): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(a is Null), !(b is Null) ensures !(r@ is Null), forall|p: Seq<int>| #[trigger] aeval(r@, p) == aeval(a, p) - aeval(b, p), forall|n: int| aok(a, n) && aok(b, n) ==> #[trigger] aok(r@, n) { unimplemented!() } //@lib AffineExpr::operator-
#[verifier::external_body] fn ml_mul(Ghost(a): Ghost<AExpr>, Ghost(b): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(a is Null), !(b is Null) ensures !(r@ is Null), forall|p: Seq<int>| #[trigger] aeval(r@, p) == aeval(a, p) * aeval(b, p), forall|n: int| aok(a, n) && aok(b, n) ==> #[trigger] aok(r@, n) { unimplemented!() } //@lib AffineExpr::operator*
#[verifier::external_body] fn ml_floordiv(Ghost(a): Ghost<AExpr>, Ghost(b): Ghost<AExpr>) -> (r: Ghost<AExpr>) requires !(a is Null), !(b is Null) ensures !(r@ is Null), forall|p: Seq<int>| aeval(b, p) != 0 ==> #[trigger] aeval(r@, p) == fdiv(aeval(a, p), aeval(b, p)), forall|n: int| aok(a, n) && aok(b, n) ==> #[trigger] aok(r@, n) { unimplemented!() } //@lib AffineExpr::floorDiv
#[verifier::external_body] fn ml_numdims(Ghost(m): Ghost<AMap>) -> (r: Ghost<int>) ensures r@ == m.dims { unimplemented!() } //@lib AffineMap::getNumDims
#[verifier::external_body] fn ml_numsymbols(Ghost(m): Ghost<AMap>) -> (r: Ghost<int>) ensures r@ == 0 { unimplemented!() } //@lib AffineMap::getNumSymbols
#[verifier::external_body] fn ml_numresults(Ghost(m): Ghost<AMap>) -> (r: Ghost<int>) ensures r@ == m.res.len() { unimplemented!() } //@lib AffineMap::getNumResults
#[verifier::external_body] fn ml_results(Ghost(m): Ghost<AMap>) -> (r: Ghost<Seq<AExpr>>) ensures r@ == m.res { unimplemented!() } //@lib AffineMap::getResults
#[verifier::external_body] fn ml_result(Ghost(m): Ghost<AMap>, Ghost(i): Ghost<int>) -> (r: Ghost<AExpr>) requires 0 <= i < m.res.len() ensures r@ == m.res[i] { unimplemented!() } //@lib AffineMap::getResult
#[verifier::external_body] fn ml_isconst(Ghost(m): Ghost<AMap>) -> (r: Ghost<bool>) ensures r@ == (forall|i: int| 0 <= i < m.res.len() ==> #[trigger] m.res[i] is Const) { unimplemented!() } //@lib AffineMap::isConstant
#[verifier::external_body] fn ml_map(Ghost(d): Ghost<int>, Ghost(s): Ghost<int>, Ghost(es): Ghost<Seq<AExpr>>, Ghost(c): Ghost<MCtx>) -> (r: Ghost<AMap>) requires s == 0, forall|i: int| 0 <= i < es.len() ==> aok(#[trigger] es[i], d) ensures r@ == (AMap { dims: d, res: es }) { unimplemented!() } //@lib AffineMap::get
// the value at a point; the coordinates have to fit (MLIR computes with 64-bit integers)
#[verifier::external_body] fn ml_apply(Ghost(m): Ghost<AMap>, Ghost(p): Ghost<Seq<int>>) -> (r: Ghost<Seq<int>>) requires amok(m), p.len() == m.dims, mfit(m, p) ensures r@ == mev(m, p) { unimplemented!() } //@lib AffineMap::compose(ArrayRef<int64_t>)
#[verifier::external_body] fn ml_compose(Ghost(m): Ghost<AMap>, Ghost(n): Ghost<AMap>) -> (r: Ghost<AMap>) requires amok(m), amok(n), m.dims == n.res.len() ensures amok(r@), r@.dims == n.dims, r@.res.len() == m.res.len(), forall|p: Seq<int>| p.len() >= n.dims ==> #[trigger] mev(r@, p) == mev(m, mev(n, p)) { unimplemented!() } //@lib AffineMap::compose(AffineMap)
#[verifier::external_body] fn ml_simplify(Ghost(m): Ghost<AMap>) -> (r: Ghost<AMap>) requires amok(m) ensures amok(r@), r@.dims == m.dims, r@.res.len() == m.res.len(), forall|p: Seq<int>| p.len() >= m.dims ==> #[trigger] mev(r@, p) == mev(m, p) { unimplemented!() } //@lib mlir::simplifyAffineMap

// ---- access functions seen through their mapping
pub open spec fn afok(f: AFn) -> bool { f is Fn && amok(f->Fn_0) }
pub open spec fn afev(f: AFn, p: Seq<int>) -> Seq<int> { mev(f->Fn_0, p) }
#[verifier::external_body] fn af_build(Ghost(m): Ghost<AMap>) -> (r: Ghost<AFn>) requires amok(m) ensures afok(r@), r@->Fn_0.dims == m.dims, r@->Fn_0.res.len() == m.res.len(), forall|p: Seq<int>| p.len() >= m.dims ==> #[trigger] afev(r@, p) == mev(m, p) { unimplemented!() } //@lib AccessFunction::build yields a function with the mapping of the map
#[verifier::external_body] fn af_map(Ghost(f): Ghost<AFn>, Ghost(s): Ghost<IndexSet>) -> (r: Ghost<IndexSet>) requires afok(f), iwf(s), s.root is Some ==> s.allowedRank >= f->Fn_0.dims, isfit(s, f->Fn_0) ensures iwf(r@), r@.root is Some ==> r@.allowedRank == f->Fn_0.res.len(), forall|q: Seq<int>| #[trigger] iin(r@, q) == imq(s, f->Fn_0, q) { unimplemented!() } //@lib virtual call of AccessFunction::map(IndexSet): the contract that its implementations are proved against
#[verifier::external_body] fn af_map_this(Ghost(f): Ghost<AccessFunction>, Ghost(p): Ghost<Point>) -> (r: Ghost<IndexSet>) requires afok(f.af), p.values.len() >= f.af->Fn_0.dims ensures iwf(r@), r@.root is Some, r@.allowedRank == f.af->Fn_0.res.len(), forall|q: Seq<int>| #[trigger] iin(r@, q) == (q == afev(f.af, p.values)) { unimplemented!() } //@lib virtual call of AccessFunction::map(Point): the contract that its implementations are proved against
// image of a set
pub open spec fn imq(s: IndexSet, m: AMap, q: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] iin(s, p) && q == mev(m, p) }
pub open spec fn isfit(s: IndexSet, m: AMap) -> bool { forall|p: Seq<int>, i: int| iin(s, p) && 0 <= i < m.res.len() ==> -9223372036854775808 <= #[trigger] aeval(m.res[i], p) < 9223372036854775807 }
// the points of a set, in the order of its iterator
pub uninterp spec fn ipts(x: IndexSet) -> Seq<Point>;
#[verifier::external_body] pub proof fn lemma_ipts(x: IndexSet) requires iwf(x) ensures forall|k: int| 0 <= k < ipts(x).len() ==> (#[trigger] ipts(x)[k]).values.len() == x.allowedRank && iin(x, ipts(x)[k].values), forall|p: Seq<int>| #[trigger] iin(x, p) ==> exists|k: int| 0 <= k < ipts(x).len() && (#[trigger] ipts(x)[k]).values == p { } //@lib the iterator of IndexSet yields its points

// ---- rotations and translations: each result is a constant or a dimension plus an offset
pub open spec fn rdim(e: AExpr) -> Option<int> { match e { AExpr::Dim(d) => Some(d), AExpr::Bin(k, l, r) => if *l is Dim { Some(l->Dim_0) } else if *r is Dim { Some(r->Dim_0) } else { None }, _ => None } }
pub open spec fn roff(e: AExpr) -> int { match e { AExpr::Const(c) => c, AExpr::Bin(k, l, r) => if *l is Const { l->Const_0 } else { r->Const_0 }, _ => 0 } }
pub open spec fn roto(e: AExpr) -> bool { match e { AExpr::Const(c) => true, AExpr::Dim(d) => true, AExpr::Bin(k, l, r) => k is Add && ((*l is Dim && *r is Const) || (*l is Const && *r is Dim)), _ => false } }
pub open spec fn rtok(m: AMap) -> bool { amok(m) && m.dims > 0 && m.res.len() > 0 && forall|i: int| 0 <= i < m.res.len() ==> roto(#[trigger] m.res[i]) }
pub proof fn lemma_roto(e: AExpr, n: int, p: Seq<int>) requires roto(e), aok(e, n), p.len() >= n ensures aeval(e, p) == (match rdim(e) { Some(d) => p[d], None => 0 }) + roff(e), rdim(e) matches Some(d) ==> 0 <= d < n
{ match e { AExpr::Bin(k, l, r) => { assert(aeval(e, p) == aeval(*l, p) + aeval(*r, p)); assert(aok(*l, n) && aok(*r, n)); }, _ => {} } }
// every dimension appears in exactly one result, every result has a dimension
pub open spec fn rused(m: AMap, d: int, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] rdim(m.res[i]) == Some(d) }
pub proof fn lemma_rused(m: AMap, n: int) requires 0 <= n < m.res.len() ensures forall|d: int| #[trigger] rused(m, d, n + 1) == (rused(m, d, n) || rdim(m.res[n]) == Some(d))
{ assert forall|d: int| #[trigger] rused(m, d, n + 1) == (rused(m, d, n) || rdim(m.res[n]) == Some(d)) by {
    if rused(m, d, n + 1) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] rdim(m.res[i]) == Some(d); assert(i == n || rused(m, d, n)); }
    if rused(m, d, n) { let i = choose|i: int| 0 <= i < n && #[trigger] rdim(m.res[i]) == Some(d); assert(0 <= i < n + 1); }
    if rdim(m.res[n]) == Some(d) { assert(0 <= n < n + 1); } } }
pub open spec fn ruses(m: AMap, d: int, n: int) -> int decreases n { if n <= 0 { 0 } else { ruses(m, d, n - 1) + if rdim(m.res[n - 1]) == Some(d) { 1int } else { 0 } } }
pub open spec fn rbij(m: AMap) -> bool { m.dims == m.res.len() && (forall|i: int| 0 <= i < m.res.len() ==> #[trigger] rdim(m.res[i]) is Some) && forall|d: int| 0 <= d < m.dims ==> #[trigger] rused(m, d, m.res.len() as int) }
pub proof fn lemma_onto(s: Seq<int>) requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len() ensures forall|v: int| 0 <= v < s.len() ==> s.contains(v)
{
    s.unique_seq_to_set(); vstd::set_lib::lemma_int_range(0, s.len() as int);
    let t = s.to_set(); let r = vstd::set_lib::set_int_range(0, s.len() as int);
    assert forall|v: int| t.contains(v) implies r.contains(v) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(0 <= s[i] < s.len()); }
    vstd::set_lib::lemma_subset_equality(t, r);
    assert forall|v: int| 0 <= v < s.len() implies s.contains(v) by { assert(r.contains(v)); assert(t.contains(v)); }
}
// ---- the image of a box
pub open spec fn rshift(e: AExpr, b: MultidimensionalRange) -> Range { match rdim(e) { Some(d) => Range { begin_: b.ranges[d].begin_ + roff(e), end_: b.ranges[d].end_ + roff(e) }, None => Range { begin_: roff(e), end_: roff(e) + 1 } } }
pub open spec fn rbfit(m: AMap, b: MultidimensionalRange) -> bool { forall|i: int| 0 <= i < m.res.len() ==> i64ok(rshift(#[trigger] m.res[i], b).begin_) && i64ok(rshift(m.res[i], b).end_) }
// no dimension is used twice
pub open spec fn rinj(m: AMap) -> bool { forall|i: int, j: int| 0 <= i < j < m.res.len() && #[trigger] rdim(m.res[i]) is Some ==> rdim(m.res[i]) != #[trigger] rdim(m.res[j]) }
pub open spec fn bimg(b: MultidimensionalRange, m: AMap, q: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] bin(b, p) && q == mev(m, p) }
pub proof fn lemma_rbfit(m: AMap, b: MultidimensionalRange, lo: Seq<int>, hi: Seq<int>)
    requires rtok(m), bwf(b), b.ranges.len() >= m.dims, rbfit(m, b), lo.len() == b.ranges.len(), hi.len() == b.ranges.len(), forall|k: int| 0 <= k < b.ranges.len() ==> lo[k] == (#[trigger] b.ranges[k]).begin_ && hi[k] == b.ranges[k].end_
    ensures mfit(m, lo), mfit(m, hi), forall|n: int| n >= m.dims ==> #[trigger] amok(AMap { dims: n, res: m.res }) || n > 0xffff_ffff
{
    assert forall|i: int| 0 <= i < m.res.len() implies i64ok(aeval(#[trigger] m.res[i], lo)) && i64ok(aeval(m.res[i], hi)) by { lemma_roto(m.res[i], m.dims, lo); lemma_roto(m.res[i], m.dims, hi); if rdim(m.res[i]) is Some { assert(rwf(b.ranges[rdim(m.res[i])->0])); } }
    assert forall|n: int| n >= m.dims && n <= 0xffff_ffff implies #[trigger] amok(AMap { dims: n, res: m.res }) by { assert forall|i: int| 0 <= i < m.res.len() implies aok(#[trigger] m.res[i], n) by { lemma_aok_mono(m.res[i], m.dims, n); } }
}
pub open spec fn inv_at(m: AMap, q: Seq<int>, d: int, dflt: int) -> int { if exists|i: int| 0 <= i < m.res.len() && #[trigger] rdim(m.res[i]) == Some(d) { let i = choose|i: int| 0 <= i < m.res.len() && #[trigger] rdim(m.res[i]) == Some(d); q[i] - roff(m.res[i]) } else { dflt } }
pub proof fn lemma_rimg(m: AMap, b: MultidimensionalRange, r: MultidimensionalRange)
    requires rtok(m), bwf(b), b.ranges.len() >= m.dims, r.ranges.len() == m.res.len(), forall|i: int| 0 <= i < m.res.len() ==> #[trigger] r.ranges[i] == rshift(m.res[i], b)
    ensures bwf(r), forall|p: Seq<int>| #[trigger] bin(b, p) ==> bin(r, mev(m, p)), rinj(m) ==> forall|q: Seq<int>| #[trigger] bin(r, q) ==> bimg(b, m, q)
{
    let c = corner(b.ranges); lemma_corner(b.ranges);
    assert forall|i: int| 0 <= i < r.ranges.len() implies rwf(#[trigger] r.ranges[i]) by { lemma_roto(m.res[i], m.dims, c); if rdim(m.res[i]) is Some { assert(rwf(b.ranges[rdim(m.res[i])->0])); } }
    assert forall|p: Seq<int>| #[trigger] bin(b, p) implies bin(r, mev(m, p)) by {
        let q = mev(m, p);
        assert forall|i: int| 0 <= i < r.ranges.len() implies rin(#[trigger] r.ranges[i], q[i]) by { lemma_roto(m.res[i], m.dims, p); assert(r.ranges[i] == rshift(m.res[i], b)); if rdim(m.res[i]) is Some { assert(rin(b.ranges[rdim(m.res[i])->0], p[rdim(m.res[i])->0])); } }
    }
    if rinj(m) {
        assert forall|q: Seq<int>| #[trigger] bin(r, q) implies bimg(b, m, q) by {
            let p = Seq::new(b.ranges.len(), |d: int| inv_at(m, q, d, c[d]));
            assert forall|d: int| 0 <= d < b.ranges.len() implies rin(#[trigger] b.ranges[d], p[d]) by {
                assert(rin(b.ranges[d], c[d]));
                if exists|i: int| 0 <= i < m.res.len() && #[trigger] rdim(m.res[i]) == Some(d) { let i = choose|i: int| 0 <= i < m.res.len() && #[trigger] rdim(m.res[i]) == Some(d); assert(rin(r.ranges[i], q[i])); assert(r.ranges[i] == rshift(m.res[i], b)); }
            }
            assert(bin(b, p));
            let x = mev(m, p);
            assert forall|k: int| 0 <= k < m.res.len() implies x[k] == q[k] by {
                lemma_roto(m.res[k], m.dims, p); assert(rin(r.ranges[k], q[k])); assert(r.ranges[k] == rshift(m.res[k], b));
                if rdim(m.res[k]) is Some { let d = rdim(m.res[k])->0; let i = choose|i: int| 0 <= i < m.res.len() && #[trigger] rdim(m.res[i]) == Some(d); assert(rdim(m.res[i]) == Some(d)); if i < k { assert(rdim(m.res[i]) != rdim(m.res[k])); } if k < i { assert(rdim(m.res[k]) != rdim(m.res[i])); } assert(i == k); }
            }
            assert(x =~= q);
        }
    }
}
pub open spec fn imk(s: Seq<Point>, n: int, m: AMap, q: Seq<int>) -> bool { exists|k: int| 0 <= k < n && q == mev(m, (#[trigger] s[k]).values) }
pub proof fn lemma_imk(s: Seq<Point>, n: int, m: AMap, q: Seq<int>) requires 0 <= n < s.len() ensures imk(s, n + 1, m, q) == (imk(s, n, m, q) || q == mev(m, s[n].values))
{
    if imk(s, n + 1, m, q) { let k = choose|k: int| 0 <= k < n + 1 && q == mev(m, (#[trigger] s[k]).values); if k < n { assert(imk(s, n, m, q)); } }
    if imk(s, n, m, q) { let k = choose|k: int| 0 <= k < n && q == mev(m, (#[trigger] s[k]).values); assert(0 <= k < n + 1); }
}
pub proof fn lemma_imk_all(x: IndexSet, m: AMap, q: Seq<int>) requires iwf(x) ensures imk(ipts(x), ipts(x).len() as int, m, q) == imq(x, m, q)
{
    lemma_ipts(x); let s = ipts(x);
    if imk(s, s.len() as int, m, q) { let k = choose|k: int| 0 <= k < s.len() && q == mev(m, (#[trigger] s[k]).values); assert(iin(x, s[k].values)); }
    if imq(x, m, q) { let p = choose|p: Seq<int>| #[trigger] iin(x, p) && q == mev(m, p); let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).values == p; assert(q == mev(m, s[k].values)); }
}
pub proof fn lemma_imboxes(x: IndexSet, g: Seq<MultidimensionalRange>, m: AMap, q: Seq<int>)
    requires g.len() == iflat(x).len(), forall|k: int, q: Seq<int>| 0 <= k < g.len() ==> #[trigger] bin(g[k], q) == bimg(iflat(x)[k], m, q)
    ensures anyin(g, q) == imq(x, m, q)
{
    let f = iflat(x);
    if anyin(g, q) { let k = choose|k: int| 0 <= k < g.len() && bin(#[trigger] g[k], q); assert(bimg(f[k], m, q)); let p = choose|p: Seq<int>| #[trigger] bin(f[k], p) && q == mev(m, p); assert(anyin(f, p)); assert(iin(x, p)); }
    if imq(x, m, q) { let p = choose|p: Seq<int>| #[trigger] iin(x, p) && q == mev(m, p); assert(anyin(f, p)); let k = choose|k: int| 0 <= k < f.len() && bin(#[trigger] f[k], p); assert(bimg(f[k], m, q)); assert(bin(g[k], q)); }
}
pub proof fn lemma_ruses_at(m: AMap, d: int, n: int, i: int) requires 0 <= i < n ensures ruses(m, d, n) >= (if rdim(m.res[i]) == Some(d) { 1int } else { 0 }) + ruses(m, d, i), ruses(m, d, i) >= 0 decreases n
{ lemma_ruses_nn(m, d, i); if i < n - 1 { lemma_ruses_at(m, d, n - 1, i); } }
pub proof fn lemma_ruses_nn(m: AMap, d: int, n: int) ensures ruses(m, d, n) >= 0 decreases n { if n > 0 { lemma_ruses_nn(m, d, n - 1); } }
pub proof fn lemma_ruses(m: AMap, u: Seq<int>) requires rtok(m), u.len() == m.dims, forall|d: int| 0 <= d < m.dims ==> #[trigger] u[d] == ruses(m, d, m.res.len() as int), !exists|d: int| 0 <= d < u.len() && #[trigger] u[d] > 1
    ensures rinj(m)
{
    assert forall|i: int, j: int| 0 <= i < j < m.res.len() && #[trigger] rdim(m.res[i]) is Some implies rdim(m.res[i]) != #[trigger] rdim(m.res[j]) by {
        if rdim(m.res[i]) == rdim(m.res[j]) {
            let d = rdim(m.res[i])->0; lemma_roto(m.res[i], m.dims, Seq::new(m.dims as nat, |k: int| 0));
            lemma_ruses_at(m, d, m.res.len() as int, j); lemma_ruses_at(m, d, j, i); assert(u[d] > 1);
        }
    }
}
pub open spec fn acok(m: AMap) -> bool { amok(m) && m.res.len() > 0 && forall|i: int| 0 <= i < m.res.len() ==> #[trigger] m.res[i] is Const && m.res[i]->Const_0 < 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_acimg(x: IndexSet, m: AMap, v: Seq<int>) requires acok(m), v.len() == m.res.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == m.res[i]->Const_0
    ensures forall|p: Seq<int>| #[trigger] mev(m, p) == v, forall|q: Seq<int>| (#[trigger] imq(x, m, q)) == (q == v && exists|p: Seq<int>| #[trigger] iin(x, p))
{ assert forall|p: Seq<int>| #[trigger] mev(m, p) == v by { assert forall|i: int| 0 <= i < v.len() implies mev(m, p)[i] == v[i] by { assert(m.res[i] is Const); } assert(mev(m, p) =~= v); } }
// every value of a box of the set fits the machine integers used for counting
pub open spec fn vfit(x: IndexSet) -> bool { (forall|k: int| 0 <= k < iflat(x).len() ==> fits((#[trigger] iflat(x)[k]).ranges)) && vol(iflat(x)) <= 0xffff_ffff_ffff_ffff }
pub open spec fn inpts(s: Seq<Point>, p: Seq<int>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).values == p }
pub proof fn lemma_inpts_push(s: Seq<Point>, x: Point, p: Seq<int>) ensures inpts(s.push(x), p) == (inpts(s, p) || x.values == p)
{ let t = s.push(x); if inpts(t, p) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).values == p; if k < s.len() { assert(s[k].values == p); } } if inpts(s, p) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).values == p; assert(t[k].values == p); } if x.values == p { assert(t[s.len() as int].values == p); } }
// the bounds of the stored boxes are 64-bit numbers
pub open spec fn i64set(x: IndexSet) -> bool { forall|k: int| 0 <= k < iflat(x).len() ==> ty_MultidimensionalRange(#[trigger] iflat(x)[k]) }
pub proof fn lemma_pts_fit(x: IndexSet, s: Seq<Point>) requires iwf(x), i64set(x), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).values.len() == x.allowedRank && iin(x, s[k].values)
    ensures forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].values.len() ==> #[trigger] s[k].values[i] < 0x7fff_ffff_ffff_ffff
{ lemma_iflat(x); assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < s[k].values.len() implies #[trigger] s[k].values[i] < 0x7fff_ffff_ffff_ffff by { assert(iin(x, s[k].values)); let b = choose|b: int| 0 <= b < iflat(x).len() && bin(#[trigger] iflat(x)[b], s[k].values); assert(bin(iflat(x)[b], s[k].values)); assert(iflat(x)[b].ranges.len() == s[k].values.len()); assert(rin(iflat(x)[b].ranges[i], s[k].values[i])); assert(ty_MultidimensionalRange(iflat(x)[b])); assert(ty_Range(iflat(x)[b].ranges[i])); } }
pub open spec fn only(x: IndexSet, v: Seq<int>) -> bool { forall|q: Seq<int>| #[trigger] iin(x, q) == (q == v) }
pub open spec fn acpt(m: AMap) -> Seq<int> { Seq::new(m.res.len(), |i: int| m.res[i]->Const_0) }
// a set with exactly one point
pub proof fn lemma_single(x: IndexSet, v: Seq<int>) requires iwf(x), forall|q: Seq<int>| #[trigger] iin(x, q) == (q == v) ensures vfit(x)
{
    lemma_iflat(x); let f = iflat(x); let r = x.allowedRank as int; lemma_allwf(f, r);
    assert forall|k: int| 0 <= k < f.len() implies fits((#[trigger] f[k]).ranges) by {
        let b = f[k]; assert(bwf(b)); lemma_corner(b.ranges); let c = corner(b.ranges); assert(bin(b, c)); assert(iin(x, c));
        assert forall|i: int| 0 <= i < b.ranges.len() implies rlen(#[trigger] b.ranges[i]) <= 0x7fff_ffff_ffff_ffff by {
            assert(rin(b.ranges[i], c[i])); assert(rwf(b.ranges[i]));
            let e = c.update(i, b.ranges[i].end_ - 1); let e2 = c.update(i, b.ranges[i].begin_ as int);
            assert forall|j: int| 0 <= j < b.ranges.len() implies rin(#[trigger] b.ranges[j], e[j]) && rin(b.ranges[j], e2[j]) by { assert(rin(b.ranges[j], c[j])); }
            assert(bin(b, e)); assert(iin(x, e)); assert(bin(b, e2)); assert(iin(x, e2)); assert(e[i] == v[i] && e2[i] == v[i]);
        }
    }
    let a = allpts(f, f.len() as int); lemma_allpts_x(x);
    if a.len() > 1 { assert(a.contains(a[0])); assert(a.contains(a[1])); assert(iin(x, a[0])); assert(iin(x, a[1])); assert(a[0] == a[1]); }
}
pub proof fn lemma_allpts_x(x: IndexSet) requires iwf(x) ensures ({ let f = iflat(x); let a = allpts(f, f.len() as int); a.no_duplicates() && a.len() == vol(f) && forall|p: Seq<int>| #[trigger] a.contains(p) == iin(x, p) })
{ let f = iflat(x); lemma_iflat(x); lemma_allwf(f, x.allowedRank as int); assert(f.subrange(0, f.len() as int) =~= f); assert(pdisj(f)) by { if x.root is None { assert(f.len() == 0); } } lemma_allpts(f, f.len() as int); }
pub open spec fn inverts(f: AFn, m: AMap) -> bool { afok(f) && f->Fn_0.dims == m.res.len() && f->Fn_0.res.len() == m.dims
    && (forall|p: Seq<int>| p.len() == m.dims ==> #[trigger] afev(f, mev(m, p)) == p) && (forall|q: Seq<int>| q.len() == m.res.len() ==> #[trigger] mev(m, afev(f, q)) == q) }
pub proof fn lemma_inverts(m: AMap, g: AMap, f: AFn, pm: Seq<int>)
    requires rtok(m), rbij(m), amok(g), g.dims == m.dims, g.res.len() == m.dims, pm.len() == m.dims,
        forall|d: int| 0 <= d < m.dims ==> 0 <= #[trigger] pm[d] < m.dims && rdim(m.res[pm[d]]) == Some(d),
        forall|d: int, q: Seq<int>| 0 <= d < m.dims ==> #[trigger] aeval(g.res[d], q) == q[pm[d]] - roff(m.res[pm[d]]),
        afok(f), f->Fn_0.dims == g.dims, f->Fn_0.res.len() == g.res.len(), forall|p: Seq<int>| p.len() >= g.dims ==> #[trigger] afev(f, p) == mev(g, p)
    ensures inverts(f, m)
{
    assert(pm.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < pm.len() && 0 <= j < pm.len() && i != j implies pm[i] != pm[j] by { assert(rdim(m.res[pm[i]]) == Some(i)); assert(rdim(m.res[pm[j]]) == Some(j)); } }
    lemma_onto(pm);
    assert forall|p: Seq<int>| p.len() == m.dims implies #[trigger] afev(f, mev(m, p)) == p by {
        let q = mev(m, p); let x = mev(g, q); assert(afev(f, q) == x);
        assert forall|d: int| 0 <= d < m.dims implies x[d] == p[d] by { assert(x[d] == aeval(g.res[d], q)); assert(0 <= pm[d] < m.dims); lemma_roto(m.res[pm[d]], m.dims, p); assert(q[pm[d]] == aeval(m.res[pm[d]], p)); }
        assert(x =~= p);
    }
    assert forall|q: Seq<int>| q.len() == m.res.len() implies #[trigger] mev(m, afev(f, q)) == q by {
        let x = mev(g, q); assert(afev(f, q) == x); let y = mev(m, x);
        assert forall|k: int| 0 <= k < q.len() implies y[k] == q[k] by {
            assert(pm.contains(k)); let d = choose|d: int| 0 <= d < pm.len() && pm[d] == k; assert(0 <= pm[d] < m.dims); assert(rdim(m.res[k]) == Some(d));
            lemma_roto(m.res[k], m.dims, x); assert(x[d] == aeval(g.res[d], q)); }
        assert(y =~= q);
    }
}
%end

%abbr RTA:: = marco::modeling::AccessFunctionRotoTranslation::
%abbr AMA:: = marco::modeling::AccessFunctionAffineMap::
%fn RTA::getInductionVariableIndex(mlir::AffineExpr) const
%name Rt_dim_of
%req
- !(expression is Null) && roto(expression)
%ens
- ret == rdim(expression)
%endfn
%fn RTA::getInductionVariableIndex(unsigned long) const
%name Rt_dim
%req
- rtok(this.affineMap) && 0 <= expressionIndex < this.affineMap.res.len()
%ens
- ret == rdim(this.affineMap.res[expressionIndex])
- ret matches Some(d) ==> 0 <= d < this.affineMap.dims
%exit
lemma_roto(this.affineMap.res[expressionIndex], this.affineMap.dims, Seq::new(this.affineMap.dims as nat, |i: int| 0));
%endfn
%fn RTA::getOffset(mlir::AffineExpr) const
%name Rt_off_of
%req
- roto(expression) && rdim(expression) is Some
%ens
- ret == roff(expression)
%endfn
%fn RTA::getOffset(unsigned long) const
%name Rt_off
%req
- rtok(this.affineMap) && 0 <= expressionIndex < this.affineMap.res.len() && rdim(this.affineMap.res[expressionIndex]) is Some
%ens
- ret == roff(this.affineMap.res[expressionIndex])
%endfn
%fn RTA::isInvertible() const
%name Rt_isInvertible
%req
- rtok(this.affineMap)
%ens
- [exactly the bijections] ret == rbij(this.affineMap)
%loop 1
%inv
- @usedDimensions.len() == this.affineMap.dims
- forall|k: int| 0 <= k < $i ==> #[trigger] rdim(this.affineMap.res[k]) is Some
- forall|d: int| 0 <= d < this.affineMap.dims ==> (#[trigger] @usedDimensions[d]) == rused(this.affineMap, d, $i)
%begin
lemma_rused(this.affineMap, $i);
%after
assert forall|d: int| 0 <= d < this.affineMap.dims implies #[trigger] rused(this.affineMap, d, this.affineMap.res.len() as int) == @usedDimensions[d] by { }
%endloop
%endfn
%fn RTA::countVariablesUsages(llvm::SmallVectorImpl<unsigned long>&) const
%name Rt_usages
%req
- rtok(this.affineMap)
%ens
- post_usages.len() == this.affineMap.dims
- forall|d: int| 0 <= d < this.affineMap.dims ==> #[trigger] post_usages[d] == ruses(this.affineMap, d, this.affineMap.res.len() as int)
%loop 1
%inv
- forall|k: int| 0 <= k < $i ==> #[trigger] @usages[k] == 0
%endloop
%loop 2
%before
assert(@usages =~= Seq::new(this.affineMap.dims as nat, |i: int| 0int));
%inv
- @usages.len() == this.affineMap.dims
- forall|d: int| 0 <= d < this.affineMap.dims ==> #[trigger] @usages[d] == ruses(this.affineMap, d, $i) && 0 <= @usages[d] <= $i
%endloop
%endfn
%fn AMA::getAffineMapWithGivenDimensions(unsigned long) const
%name Am_withDims
%req
- amok(this.affineMap) && requestedDims <= 0xffff_ffff
%ens
- ret == (AMap { dims: max_(this.affineMap.dims, requestedDims), res: this.affineMap.res })
- amok(ret)
%aftercall ml_results
assert forall|i: int| 0 <= i < this.affineMap.res.len() implies aok(#[trigger] this.affineMap.res[i], max_(this.affineMap.dims, requestedDims)) by { lemma_aok_mono(this.affineMap.res[i], this.affineMap.dims, max_(this.affineMap.dims, requestedDims)); }
%endfn
%fn AMA::map(marco::modeling::Point const&) const
%name Am_map_point
%req
- amok(this.affineMap) && this.affineMap.res.len() > 0 && point.values.len() >= this.affineMap.dims
- forall|i: int| 0 <= i < this.affineMap.res.len() ==> -9223372036854775808 <= aeval(#[trigger] this.affineMap.res[i], point.values) < 9223372036854775807
%ens
- iwf(ret) && ret.root is Some && ret.allowedRank == this.affineMap.res.len()
- [the value of each expression] forall|q: Seq<int>| #[trigger] iin(ret, q) == (q == mev(this.affineMap, point.values))
%entry
assert forall|k: int| 0 <= k < this.affineMap.res.len() implies aok(#[trigger] this.affineMap.res[k], max_(this.affineMap.dims, point.values.len() as int)) by { lemma_aok_mono(this.affineMap.res[k], this.affineMap.dims, max_(this.affineMap.dims, point.values.len() as int)); }
%aftercall ml_apply
assert($ret =~= mev(this.affineMap, point.values));
%aftercall Ix_from_points
assert($1[0].values == mev(this.affineMap, point.values));
assert forall|q: Seq<int>| #[trigger] iin($ret, q) == (q == mev(this.affineMap, point.values)) by { }
%endfn
%fn RTA::inverse() const
%name Rt_inverse
%req
- rtok(this.affineMap)
%ens
- [an inverse exists exactly for the bijections] (ret is Null) == !rbij(this.affineMap)
- [composing both gives back every point] rbij(this.affineMap) ==> inverts(ret, this.affineMap)
%entry
let ghost m = this.affineMap;
%loop 1
%inv
- rbij(m) && @remapped.len() == $i && @positionsMap.len() == m.dims
- forall|k: int| 0 <= k < $i ==> aok(#[trigger] @remapped[k], m.dims)
- forall|k: int, q: Seq<int>| 0 <= k < $i ==> #[trigger] aeval(@remapped[k], q) == q[k] - roff(m.res[k])
- forall|k: int| 0 <= k < $i ==> 0 <= (#[trigger] rdim(m.res[k]))->0 < m.dims
- forall|d: int| 0 <= d < m.dims && #[trigger] rused(m, d, $i) ==> 0 <= @positionsMap[d] < $i && rdim(m.res[@positionsMap[d]]) == Some(d)
%begin
lemma_rused(m, $i);
let ghost rem0 = @remapped;
%end
assert(@remapped == rem0.push(@remapped[$i - 1]));
%after
assert forall|d: int| 0 <= d < m.dims implies 0 <= #[trigger] @positionsMap[d] < m.dims && rdim(m.res[@positionsMap[d]]) == Some(d) by { assert(rused(m, d, m.res.len() as int)); }
%endloop
%loop 2
%inv
- @reordered.len() == $i
- forall|k: int| 0 <= k < $i ==> #[trigger] @reordered[k] == @remapped[@positionsMap[k]]
%begin
assert(0 <= @positionsMap[$i] < m.dims);
%end
assert(@reordered.len() == $i);
%endloop
%beforecall af_build
%aftercall ml_map
assert forall|d: int, q: Seq<int>| 0 <= d < m.dims implies #[trigger] aeval(@reordered[d], q) == q[@positionsMap[d]] - roff(m.res[@positionsMap[d]]) by { assert(0 <= @positionsMap[d] < m.dims); assert(@reordered[d] == @remapped[@positionsMap[d]]); }
assert forall|d: int| 0 <= d < m.dims implies aok(#[trigger] @reordered[d], m.dims) by { assert(0 <= @positionsMap[d] < m.dims); }
%aftercall af_build
lemma_inverts(m, $1, $ret, @positionsMap);
%endfn
%fn RTA::map(marco::modeling::MultidimensionalRange const&) const
%name Rt_map_box
%req
- rtok(this.affineMap) && bwf(indices) && indices.ranges.len() >= this.affineMap.dims
- rbfit(this.affineMap, indices)
%ens
- bwf(ret) && ret.ranges.len() == this.affineMap.res.len()
- forall|i: int| 0 <= i < this.affineMap.res.len() ==> #[trigger] ret.ranges[i] == rshift(this.affineMap.res[i], indices)
- [no index is lost] forall|p: Seq<int>| #[trigger] bin(indices, p) ==> bin(ret, mev(this.affineMap, p))
- [no index is invented when each dimension is used at most once] rinj(this.affineMap) ==> forall|q: Seq<int>| #[trigger] bin(ret, q) ==> bimg(indices, this.affineMap, q)
%loop 1
%inv
- @lowerBounds.len() == $i && @upperBounds.len() == $i
- forall|k: int| 0 <= k < $i ==> @lowerBounds[k] == (#[trigger] indices.ranges[k]).begin_ && @upperBounds[k] == indices.ranges[k].end_
%after
lemma_rbfit(this.affineMap, indices, @lowerBounds, @upperBounds);
%endloop
%loop 2
%inv
- @ranges.len() == $i
- forall|k: int| 0 <= k < $i ==> #[trigger] @ranges[k] == rshift(this.affineMap.res[k], indices)
%begin
lemma_roto(this.affineMap.res[$i], this.affineMap.dims, @lowerBounds); lemma_roto(this.affineMap.res[$i], this.affineMap.dims, @upperBounds);
if rdim(this.affineMap.res[$i]) is Some { assert(rwf(indices.ranges[rdim(this.affineMap.res[$i])->0])); }
%endloop
%exit
lemma_rimg(this.affineMap, indices, ret);
%endfn
%fn AMA::map(marco::modeling::IndexSet const&) const
%name Am_map_set
%req
- amok(this.affineMap) && this.affineMap.res.len() > 0 && iwf(indices) && (indices.root is Some ==> indices.allowedRank >= this.affineMap.dims)
- isfit(indices, this.affineMap)
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == this.affineMap.res.len())
- [exactly the images] forall|q: Seq<int>| #[trigger] iin(ret, q) == imq(indices, this.affineMap, q)
%entry
lemma_ipts(indices);
%loop 1
%inv
- iwf(@mappedIndices) && (@mappedIndices.initialized ==> @mappedIndices.allowedRank == this.affineMap.res.len()) && (@mappedIndices.root is Some ==> @mappedIndices.initialized)
- forall|q: Seq<int>| #[trigger] iin(@mappedIndices, q) == imk(ipts(indices), $i, this.affineMap, q)
%begin
let ghost s0 = @mappedIndices;
assert(iin(indices, ipts(indices)[$i].values));
%end
assert forall|q: Seq<int>| #[trigger] iin(@mappedIndices, q) == imk(ipts(indices), $i, this.affineMap, q) by { lemma_imk(ipts(indices), $i - 1, this.affineMap, q); assert(iin(s0, q) == imk(ipts(indices), $i - 1, this.affineMap, q)); }
%after
assert forall|q: Seq<int>| #[trigger] iin(@mappedIndices, q) == imq(indices, this.affineMap, q) by { lemma_imk_all(indices, this.affineMap, q); }
%endloop
%endfn
%fn RTA::map(marco::modeling::IndexSet const&) const
%name Rt_map_set
%req
- rtok(this.affineMap) && iwf(indices) && (indices.root is Some ==> indices.allowedRank >= this.affineMap.dims)
- isfit(indices, this.affineMap)
- forall|k: int| 0 <= k < iflat(indices).len() ==> rbfit(this.affineMap, #[trigger] iflat(indices)[k])
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == this.affineMap.res.len())
- [exactly the images] forall|q: Seq<int>| #[trigger] iin(ret, q) == imq(indices, this.affineMap, q)
%aftercall Rt_usages
%loop 1
%before
lemma_iflat(indices);
lemma_ruses(this.affineMap, @usages);
%inv
- @mapped.len() == $i && allbox(@mapped, this.affineMap.res.len() as int)
- forall|k: int, q: Seq<int>| 0 <= k < $i ==> #[trigger] bin(@mapped[k], q) == bimg(iflat(indices)[k], this.affineMap, q)
%begin
assert(bwf(iflat(indices)[$i]));
let ghost mp0 = @mapped;
%end
assert(@mapped =~= mp0.push(@mapped[$i - 1]));
%after
assert forall|q: Seq<int>| #[trigger] anyin(@mapped, q) == imq(indices, this.affineMap, q) by { lemma_imboxes(indices, @mapped, this.affineMap, q); }
if @mapped.len() > 0 { assert(bwf(@mapped[0])); }
%endloop
%endfn
%abbr ACA:: = marco::modeling::AccessFunctionAffineConstant::
%abbr AFA:: = marco::modeling::AccessFunction::
%fn AFA::inverseMap(marco::modeling::IndexSet const&, marco::modeling::IndexSet const&) const
%name Af_inverseMap
%req
- afok(this.af) && this.af->Fn_0.res.len() > 0 && iwf(accessedIndices) && iwf(parentIndices) && (parentIndices.root is Some ==> parentIndices.allowedRank >= this.af->Fn_0.dims)
- accessedIndices.root is Some ==> accessedIndices.allowedRank == this.af->Fn_0.res.len()
- i64set(parentIndices) && isfit(parentIndices, this.af->Fn_0) && vfit(accessedIndices) && parentIndices.allowedRank < 0x1_0000_0000
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == parentIndices.allowedRank)
- [exactly the candidates that access the given elements] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(parentIndices, p) && iin(accessedIndices, afev(this.af, p)))
%entry
lemma_ipts(parentIndices);
%loop 1
%inv
- forall|k: int| 0 <= k < @mapped.len() ==> (#[trigger] @mapped[k]).values.len() == parentIndices.allowedRank && iin(parentIndices, @mapped[k].values)
- forall|p: Seq<int>| #[trigger] inpts(@mapped, p) == (inpts(ipts(parentIndices).subrange(0, $i), p) && iin(accessedIndices, afev(this.af, p)))
%begin
let ghost mp0 = @mapped;
let ghost cur = ipts(parentIndices)[$i];
assert(iin(parentIndices, cur.values));
%end
assert(ipts(parentIndices).subrange(0, $i) =~= ipts(parentIndices).subrange(0, $i - 1).push(cur));
assert forall|p: Seq<int>| #[trigger] inpts(@mapped, p) == (inpts(ipts(parentIndices).subrange(0, $i), p) && iin(accessedIndices, afev(this.af, p))) by {
  lemma_inpts_push(ipts(parentIndices).subrange(0, $i - 1), cur, p); lemma_inpts_push(mp0, cur, p);
  assert(inpts(mp0, p) == (inpts(ipts(parentIndices).subrange(0, $i - 1), p) && iin(accessedIndices, afev(this.af, p)))); }
%after
assert(ipts(parentIndices).subrange(0, ipts(parentIndices).len() as int) =~= ipts(parentIndices));
lemma_pts_fit(parentIndices, @mapped);
%endloop
%aftercall af_map_this
lemma_single($ret, afev(this.af, cur.values));
assert(iin($ret, afev(this.af, cur.values)));
assert(isub($ret, accessedIndices) == iin(accessedIndices, afev(this.af, cur.values)));
%aftercall Ix_from_points
assert forall|p: Seq<int>| #[trigger] iin($ret, p) == (iin(parentIndices, p) && iin(accessedIndices, afev(this.af, p))) by {
  assert(inpts($1, p) == (inpts(ipts(parentIndices), p) && iin(accessedIndices, afev(this.af, p))));
  if iin($ret, p) { let k = choose|k: int| 0 <= k < $1.len() && (#[trigger] $1[k]).values =~= p; assert($1[k].values == p); assert(inpts($1, p)); }
  if iin(parentIndices, p) && iin(accessedIndices, afev(this.af, p)) { assert(inpts(ipts(parentIndices), p)); let k = choose|k: int| 0 <= k < $1.len() && (#[trigger] $1[k]).values == p; assert($1[k].values =~= p); } }
%endfn
%fn ACA::getMappedPoint() const
%name Ac_point
%req
- amok(this.affineMap) && forall|i: int| 0 <= i < this.affineMap.res.len() ==> #[trigger] this.affineMap.res[i] is Const
%ens
- (ret is Some) == (this.affineMap.res.len() > 0)
- ret matches Some(x) ==> x.values.len() == this.affineMap.res.len() && forall|i: int| 0 <= i < x.values.len() ==> #[trigger] x.values[i] == this.affineMap.res[i]->Const_0
%loop 1
%inv
- @coordinates.len() == this.affineMap.res.len() && @affineMap == this.affineMap
- forall|k: int| 0 <= k < $i ==> #[trigger] @coordinates[k] == this.affineMap.res[k]->Const_0
%endloop
%endfn
%fn ACA::map(marco::modeling::IndexSet const&) const
%name Ac_map_set
%req
- acok(this.affineMap) && iwf(indices)
%ens
- iwf(ret) && (ret.root is Some ==> ret.allowedRank == this.affineMap.res.len())
- [exactly the images] this.affineMap.dims > 0 || indices.root is Some ==> forall|q: Seq<int>| #[trigger] iin(ret, q) == imq(indices, this.affineMap, q)
- ret.root is Some ==> only(ret, acpt(this.affineMap))
%entry
lemma_iflat(indices);
%aftercall Ac_point
lemma_acimg(indices, this.affineMap, $ret->0.values); assert($ret->0.values =~= acpt(this.affineMap));
%endfn
%fn ACA::inverseMap(marco::modeling::IndexSet const&, marco::modeling::IndexSet const&) const
%name Ac_inverseMap
%req
- acok(this.affineMap) && iwf(accessedIndices) && iwf(parentIndices) && vfit(accessedIndices)
- accessedIndices.root is Some ==> accessedIndices.allowedRank == this.affineMap.res.len()
%ens
- iwf(ret)
- [exactly the candidates that access the given elements] forall|p: Seq<int>| #[trigger] iin(ret, p) == (iin(parentIndices, p) && iin(accessedIndices, mev(this.affineMap, p)))
%entry
let ghost v = acpt(this.affineMap);
lemma_acimg(parentIndices, this.affineMap, v);
lemma_iflat(parentIndices); lemma_iflat(accessedIndices);
%aftercall Ac_map_set
lemma_iflat($ret);
if parentIndices.root is Some { assert forall|q: Seq<int>| #[trigger] iin($ret, q) == (q == v) by { assert(iin($ret, q) == imq(parentIndices, this.affineMap, q)); } assert(iin($ret, v)); }
else if this.affineMap.dims > 0 { assert forall|q: Seq<int>| !#[trigger] iin($ret, q) by { assert(iin($ret, q) == imq(parentIndices, this.affineMap, q)); } }
if $ret.root is Some { lemma_single($ret, v); } else { assert(vol(iflat($ret)) == 0); }
assert(parentIndices.root is Some ==> isub($ret, accessedIndices) == iin(accessedIndices, v));
%endfn
