%drop DimensionAccessIndices.space
%drop DimensionAccessIndices.dimensionDependencies
%ghosttype DimensionAccess = DAcc
%extnull DAcc = DAcc::Null
%extbool DAcc = !($x is Null)
%extfn map DAcc = da_map
%extfn getAffineExpr DAcc/1 = da_expr
%extfn isAffine DAcc = da_affine
%extfn isa DAcc isa<DimensionAccessDimension> = da_is_dim
%extfn isa DAcc isa<DimensionAccessConstant> = da_is_const
%extfn isa AExpr AffineConstantExpr = ml_isa_const
%extfn dyn_cast DAcc DimensionAccessConstant = da_dyn_const_opt
%extfn dyn_cast DAcc DimensionAccessRange = da_dyn_range_opt
%extfn dyn_cast DAcc DimensionAccessIndices = da_dyn_indices_opt
%extfn dyn_cast DAcc DimensionAccessAdd = da_dyn_add_opt
%extfn divideFloorSigned int = ml_divfloor
%ghostup DimensionAccessAdd = DAcc::Add(Box::new($x.first), Box::new($x.second))
%ghostup DimensionAccessSub = DAcc::Sub(Box::new($x.first), Box::new($x.second))
%ghostup DimensionAccessMul = DAcc::Mul(Box::new($x.first), Box::new($x.second))
%ghostup DimensionAccessDiv = DAcc::Div(Box::new($x.first), Box::new($x.second))
%ghostup DimensionAccessConstant = DAcc::Const($x.value as int)
%ghostup DimensionAccessDimension = DAcc::Dim($x.dimension as int)
%ghostup DimensionAccessRange = DAcc::Range($x.range)
%extfn clone DAcc = $arg
%extbool MCtx = true
%ghostup AccessFunctionEmpty = AFn::Fn($x.affineMap)
%ghostup AccessFunctionAffineConstant = AFn::Fn($x.affineMap)
%ghostup AccessFunctionRotoTranslation = AFn::Fn($x.affineMap)
%ghostup AccessFunctionConstant = AFn::Gen($x.numOfDimensions as int, $x.results)
%ghostup AccessFunctionGeneric = AFn::Gen($x.numOfDimensions as int, $x.results)
%prelude
#[verifier::external_body] fn ml_divfloor(Ghost(a): Ghost<int>, Ghost(b): Ghost<int>) -> (r: Ghost<int>) requires b != 0, i64ok(fdiv(a, b)) ensures r@ == fdiv(a, b) { unimplemented!() } //@lib llvm::divideFloorSigned
// ---- what an access of one dimension stands for; virtual calls go through these (the overrides are proved against them)
pub enum DAcc { Null, Const(int), Dim(int), Add(Box<DAcc>, Box<DAcc>), Sub(Box<DAcc>, Box<DAcc>), Mul(Box<DAcc>, Box<DAcc>), Div(Box<DAcc>, Box<DAcc>), Range(Range), Other(int) }
pub open spec fn dok(d: DAcc) -> bool decreases d { match d { DAcc::Null => false, DAcc::Const(c) => true, DAcc::Dim(k) => true, DAcc::Add(a, b) => dok(*a) && dok(*b), DAcc::Sub(a, b) => dok(*a) && dok(*b), DAcc::Mul(a, b) => dok(*a) && dok(*b), DAcc::Div(a, b) => dok(*a) && dok(*b), DAcc::Range(r) => rwf(r), DAcc::Other(k) => false } }
pub open spec fn daff(d: DAcc) -> bool decreases d { match d { DAcc::Const(c) => i64ok(c), DAcc::Dim(k) => 0 <= k <= 0xffff_ffff, DAcc::Add(a, b) => daff(*a) && daff(*b), DAcc::Sub(a, b) => daff(*a) && daff(*b), DAcc::Mul(a, b) => daff(*a) && daff(*b), DAcc::Div(a, b) => daff(*a) && daff(*b), _ => false } }
// the highest dimension is below n
pub open spec fn ddim(d: DAcc, n: int) -> bool decreases d { match d { DAcc::Dim(k) => 0 <= k < n, DAcc::Add(a, b) => ddim(*a, n) && ddim(*b, n), DAcc::Sub(a, b) => ddim(*a, n) && ddim(*b, n), DAcc::Mul(a, b) => ddim(*a, n) && ddim(*b, n), DAcc::Div(a, b) => ddim(*a, n) && ddim(*b, n), _ => true } }
// the value of an affine access
pub open spec fn dval(d: DAcc, p: Seq<int>) -> int decreases d { match d { DAcc::Const(c) => c, DAcc::Dim(k) => p[k], DAcc::Add(a, b) => dval(*a, p) + dval(*b, p), DAcc::Sub(a, b) => dval(*a, p) - dval(*b, p), DAcc::Mul(a, b) => dval(*a, p) * dval(*b, p), DAcc::Div(a, b) => fdiv(dval(*a, p), dval(*b, p)), _ => 0 } }
// no division by zero
pub open spec fn ddiv(d: DAcc, p: Seq<int>) -> bool decreases d { match d { DAcc::Add(a, b) => ddiv(*a, p) && ddiv(*b, p), DAcc::Sub(a, b) => ddiv(*a, p) && ddiv(*b, p), DAcc::Mul(a, b) => ddiv(*a, p) && ddiv(*b, p), DAcc::Div(a, b) => ddiv(*a, p) && ddiv(*b, p) && dval(*b, p) != 0, _ => true } }
pub open spec fn pr(x: int, y: int) -> bool { true }
// the values of an access: one for affine accesses, those of the range for a range, all combinations for operations
pub open spec fn dhas(d: DAcc, p: Seq<int>, v: int) -> bool decreases d { match d { DAcc::Const(c) => v == c, DAcc::Dim(k) => v == p[k], DAcc::Range(r) => rin(r, v),
    DAcc::Add(a, b) => exists|x: int, y: int| #[trigger] pr(x, y) && dhas(*a, p, x) && dhas(*b, p, y) && v == x + y, DAcc::Sub(a, b) => exists|x: int, y: int| #[trigger] pr(x, y) && dhas(*a, p, x) && dhas(*b, p, y) && v == x - y,
    DAcc::Mul(a, b) => exists|x: int, y: int| #[trigger] pr(x, y) && dhas(*a, p, x) && dhas(*b, p, y) && v == x * y, DAcc::Div(a, b) => exists|x: int, y: int| #[trigger] pr(x, y) && dhas(*a, p, x) && dhas(*b, p, y) && v == fdiv(x, y), _ => false } }
// every value of the access and of its operands fits, and no divisor is zero
pub open spec fn dfit(d: DAcc, p: Seq<int>) -> bool decreases d { (forall|v: int| #[trigger] dhas(d, p, v) ==> -9223372036854775808 <= v < 9223372036854775807) && (match d { DAcc::Add(a, b) => dfit(*a, p) && dfit(*b, p), DAcc::Sub(a, b) => dfit(*a, p) && dfit(*b, p), DAcc::Mul(a, b) => dfit(*a, p) && dfit(*b, p), DAcc::Div(a, b) => dfit(*a, p) && dfit(*b, p) && !dhas(*b, p, 0), _ => true }) }
pub open spec fn dset(x: IndexSet, d: DAcc, p: Seq<int>) -> bool { iwf(x) && x.root is Some && x.allowedRank == 1 && forall|q: Seq<int>| #[trigger] iin(x, q) == (q.len() == 1 && dhas(d, p, q[0])) }
pub open spec fn dpre(d: DAcc, p: Point) -> bool { dok(d) && ddim(d, p.values.len() as int) && dfit(d, p.values) }
#[verifier::external_body] fn da_map(Ghost(d): Ghost<DAcc>, Ghost(p): Ghost<Point>) -> (r: Ghost<IndexSet>) requires dpre(d, p) ensures dset(r@, d, p.values) { unimplemented!() } //@lib virtual call of DimensionAccess::map: the contract that its overrides are proved against
#[verifier::external_body] fn da_expr(Ghost(d): Ghost<DAcc>) -> (r: Ghost<AExpr>) requires daff(d) ensures !(r@ is Null), forall|p: Seq<int>| ddiv(d, p) ==> #[trigger] aeval(r@, p) == dval(d, p), forall|n: int| ddim(d, n) ==> #[trigger] aok(r@, n), dshape(d, r@) { unimplemented!() } //@lib virtual call of DimensionAccess::getAffineExpr: the contract that its overrides are proved against
#[verifier::external_body] fn da_affine(Ghost(d): Ghost<DAcc>) -> (r: Ghost<bool>) requires !(d is Null) ensures r@ == daff(d) { unimplemented!() } //@lib virtual call of DimensionAccess::isAffine: the contract that its overrides are proved against
#[verifier::external_body] fn da_is_dim(Ghost(d): Ghost<DAcc>) -> (r: Ghost<bool>) ensures r@ == (d is Dim) { unimplemented!() } //@lib llvm::isa
#[verifier::external_body] fn da_is_const(Ghost(d): Ghost<DAcc>) -> (r: Ghost<bool>) ensures r@ == (d is Const) { unimplemented!() } //@lib llvm::isa
#[verifier::external_body] fn ml_isa_const(Ghost(d): Ghost<AExpr>) -> (r: Ghost<bool>) requires !(d is Null) ensures r@ == (d is Const) { unimplemented!() } //@lib mlir::isa
#[verifier::external_body] fn da_dyn_const_opt(Ghost(d): Ghost<DAcc>) -> (r: Ghost<Option<DimensionAccessConstant>>) ensures r@ is Some == d is Const, r@ matches Some(x) ==> x.value == d->Const_0 { unimplemented!() } //@lib llvm::dyn_cast
#[verifier::external_body] fn da_dyn_range_opt(Ghost(d): Ghost<DAcc>) -> (r: Ghost<Option<DimensionAccessRange>>) ensures r@ is Some == d is Range { unimplemented!() } //@lib llvm::dyn_cast
#[verifier::external_body] fn da_dyn_indices_opt(Ghost(d): Ghost<DAcc>) -> (r: Ghost<Option<DimensionAccessIndices>>) ensures r@ is Some ==> d is Other { unimplemented!() } //@lib llvm::dyn_cast
#[verifier::external_body] fn da_dyn_add_opt(Ghost(d): Ghost<DAcc>) -> (r: Ghost<Option<DimensionAccessAdd>>) ensures r@ is Some == d is Add, r@ matches Some(x) ==> x.first == *d->Add_0 && x.second == *d->Add_1 { unimplemented!() } //@lib llvm::dyn_cast
// a constant, a dimension, or a dimension plus a constant
pub open spec fn droto(d: DAcc) -> bool { match d { DAcc::Dim(k) => true, DAcc::Const(c) => true, DAcc::Add(a, b) => (*a is Dim && *b is Const) || (*a is Const && *b is Dim), _ => false } }
pub open spec fn dshape(d: DAcc, e: AExpr) -> bool { (d matches DAcc::Dim(k) ==> e == AExpr::Dim(k)) && (d matches DAcc::Const(c) ==> e == AExpr::Const(c)) && (droto(d) ==> roto(e)) }
pub open spec fn bop(o: int, a: int, b: int) -> int { if o == 0 { a + b } else if o == 1 { a - b } else if o == 2 { a * b } else { fdiv(a, b) } }
pub open spec fn mkd(o: int, a: DAcc, b: DAcc) -> DAcc { if o == 0 { DAcc::Add(Box::new(a), Box::new(b)) } else if o == 1 { DAcc::Sub(Box::new(a), Box::new(b)) } else if o == 2 { DAcc::Mul(Box::new(a), Box::new(b)) } else { DAcc::Div(Box::new(a), Box::new(b)) } }
// the combinations that have been visited
pub open spec fn vis(o: int, l: Seq<Point>, n: int, r: Seq<Point>, m: int, v: int) -> bool { exists|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n || (j == n && k < m)) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]) }
pub proof fn lemma_vis(o: int, l: Seq<Point>, n: int, r: Seq<Point>, m: int, v: int) requires 0 <= n < l.len(), 0 <= m < r.len() ensures vis(o, l, n, r, m + 1, v) == (vis(o, l, n, r, m, v) || v == bop(o, l[n].values[0], r[m].values[0]))
{
    if vis(o, l, n, r, m, v) { let (j, k) = choose|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n || (j == n && k < m)) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]); assert(j < n || (j == n && k < m + 1)); }
    if vis(o, l, n, r, m + 1, v) { let (j, k) = choose|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n || (j == n && k < m + 1)) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]); if j == n && k == m { } else { assert(j < n || (j == n && k < m)); } }
}
pub proof fn lemma_vis_row(o: int, l: Seq<Point>, n: int, r: Seq<Point>, v: int) requires 0 <= n < l.len() ensures vis(o, l, n, r, r.len() as int, v) == vis(o, l, n + 1, r, 0, v)
{
    if vis(o, l, n, r, r.len() as int, v) { let (j, k) = choose|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n || (j == n && k < r.len())) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]); assert(j < n + 1); }
    if vis(o, l, n + 1, r, 0, v) { let (j, k) = choose|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n + 1 || (j == n + 1 && k < 0)) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]); assert(j < n || (j == n && k < r.len())); }
}
pub open spec fn dcomb(o: int, a: DAcc, b: DAcc, p: Seq<int>, v: int) -> bool { exists|x: int, y: int| #[trigger] pr(x, y) && dhas(a, p, x) && dhas(b, p, y) && v == bop(o, x, y) }
pub proof fn lemma_comb(o: int, a: DAcc, b: DAcc, p: Seq<int>, v: int) requires 0 <= o <= 3 ensures dhas(mkd(o, a, b), p, v) == dcomb(o, a, b, p, v)
{
    let d = mkd(o, a, b);
    if o == 0 { assert(d == DAcc::Add(Box::new(a), Box::new(b))); assert(dhas(d, p, v) == exists|x: int, y: int| #[trigger] pr(x, y) && dhas(a, p, x) && dhas(b, p, y) && v == x + y); }
    else if o == 1 { assert(d == DAcc::Sub(Box::new(a), Box::new(b))); assert(dhas(d, p, v) == exists|x: int, y: int| #[trigger] pr(x, y) && dhas(a, p, x) && dhas(b, p, y) && v == x - y); }
    else if o == 2 { assert(d == DAcc::Mul(Box::new(a), Box::new(b))); assert(dhas(d, p, v) == exists|x: int, y: int| #[trigger] pr(x, y) && dhas(a, p, x) && dhas(b, p, y) && v == x * y); }
    else { assert(d == DAcc::Div(Box::new(a), Box::new(b))); assert(dhas(d, p, v) == exists|x: int, y: int| #[trigger] pr(x, y) && dhas(a, p, x) && dhas(b, p, y) && v == fdiv(x, y)); }
}
pub proof fn lemma_vis_all(o: int, x: IndexSet, a: DAcc, y: IndexSet, b: DAcc, p: Seq<int>, v: int) requires 0 <= o <= 3, dset(x, a, p), dset(y, b, p) ensures vis(o, ipts(x), ipts(x).len() as int, ipts(y), 0, v) == dhas(mkd(o, a, b), p, v)
{
    lemma_comb(o, a, b, p, v); lemma_ipts(x); lemma_ipts(y); let l = ipts(x); let r = ipts(y); let n = l.len() as int;
    if vis(o, l, n, r, 0, v) { let (j, k) = choose|j: int, k: int| 0 <= j < l.len() && 0 <= k < r.len() && (j < n || (j == n && k < 0)) && v == bop(o, (#[trigger] l[j]).values[0], (#[trigger] r[k]).values[0]); assert(iin(x, l[j].values)); assert(iin(y, r[k].values)); assert(dhas(a, p, l[j].values[0]) && dhas(b, p, r[k].values[0])); assert(pr(l[j].values[0], r[k].values[0])); assert(dcomb(o, a, b, p, v)); }
    if dhas(mkd(o, a, b), p, v) {
        assert(dcomb(o, a, b, p, v)); let (s, t) = choose|s: int, t: int| #[trigger] pr(s, t) && dhas(a, p, s) && dhas(b, p, t) && v == bop(o, s, t);
        let qs = seq![s]; let qt = seq![t]; assert(qs[0] == s && qt[0] == t); assert(iin(x, qs)); assert(iin(y, qt));
        let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).values == seq![s]; let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).values == seq![t];
        assert(l[j].values[0] == s && r[k].values[0] == t);
    }
}
pub proof fn lemma_opnd(x: IndexSet, a: DAcc, p: Seq<int>) requires dset(x, a, p) ensures ipts(x).len() > 0, forall|k: int| 0 <= k < ipts(x).len() ==> (#[trigger] ipts(x)[k]).values.len() == 1 && dhas(a, p, ipts(x)[k].values[0])
{ lemma_ipts(x); lemma_iflat(x); let q = choose|q: Seq<int>| #[trigger] iin(x, q); assert(iin(x, q)); let k = choose|k: int| 0 <= k < ipts(x).len() && (#[trigger] ipts(x)[k]).values == q; assert forall|k: int| 0 <= k < ipts(x).len() implies (#[trigger] ipts(x)[k]).values.len() == 1 && dhas(a, p, ipts(x)[k].values[0]) by { assert(iin(x, ipts(x)[k].values)); } }
pub proof fn lemma_opfit(o: int, a: DAcc, b: DAcc, p: Seq<int>, x: int, y: int) requires 0 <= o <= 3, dfit(mkd(o, a, b), p), dhas(a, p, x), dhas(b, p, y) ensures -9223372036854775808 <= bop(o, x, y) < 9223372036854775807, o == 3 ==> y != 0, dhas(mkd(o, a, b), p, bop(o, x, y)), dfit(a, p), dfit(b, p)
{ lemma_comb(o, a, b, p, bop(o, x, y)); assert(pr(x, y)); assert(dcomb(o, a, b, p, bop(o, x, y))); if o == 3 { assert(mkd(o, a, b) == DAcc::Div(Box::new(a), Box::new(b))); } else if o == 2 { assert(mkd(o, a, b) == DAcc::Mul(Box::new(a), Box::new(b))); } else if o == 1 { assert(mkd(o, a, b) == DAcc::Sub(Box::new(a), Box::new(b))); } }
pub open spec fn moddiv(k: AK, a: DAcc, b: DAcc) -> DAcc { if k is Mod { mkd(1, a, mkd(2, mkd(3, a, b), b)) } else { mkd(1, DAcc::Const(0), mkd(3, mkd(1, DAcc::Const(0), a), b)) } }
pub proof fn lemma_bin(o: int, a: DAcc, b: DAcc) requires 0 <= o <= 3 ensures daff(mkd(o, a, b)) == (daff(a) && daff(b)), forall|n: int| #[trigger] ddim(mkd(o, a, b), n) == (ddim(a, n) && ddim(b, n)), forall|p: Seq<int>| #[trigger] dval(mkd(o, a, b), p) == bop(o, dval(a, p), dval(b, p)), forall|p: Seq<int>| #[trigger] ddiv(mkd(o, a, b), p) == (ddiv(a, p) && ddiv(b, p) && (o == 3 ==> dval(b, p) != 0))
{ if o == 0 { assert(mkd(o, a, b) == DAcc::Add(Box::new(a), Box::new(b))); } else if o == 1 { assert(mkd(o, a, b) == DAcc::Sub(Box::new(a), Box::new(b))); } else if o == 2 { assert(mkd(o, a, b) == DAcc::Mul(Box::new(a), Box::new(b))); } else { assert(mkd(o, a, b) == DAcc::Div(Box::new(a), Box::new(b))); } }
pub proof fn lemma_bins() ensures forall|a: DAcc, b: DAcc| #[trigger] daff(DAcc::Add(Box::new(a), Box::new(b))) == (daff(a) && daff(b)), forall|a: DAcc, b: DAcc, n: int| #[trigger] ddim(DAcc::Add(Box::new(a), Box::new(b)), n) == (ddim(a, n) && ddim(b, n)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] dval(DAcc::Add(Box::new(a), Box::new(b)), p) == bop(0, dval(a, p), dval(b, p)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] ddiv(DAcc::Add(Box::new(a), Box::new(b)), p) == (ddiv(a, p) && ddiv(b, p)), forall|a: DAcc, b: DAcc| #[trigger] daff(DAcc::Mul(Box::new(a), Box::new(b))) == (daff(a) && daff(b)), forall|a: DAcc, b: DAcc, n: int| #[trigger] ddim(DAcc::Mul(Box::new(a), Box::new(b)), n) == (ddim(a, n) && ddim(b, n)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] dval(DAcc::Mul(Box::new(a), Box::new(b)), p) == bop(2, dval(a, p), dval(b, p)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] ddiv(DAcc::Mul(Box::new(a), Box::new(b)), p) == (ddiv(a, p) && ddiv(b, p)), forall|a: DAcc, b: DAcc| #[trigger] daff(DAcc::Div(Box::new(a), Box::new(b))) == (daff(a) && daff(b)), forall|a: DAcc, b: DAcc, n: int| #[trigger] ddim(DAcc::Div(Box::new(a), Box::new(b)), n) == (ddim(a, n) && ddim(b, n)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] dval(DAcc::Div(Box::new(a), Box::new(b)), p) == bop(3, dval(a, p), dval(b, p)), forall|a: DAcc, b: DAcc, p: Seq<int>| #[trigger] ddiv(DAcc::Div(Box::new(a), Box::new(b)), p) == (ddiv(a, p) && ddiv(b, p) && dval(b, p) != 0)
{ }
pub proof fn lemma_moddiv(k: AK, a: DAcc, b: DAcc) requires daff(a), daff(b), k is Mod || k is CeilDiv
    ensures daff(moddiv(k, a, b)), forall|n: int| ddim(a, n) && ddim(b, n) ==> #[trigger] ddim(moddiv(k, a, b), n), forall|p: Seq<int>| ddiv(moddiv(k, a, b), p) ==> ddiv(a, p) && ddiv(b, p) && #[trigger] dval(moddiv(k, a, b), p) == bineval(k, dval(a, p), dval(b, p))
{
    let z = DAcc::Const(0);
    assert(daff(z)); assert(forall|n: int| ddim(z, n)); assert(forall|p: Seq<int>| dval(z, p) == 0 && ddiv(z, p));
    if k is Mod { lemma_bin(3, a, b); lemma_bin(2, mkd(3, a, b), b); lemma_bin(1, a, mkd(2, mkd(3, a, b), b)); let d = moddiv(k, a, b);
        assert forall|p: Seq<int>| ddiv(d, p) implies ddiv(a, p) && ddiv(b, p) && #[trigger] dval(d, p) == bineval(k, dval(a, p), dval(b, p)) by { let y = mkd(2, mkd(3, a, b), b); assert(ddiv(y, p)); assert(ddiv(mkd(3, a, b), p)); assert(dval(y, p) == bop(2, dval(mkd(3, a, b), p), dval(b, p))); } }
    else { lemma_bin(1, z, a); lemma_bin(3, mkd(1, z, a), b); lemma_bin(1, z, mkd(3, mkd(1, z, a), b)); let d = moddiv(k, a, b);
        assert forall|p: Seq<int>| ddiv(d, p) implies ddiv(a, p) && ddiv(b, p) && #[trigger] dval(d, p) == bineval(k, dval(a, p), dval(b, p)) by { let y = mkd(3, mkd(1, z, a), b); assert(ddiv(y, p)); assert(ddiv(mkd(1, z, a), p)); assert(dval(y, p) == bop(3, dval(mkd(1, z, a), p), dval(b, p))); } }
}
%end
%abbr CURMAP = llvm::DenseMap<marco::modeling::IndexSet const*, marco::modeling::Point, llvm::DenseMapInfo<marco::modeling::IndexSet const*, void>, llvm::detail::DenseMapPair<marco::modeling::IndexSet const*, marco::modeling::Point> >
%abbr DAA:: = marco::modeling::DimensionAccessAdd::
%abbr DAS:: = marco::modeling::DimensionAccessSub::
%abbr DAM:: = marco::modeling::DimensionAccessMul::
%abbr DAV:: = marco::modeling::DimensionAccessDiv::
%abbr DAC:: = marco::modeling::DimensionAccessConstant::
%abbr DAD:: = marco::modeling::DimensionAccessDimension::
%abbr DAR:: = marco::modeling::DimensionAccessRange::
%fn DAC::map(marco::modeling::Point const&, CURMAP&) const
%name Da_const_map
%req
- dpre(DAcc::Const(this.value as int), point)
%ens
- [exactly the value] dset(ret, DAcc::Const(this.value as int), point.values)
%entry
assert(dhas(DAcc::Const(this.value as int), point.values, this.value as int));
%endfn
%fn DAD::map(marco::modeling::Point const&, CURMAP&) const
%name Da_dim_map
%req
- dpre(DAcc::Dim(this.dimension as int), point)
%ens
- [exactly the coordinate] dset(ret, DAcc::Dim(this.dimension as int), point.values)
%entry
assert(dhas(DAcc::Dim(this.dimension as int), point.values, point.values[this.dimension as int]));
%endfn
%fn DAR::map(marco::modeling::Point const&, CURMAP&) const
%name Da_range_map
%req
- dpre(DAcc::Range(this.range), point)
%ens
- [exactly the values of the range] dset(ret, DAcc::Range(this.range), point.values)
%aftercall Ix_from_boxes
assert forall|q: Seq<int>| #[trigger] iin($ret, q) == (q.len() == 1 && rin(this.range, q[0])) by {
  assert(anyin($1, q) == bin($1[0], q)) by { if bin($1[0], q) { assert(anyin($1, q)); } }
  assert($1[0].ranges.len() == 1 && $1[0].ranges[0] == this.range); }
lemma_iflat($ret); assert(iin($ret, seq![this.range.begin_ as int]));
%endfn
%fn DAA::map(marco::modeling::Point const&, CURMAP&) const
%name Da_add_map
%req
- dpre(mkd(0, this.first, this.second), point)
%ens
- [exactly the sums of the values of the operands] dset(ret, mkd(0, this.first, this.second), point.values)
%entry
let ghost a = this.first;
let ghost b = this.second;
let ghost pv = point.values;
%loop 1
%before
lemma_opnd(@mappedLhs, a, pv); lemma_opnd(@mappedRhs, b, pv);
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(0, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0]))
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(0, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0])) by { if q.len() == 1 { lemma_vis_row(0, ipts(@mappedLhs), $i - 1, ipts(@mappedRhs), q[0]); } }
%after
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && dhas(mkd(0, a, b), pv, q[0])) by { if q.len() == 1 { lemma_vis_all(0, @mappedLhs, a, @mappedRhs, b, pv, q[0]); } }
lemma_iflat(@result); lemma_opfit(0, a, b, pv, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0]);
assert(iin(@result, seq![bop(0, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0])]));
%endloop
%loop 2
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(0, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0]))
%begin
let ghost rs0 = @result;
let ghost pl = ipts(@mappedLhs)[$i_1];
let ghost pr = ipts(@mappedRhs)[$i];
lemma_opfit(0, a, b, pv, pl.values[0], pr.values[0]);
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(0, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0])) by { if q.len() == 1 { lemma_vis(0, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]); } if q.len() == 1 && q[0] == bop(0, pl.values[0], pr.values[0]) { assert(q =~= seq![bop(0, pl.values[0], pr.values[0])]); } assert(iin(rs0, q) == (q.len() == 1 && vis(0, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]))); }
%endloop
%loop 3
%inv
- @coordinates.len() == $i && $i <= 1
- $i == 1 ==> @coordinates[0] == bop(0, pl.values[0], pr.values[0])
%after
assert(@coordinates =~= seq![bop(0, pl.values[0], pr.values[0])]);
%endloop
%endfn
%fn DAS::map(marco::modeling::Point const&, CURMAP&) const
%name Da_sub_map
%req
- dpre(mkd(1, this.first, this.second), point)
%ens
- [exactly the differences of the values of the operands] dset(ret, mkd(1, this.first, this.second), point.values)
%entry
let ghost a = this.first;
let ghost b = this.second;
let ghost pv = point.values;
%loop 1
%before
lemma_opnd(@mappedLhs, a, pv); lemma_opnd(@mappedRhs, b, pv);
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(1, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0]))
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(1, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0])) by { if q.len() == 1 { lemma_vis_row(1, ipts(@mappedLhs), $i - 1, ipts(@mappedRhs), q[0]); } }
%after
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && dhas(mkd(1, a, b), pv, q[0])) by { if q.len() == 1 { lemma_vis_all(1, @mappedLhs, a, @mappedRhs, b, pv, q[0]); } }
lemma_iflat(@result); lemma_opfit(1, a, b, pv, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0]);
assert(iin(@result, seq![bop(1, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0])]));
%endloop
%loop 2
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(1, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0]))
%begin
let ghost rs0 = @result;
let ghost pl = ipts(@mappedLhs)[$i_1];
let ghost pr = ipts(@mappedRhs)[$i];
lemma_opfit(1, a, b, pv, pl.values[0], pr.values[0]);
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(1, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0])) by { if q.len() == 1 { lemma_vis(1, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]); } if q.len() == 1 && q[0] == bop(1, pl.values[0], pr.values[0]) { assert(q =~= seq![bop(1, pl.values[0], pr.values[0])]); } assert(iin(rs0, q) == (q.len() == 1 && vis(1, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]))); }
%endloop
%loop 3
%inv
- @coordinates.len() == $i && $i <= 1
- $i == 1 ==> @coordinates[0] == bop(1, pl.values[0], pr.values[0])
%after
assert(@coordinates =~= seq![bop(1, pl.values[0], pr.values[0])]);
%endloop
%endfn
%fn DAM::map(marco::modeling::Point const&, CURMAP&) const
%name Da_mul_map
%req
- dpre(mkd(2, this.first, this.second), point)
%ens
- [exactly the products of the values of the operands] dset(ret, mkd(2, this.first, this.second), point.values)
%entry
let ghost a = this.first;
let ghost b = this.second;
let ghost pv = point.values;
%loop 1
%before
lemma_opnd(@mappedLhs, a, pv); lemma_opnd(@mappedRhs, b, pv);
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(2, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0]))
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(2, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0])) by { if q.len() == 1 { lemma_vis_row(2, ipts(@mappedLhs), $i - 1, ipts(@mappedRhs), q[0]); } }
%after
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && dhas(mkd(2, a, b), pv, q[0])) by { if q.len() == 1 { lemma_vis_all(2, @mappedLhs, a, @mappedRhs, b, pv, q[0]); } }
lemma_iflat(@result); lemma_opfit(2, a, b, pv, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0]);
assert(iin(@result, seq![bop(2, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0])]));
%endloop
%loop 2
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(2, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0]))
%begin
let ghost rs0 = @result;
let ghost pl = ipts(@mappedLhs)[$i_1];
let ghost pr = ipts(@mappedRhs)[$i];
lemma_opfit(2, a, b, pv, pl.values[0], pr.values[0]);
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(2, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0])) by { if q.len() == 1 { lemma_vis(2, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]); } if q.len() == 1 && q[0] == bop(2, pl.values[0], pr.values[0]) { assert(q =~= seq![bop(2, pl.values[0], pr.values[0])]); } assert(iin(rs0, q) == (q.len() == 1 && vis(2, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]))); }
%endloop
%loop 3
%inv
- @coordinates.len() == $i && $i <= 1
- $i == 1 ==> @coordinates[0] == bop(2, pl.values[0], pr.values[0])
%after
assert(@coordinates =~= seq![bop(2, pl.values[0], pr.values[0])]);
%endloop
%endfn
%fn DAV::map(marco::modeling::Point const&, CURMAP&) const
%name Da_div_map
%req
- dpre(mkd(3, this.first, this.second), point)
%ens
- [exactly the quotients, rounded down, of the values of the operands] dset(ret, mkd(3, this.first, this.second), point.values)
%entry
let ghost a = this.first;
let ghost b = this.second;
let ghost pv = point.values;
%loop 1
%before
lemma_opnd(@mappedLhs, a, pv); lemma_opnd(@mappedRhs, b, pv);
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(3, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0]))
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(3, ipts(@mappedLhs), $i, ipts(@mappedRhs), 0, q[0])) by { if q.len() == 1 { lemma_vis_row(3, ipts(@mappedLhs), $i - 1, ipts(@mappedRhs), q[0]); } }
%after
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && dhas(mkd(3, a, b), pv, q[0])) by { if q.len() == 1 { lemma_vis_all(3, @mappedLhs, a, @mappedRhs, b, pv, q[0]); } }
lemma_iflat(@result); lemma_opfit(3, a, b, pv, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0]);
assert(iin(@result, seq![bop(3, ipts(@mappedLhs)[0].values[0], ipts(@mappedRhs)[0].values[0])]));
%endloop
%loop 2
%inv
- iwf(@result) && (@result.initialized ==> @result.allowedRank == 1) && (@result.root is Some ==> @result.initialized)
- forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(3, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0]))
%begin
let ghost rs0 = @result;
let ghost pl = ipts(@mappedLhs)[$i_1];
let ghost pr = ipts(@mappedRhs)[$i];
lemma_opfit(3, a, b, pv, pl.values[0], pr.values[0]);
%end
assert forall|q: Seq<int>| #[trigger] iin(@result, q) == (q.len() == 1 && vis(3, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i, q[0])) by { if q.len() == 1 { lemma_vis(3, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]); } if q.len() == 1 && q[0] == bop(3, pl.values[0], pr.values[0]) { assert(q =~= seq![bop(3, pl.values[0], pr.values[0])]); } assert(iin(rs0, q) == (q.len() == 1 && vis(3, ipts(@mappedLhs), $i_1, ipts(@mappedRhs), $i - 1, q[0]))); }
%endloop
%loop 3
%inv
- @coordinates.len() == $i && $i <= 1
- $i == 1 ==> @coordinates[0] == bop(3, pl.values[0], pr.values[0])
%after
assert(@coordinates =~= seq![bop(3, pl.values[0], pr.values[0])]);
%endloop
%endfn
%fn DAC::getAffineExpr() const
%name Da_const_expr
%req
- daff(DAcc::Const(this.value as int))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(DAcc::Const(this.value as int), p) ==> #[trigger] aeval(ret, p) == dval(DAcc::Const(this.value as int), p)
- forall|n: int| ddim(DAcc::Const(this.value as int), n) ==> #[trigger] aok(ret, n)
- dshape(DAcc::Const(this.value as int), ret)
%endfn
%fn DAD::getAffineExpr() const
%name Da_dim_expr
%req
- daff(DAcc::Dim(this.dimension as int))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(DAcc::Dim(this.dimension as int), p) ==> #[trigger] aeval(ret, p) == dval(DAcc::Dim(this.dimension as int), p)
- forall|n: int| ddim(DAcc::Dim(this.dimension as int), n) ==> #[trigger] aok(ret, n)
- dshape(DAcc::Dim(this.dimension as int), ret)
%endfn
%fn DAA::getAffineExpr() const
%name Da_add_expr
%req
- daff(mkd(0, this.first, this.second))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(mkd(0, this.first, this.second), p) ==> #[trigger] aeval(ret, p) == dval(mkd(0, this.first, this.second), p)
- forall|n: int| ddim(mkd(0, this.first, this.second), n) ==> #[trigger] aok(ret, n)
- dshape(mkd(0, this.first, this.second), ret)
%endfn
%fn DAA::isAffine() const
%name Da_add_affine
%req
- !(this.first is Null) && !(this.second is Null)
%ens
- ret == daff(mkd(0, this.first, this.second))
%endfn
%fn DAS::getAffineExpr() const
%name Da_sub_expr
%req
- daff(mkd(1, this.first, this.second))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(mkd(1, this.first, this.second), p) ==> #[trigger] aeval(ret, p) == dval(mkd(1, this.first, this.second), p)
- forall|n: int| ddim(mkd(1, this.first, this.second), n) ==> #[trigger] aok(ret, n)
- dshape(mkd(1, this.first, this.second), ret)
%endfn
%fn DAS::isAffine() const
%name Da_sub_affine
%req
- !(this.first is Null) && !(this.second is Null)
%ens
- ret == daff(mkd(1, this.first, this.second))
%endfn
%fn DAM::getAffineExpr() const
%name Da_mul_expr
%req
- daff(mkd(2, this.first, this.second))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(mkd(2, this.first, this.second), p) ==> #[trigger] aeval(ret, p) == dval(mkd(2, this.first, this.second), p)
- forall|n: int| ddim(mkd(2, this.first, this.second), n) ==> #[trigger] aok(ret, n)
- dshape(mkd(2, this.first, this.second), ret)
%endfn
%fn DAM::isAffine() const
%name Da_mul_affine
%req
- !(this.first is Null) && !(this.second is Null)
%ens
- ret == daff(mkd(2, this.first, this.second))
%endfn
%fn DAV::getAffineExpr() const
%name Da_div_expr
%req
- daff(mkd(3, this.first, this.second))
%ens
- [the same value everywhere] !(ret is Null) && forall|p: Seq<int>| ddiv(mkd(3, this.first, this.second), p) ==> #[trigger] aeval(ret, p) == dval(mkd(3, this.first, this.second), p)
- forall|n: int| ddim(mkd(3, this.first, this.second), n) ==> #[trigger] aok(ret, n)
- dshape(mkd(3, this.first, this.second), ret)
%endfn
%fn DAV::isAffine() const
%name Da_div_affine
%req
- !(this.first is Null) && !(this.second is Null)
%ens
- ret == daff(mkd(3, this.first, this.second))
%endfn
%fn buildModOrCeilDiv(mlir::AffineBinaryOpExpr, std::unique_ptr<marco::modeling::DimensionAccess, std::default_delete<marco::modeling::DimensionAccess> >, std::unique_ptr<marco::modeling::DimensionAccess, std::default_delete<marco::modeling::DimensionAccess> >)
%name Da_modceil
%req
- expression is Bin && (expression->Bin_0 is Mod || expression->Bin_0 is CeilDiv) && daff(lhs) && daff(rhs)
%ens
- ret == moddiv(expression->Bin_0, lhs, rhs)
%endfn
%fn marco::modeling::DimensionAccess::build(mlir::AffineExpr)
%name Da_build
%req
- aok(expression, 0x1_0000_0000)
%ens
- daff(ret) && forall|n: int| aok(expression, n) ==> #[trigger] ddim(ret, n)
- [the same value everywhere] forall|p: Seq<int>| ddiv(ret, p) ==> #[trigger] dval(ret, p) == aeval(expression, p)
%dec
- expression
%entry
lemma_bins();
%aftercall Da_modceil
lemma_moddiv(expression->Bin_0, $2, $3);
%endfn
%abbr DARR = llvm::ArrayRef<std::unique_ptr<marco::modeling::DimensionAccess, std::default_delete<marco::modeling::DimensionAccess> > >
%abbr GEN:: = marco::modeling::AccessFunctionGeneric::
%abbr AFM:: = marco::modeling::AccessFunctionAffineMap::
%fn AFM::buildAffineMap(mlir::MLIRContext*, unsigned long, DARR)
%name Am_build
%req
- numOfDimensions <= 0xffff_ffff && results.len() <= 0xffff_ffff && forall|k: int| 0 <= k < results.len() ==> daff(#[trigger] results[k]) && ddim(results[k], numOfDimensions as int)
%ens
- amok(ret) && ret.dims == numOfDimensions && ret.res.len() == results.len()
- [every result keeps its value] forall|k: int, p: Seq<int>| 0 <= k < results.len() && ddiv(results[k], p) ==> #[trigger] aeval(ret.res[k], p) == dval(results[k], p)
- forall|k: int| 0 <= k < results.len() && droto(results[k]) ==> roto(#[trigger] ret.res[k])
- forall|k: int| 0 <= k < results.len() && results[k] is Const ==> #[trigger] ret.res[k] is Const
%loop 1
%inv
- forall|k: int| 0 <= k < $i ==> dshape(results[k], #[trigger] @expressions[k])
- @expressions.len() == $i
- forall|k: int| 0 <= k < $i ==> aok(#[trigger] @expressions[k], numOfDimensions as int)
- forall|k: int, p: Seq<int>| 0 <= k < $i && ddiv(results[k], p) ==> #[trigger] aeval(@expressions[k], p) == dval(results[k], p)
%endloop
%endfn
%fn GEN::isAffine() const
%name Ag_isAffine
%req
- forall|k: int| 0 <= k < this.results.len() ==> !(#[trigger] this.results[k] is Null)
%ens
- ret == (forall|k: int| 0 <= k < this.results.len() ==> daff(#[trigger] this.results[k]))
%loop 1
%inv
- $acc == (forall|k: int| 0 <= k < $i ==> daff(#[trigger] this.results[k]))
%endloop
%endfn
%fn GEN::getAffineMap() const
%name Ag_getAffineMap
%req
- this.numOfDimensions <= 0xffff_ffff && this.results.len() <= 0xffff_ffff && forall|k: int| 0 <= k < this.results.len() ==> daff(#[trigger] this.results[k]) && ddim(this.results[k], this.numOfDimensions as int)
%ens
- amok(ret) && ret.dims == this.numOfDimensions && ret.res.len() == this.results.len()
- [every result keeps its value] forall|k: int, p: Seq<int>| 0 <= k < this.results.len() && ddiv(this.results[k], p) ==> #[trigger] aeval(ret.res[k], p) == dval(this.results[k], p)
%loop 1
%inv
- @expressions.len() == $i
- forall|k: int| 0 <= k < $i ==> aok(#[trigger] @expressions[k], this.numOfDimensions as int)
- forall|k: int, p: Seq<int>| 0 <= k < $i && ddiv(this.results[k], p) ==> #[trigger] aeval(@expressions[k], p) == dval(this.results[k], p)
%endloop
%endfn
%fn marco::modeling::AccessFunctionAffineConstant::canBeBuilt(DARR)
%name Ac_canBeBuilt
%ens
- [only constant results] ret == (forall|k: int| 0 <= k < results.len() ==> #[trigger] results[k] is Const)
%loop 1
%inv
- $acc == (forall|k: int| 0 <= k < $i ==> #[trigger] results[k] is Const)
%endloop
%endfn
%fn marco::modeling::AccessFunctionConstant::canBeBuilt(DARR)
%name Cn_canBeBuilt
%ens
- [no result depends on the point] ret ==> (forall|k: int| 0 <= k < results.len() ==> #[trigger] results[k] is Const || results[k] is Range || results[k] is Other)
%loop 1
%inv
- $acc ==> (forall|k: int| 0 <= k < $i ==> #[trigger] results[k] is Const || results[k] is Range || results[k] is Other)
%endloop
%endfn
%fn marco::modeling::AccessFunctionEmpty::canBeBuilt(unsigned long, DARR)
%name Em_canBeBuilt
%ens
- ret == (numOfDimensions == 0 && results.len() == 0)
%endfn
%fn marco::modeling::AccessFunctionRotoTranslation::canBeBuilt(unsigned int, DARR)
%name Rt_canBeBuilt
%ens
- [only dimensions, constants and their sums] ret == (numOfDimensions > 0 && results.len() > 0 && forall|k: int| 0 <= k < results.len() ==> droto(#[trigger] results[k]))
%loop 1
%inv
- $acc == (forall|k: int| 0 <= k < $i ==> droto(#[trigger] results[k]))
%endloop
%endfn
%fn GEN::AccessFunctionGeneric(mlir::MLIRContext*, unsigned long, DARR)
%name Ag_ctor
%ens
- ret.numOfDimensions == numOfDimensions && ret.results == results
%loop 1
%inv
- this.results == results.subrange(0, $i as int) && this.numOfDimensions == numOfDimensions
%after
assert(results.subrange(0, results.len() as int) =~= results);
%endloop
%endfn
%fn GEN::AccessFunctionGeneric(marco::modeling::AccessFunction::Kind, mlir::MLIRContext*, unsigned long, DARR)
%name Ag_ctor_kind
%ens
- ret.numOfDimensions == numOfDimensions && ret.results == results
%loop 1
%inv
- this.results == results.subrange(0, $i as int) && this.numOfDimensions == numOfDimensions
%after
assert(results.subrange(0, results.len() as int) =~= results);
%endloop
%endfn
%fn build(mlir::MLIRContext*, unsigned int, DARR)
%name Af_build_dims
%req
- results.len() <= 0xffff_ffff && forall|k: int| 0 <= k < results.len() ==> ddim(#[trigger] results[k], numOfDimensions as int) && !(results[k] is Null) && (droto(results[k]) ==> daff(results[k]))
%ens
- [every representation has the given results] ret matches AFn::Gen(n, rs) ==> n == numOfDimensions && rs == results
- [an affine map only for affine results, with the same values] ret matches AFn::Fn(m) ==> amok(m) && m.dims == numOfDimensions && m.res.len() == results.len() && forall|k: int, p: Seq<int>| 0 <= k < results.len() && ddiv(results[k], p) ==> #[trigger] aeval(m.res[k], p) == dval(results[k], p)
- !(ret is Null)
- ret is Fn ==> forall|k: int| 0 <= k < results.len() ==> droto(#[trigger] results[k])
%endfn
%fn marco::modeling::AccessFunction::convertAffineExpressions(llvm::ArrayRef<mlir::AffineExpr>)
%name Af_convert
%req
- forall|k: int| 0 <= k < expressions.len() ==> aok(#[trigger] expressions[k], 0x1_0000_0000)
%ens
- ret.len() == expressions.len() && forall|k: int| 0 <= k < ret.len() ==> daff(#[trigger] ret[k])
- forall|k: int, n: int| 0 <= k < ret.len() && aok(expressions[k], n) ==> #[trigger] ddim(ret[k], n)
- [the same value everywhere] forall|k: int, p: Seq<int>| 0 <= k < ret.len() && ddiv(ret[k], p) ==> #[trigger] dval(ret[k], p) == aeval(expressions[k], p)
%loop 1
%inv
- @results.len() == $i && forall|k: int| 0 <= k < $i ==> daff(#[trigger] @results[k])
- forall|k: int, n: int| 0 <= k < $i && aok(expressions[k], n) ==> #[trigger] ddim(@results[k], n)
- forall|k: int, p: Seq<int>| 0 <= k < $i && ddiv(@results[k], p) ==> #[trigger] dval(@results[k], p) == aeval(expressions[k], p)
%endloop
%endfn
%fn marco::modeling::AccessFunction::build(mlir::AffineMap)
%name Af_build
%req
- amok(affineMap)
%ens
- [a generic function yields the values of the map] ret matches AFn::Gen(n, rs) ==> n == affineMap.dims && rs.len() == affineMap.res.len() && forall|k: int, p: Seq<int>| 0 <= k < rs.len() && p.len() >= n && ddiv(rs[k], p) ==> #[trigger] dval(rs[k], p) == aeval(affineMap.res[k], p)
- [an affine function yields the values of the map] ret matches AFn::Fn(m) ==> amok(m) && m.dims == affineMap.dims && m.res.len() == affineMap.res.len() && forall|k: int, p: Seq<int>| 0 <= k < m.res.len() && p.len() >= m.dims ==> #[trigger] aeval(m.res[k], p) == aeval(affineMap.res[k], p)
- !(ret is Null)
%aftercall ml_simplify
assert forall|k: int| 0 <= k < $ret.res.len() implies aok(#[trigger] $ret.res[k], 0x1_0000_0000) by { lemma_aok_mono($ret.res[k], $ret.dims, 0x1_0000_0000); }
assert forall|k: int, p: Seq<int>| 0 <= k < $ret.res.len() && p.len() >= $ret.dims implies #[trigger] aeval($ret.res[k], p) == aeval(affineMap.res[k], p) by { assert(mev($ret, p) == mev(affineMap, p)); assert(mev($ret, p)[k] == aeval($ret.res[k], p)); assert(mev(affineMap, p)[k] == aeval(affineMap.res[k], p)); }
%aftercall Af_convert
assert forall|k: int, p: Seq<int>| 0 <= k < $ret.len() && droto($ret[k]) implies #[trigger] ddiv($ret[k], p) by { reveal_with_fuel(ddiv, 2); }
%endfn
%fn AFM::getWithGivenDimensions(unsigned long) const
%name Am_getWith
%req
- amok(this.affineMap) && requestedDims <= 0xffff_ffff
%ens
- [the same mapping on more dimensions] afok(ret) && ret->Fn_0.dims >= this.affineMap.dims && ret->Fn_0.dims >= requestedDims && forall|p: Seq<int>| p.len() >= ret->Fn_0.dims ==> #[trigger] afev(ret, p) == mev(this.affineMap, p)
%endfn
