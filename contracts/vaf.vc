%abbr VS:: = marco::modeling::internal::VAFSolutions::
%abbr AFN = marco::modeling::AccessFunction
%drop VAFSolutions.matrices
%drop VAFSolutions.generator
%prelude
// the number of combinations of the indices that an access does not use: each of them needs its own solution
pub open spec fn vcount(m: AMap, s: Seq<Range>, n: int) -> int decreases n { if n <= 0 { 1 } else if ruses(m, n - 1, m.res.len() as int) == 0 { vcount(m, s, n - 1) * rlen(s[n - 1]) } else { vcount(m, s, n - 1) } }
pub open spec fn vsum(m: AMap, f: Seq<MultidimensionalRange>, n: int) -> int decreases n { if n <= 0 { 0 } else { vsum(m, f, n - 1) + vcount(m, f[n - 1].ranges, m.dims) } }
pub proof fn lemma_vcount(m: AMap, s: Seq<Range>, a: int, n: int) requires swf(s), 0 <= a <= n <= s.len() ensures 1 <= vcount(m, s, a) <= vcount(m, s, n) decreases n
{ if n > 0 { if a < n { lemma_vcount(m, s, a, n - 1); } else { lemma_vcount(m, s, n - 1, n - 1); } assert(rwf(s[n - 1])); let x = vcount(m, s, n - 1); let y = rlen(s[n - 1]); assert(x * y >= x) by (nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn lemma_vsum(m: AMap, f: Seq<MultidimensionalRange>, a: int, n: int) requires m.dims >= 0, 0 <= a <= n <= f.len(), forall|k: int| 0 <= k < f.len() ==> bwf(#[trigger] f[k]) && f[k].ranges.len() == m.dims ensures 0 <= vsum(m, f, a) <= vsum(m, f, n) decreases n
{ if n > 0 { assert(bwf(f[n - 1])); lemma_vcount(m, f[n - 1].ranges, 0, m.dims); if a < n { lemma_vsum(m, f, a, n - 1); } else { lemma_vsum(m, f, n - 1, n - 1); } } }
%end
%fn VS::getSolutionsAmount(marco::modeling::AccessFunctionRotoTranslation const&) const
%name Vs_amount_roto
%req
- rtok(accessFunction.affineMap) && iwf(this.equationIndices) && (this.equationIndices.root is Some ==> this.equationIndices.allowedRank == accessFunction.affineMap.dims)
- (forall|k: int| 0 <= k < iflat(this.equationIndices).len() ==> fits((#[trigger] iflat(this.equationIndices)[k]).ranges)) && vsum(accessFunction.affineMap, iflat(this.equationIndices), iflat(this.equationIndices).len() as int) <= 0xffff_ffff_ffff_ffff
%ens
- [one solution per combination of the unused indices] ret == vsum(accessFunction.affineMap, iflat(this.equationIndices), iflat(this.equationIndices).len() as int)
%loop 1
%before
let ghost m = accessFunction.affineMap; let ghost f = iflat(this.equationIndices);
lemma_iflat(this.equationIndices);
%inv
- @result == vsum(m, f, $i)
%begin
assert(bwf(f[$i])); lemma_vsum(m, f, $i + 1, f.len() as int);
%endloop
%loop 2
%inv
- @count == vcount(m, f[$i_1].ranges, $i) && 1 <= @count
%begin
lemma_vcount(m, f[$i_1].ranges, $i, m.dims); lemma_vcount(m, f[$i_1].ranges, $i + 1, m.dims); assert(rwf(f[$i_1].ranges[$i]));
%endloop
%endfn
%fn VS::getSolutionsAmount(marco::modeling::AccessFunctionAffineConstant const&) const
%name Vs_amount_const
%req
- iwf(this.equationIndices) && (forall|k: int| 0 <= k < iflat(this.equationIndices).len() ==> fits((#[trigger] iflat(this.equationIndices)[k]).ranges)) && vol(iflat(this.equationIndices)) <= 0xffff_ffff_ffff_ffff
%ens
- [one solution per equation] ret == vol(iflat(this.equationIndices))
%endfn
