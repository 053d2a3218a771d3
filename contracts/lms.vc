%abbr MG:: = marco::modeling::MCIMGroup::
%abbr GG:: = marco::modeling::MCIMGroupGeneric::
%abbr GA:: = marco::modeling::MCIMGroupAffineConstant::
%abbr MC:: = marco::modeling::internal::MCIM::
%abbr PT = marco::modeling::Point
%abbr IX = marco::modeling::IndexSet
%prelude
#[verifier::external_body] pub proof fn lemma_ipts1(x: IndexSet) requires iwf(x) ensures forall|i: int, j: int| 0 <= i < j < ipts(x).len() ==> (#[trigger] ipts(x)[i]).values != (#[trigger] ipts(x)[j]).values { } //@lib the iterator of IndexSet yields each of its points once
// a matching: no equation is matched twice, no variable is matched twice
pub open spec fn mrow(m: MCIM, e: Seq<int>, x: IndexSet, n: int) -> bool { exists|i: int, j: int| 0 <= i < j < n && mset(m, e, (#[trigger] ipts(x)[i]).values) && mset(m, e, (#[trigger] ipts(x)[j]).values) }
pub open spec fn mcol(m: MCIM, v: Seq<int>, x: IndexSet, n: int) -> bool { exists|i: int, j: int| 0 <= i < j < n && mset(m, (#[trigger] ipts(x)[i]).values, v) && mset(m, (#[trigger] ipts(x)[j]).values, v) }
pub open spec fn r1(m: MCIM) -> bool { forall|e: Seq<int>, v: Seq<int>, w: Seq<int>| iin(m.equationSpace, e) && iin(m.variableSpace, v) && iin(m.variableSpace, w) && #[trigger] mset(m, e, v) && #[trigger] mset(m, e, w) ==> v == w }
pub open spec fn c1(m: MCIM) -> bool { forall|e: Seq<int>, f: Seq<int>, v: Seq<int>| iin(m.equationSpace, e) && iin(m.equationSpace, f) && iin(m.variableSpace, v) && #[trigger] mset(m, e, v) && #[trigger] mset(m, f, v) ==> e == f }
pub open spec fn rcnt(m: MCIM, e: Seq<int>, x: IndexSet, n: int) -> int decreases n { if n <= 0 { 0 } else { rcnt(m, e, x, n - 1) + if mset(m, e, ipts(x)[n - 1].values) { 1int } else { 0 } } }
pub open spec fn ccnt(m: MCIM, v: Seq<int>, x: IndexSet, n: int) -> int decreases n { if n <= 0 { 0 } else { ccnt(m, v, x, n - 1) + if mset(m, ipts(x)[n - 1].values, v) { 1int } else { 0 } } }
pub proof fn lemma_rcnt(m: MCIM, e: Seq<int>, x: IndexSet, n: int) requires 0 <= n <= ipts(x).len() ensures rcnt(m, e, x, n) >= 0, (rcnt(m, e, x, n) == 0) == (forall|i: int| 0 <= i < n ==> !mset(m, e, (#[trigger] ipts(x)[i]).values)), (rcnt(m, e, x, n) > 1) == mrow(m, e, x, n) decreases n
{ if n > 0 { lemma_rcnt(m, e, x, n - 1); let l = ipts(x)[n - 1].values;
   if rcnt(m, e, x, n - 1) == 0 { } else { let i = choose|i: int| 0 <= i < n - 1 && mset(m, e, (#[trigger] ipts(x)[i]).values); if mset(m, e, l) { assert(mset(m, e, ipts(x)[i].values) && mset(m, e, ipts(x)[n - 1].values)); assert(mrow(m, e, x, n)); } }
   if mrow(m, e, x, n - 1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < n - 1 && mset(m, e, (#[trigger] ipts(x)[i]).values) && mset(m, e, (#[trigger] ipts(x)[j]).values); assert(ipts(x)[i] == ipts(x)[i] && ipts(x)[j] == ipts(x)[j]); assert(mrow(m, e, x, n)); } } }
pub proof fn lemma_ccnt(m: MCIM, v: Seq<int>, x: IndexSet, n: int) requires 0 <= n <= ipts(x).len() ensures ccnt(m, v, x, n) >= 0, (ccnt(m, v, x, n) == 0) == (forall|i: int| 0 <= i < n ==> !mset(m, (#[trigger] ipts(x)[i]).values, v)), (ccnt(m, v, x, n) > 1) == mcol(m, v, x, n) decreases n
{ if n > 0 { lemma_ccnt(m, v, x, n - 1); let l = ipts(x)[n - 1].values;
   if ccnt(m, v, x, n - 1) == 0 { } else { let i = choose|i: int| 0 <= i < n - 1 && mset(m, (#[trigger] ipts(x)[i]).values, v); if mset(m, l, v) { assert(mset(m, ipts(x)[i].values, v) && mset(m, ipts(x)[n - 1].values, v)); assert(mcol(m, v, x, n)); } }
   if mcol(m, v, x, n - 1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < n - 1 && mset(m, (#[trigger] ipts(x)[i]).values, v) && mset(m, (#[trigger] ipts(x)[j]).values, v); assert(ipts(x)[i] == ipts(x)[i] && ipts(x)[j] == ipts(x)[j]); assert(mcol(m, v, x, n)); } } }
pub proof fn lemma_r1(m: MCIM) requires mwf(m) ensures r1(m) == (forall|k: int| 0 <= k < ipts(m.equationSpace).len() ==> rcnt(m, (#[trigger] ipts(m.equationSpace)[k]).values, m.variableSpace, ipts(m.variableSpace).len() as int) <= 1)
{ let E = m.equationSpace; let V = m.variableSpace; lemma_ipts(E); lemma_ipts(V); lemma_ipts1(E); lemma_ipts1(V); let nv = ipts(V).len() as int;
  if r1(m) { assert forall|k: int| 0 <= k < ipts(E).len() implies rcnt(m, (#[trigger] ipts(E)[k]).values, V, nv) <= 1 by { let e = ipts(E)[k].values; lemma_rcnt(m, e, V, nv);
      if mrow(m, e, V, nv) { let (i, j) = choose|i: int, j: int| 0 <= i < j < nv && mset(m, e, (#[trigger] ipts(V)[i]).values) && mset(m, e, (#[trigger] ipts(V)[j]).values); assert(iin(V, ipts(V)[i].values) && iin(V, ipts(V)[j].values) && iin(E, e)); } } }
  if forall|k: int| 0 <= k < ipts(E).len() ==> rcnt(m, (#[trigger] ipts(E)[k]).values, V, nv) <= 1 {
    assert forall|e: Seq<int>, v: Seq<int>, w: Seq<int>| iin(E, e) && iin(V, v) && iin(V, w) && #[trigger] mset(m, e, v) && #[trigger] mset(m, e, w) implies v == w by {
      let k = choose|k: int| 0 <= k < ipts(E).len() && (#[trigger] ipts(E)[k]).values == e; let i = choose|k: int| 0 <= k < nv && (#[trigger] ipts(V)[k]).values == v; let j = choose|k: int| 0 <= k < nv && (#[trigger] ipts(V)[k]).values == w;
      lemma_rcnt(m, ipts(E)[k].values, V, nv); assert(ipts(V)[i].values == v && ipts(V)[j].values == w); if i < j { assert(mrow(m, e, V, nv)); } else if j < i { assert(mrow(m, e, V, nv)); } } } }
pub proof fn lemma_c1(m: MCIM) requires mwf(m) ensures c1(m) == (forall|k: int| 0 <= k < ipts(m.variableSpace).len() ==> ccnt(m, (#[trigger] ipts(m.variableSpace)[k]).values, m.equationSpace, ipts(m.equationSpace).len() as int) <= 1)
{ let E = m.variableSpace; let V = m.equationSpace; lemma_ipts(E); lemma_ipts(V); lemma_ipts1(E); lemma_ipts1(V); let nv = ipts(V).len() as int;
  if c1(m) { assert forall|k: int| 0 <= k < ipts(E).len() implies ccnt(m, (#[trigger] ipts(E)[k]).values, V, nv) <= 1 by { let e = ipts(E)[k].values; lemma_ccnt(m, e, V, nv);
      if mcol(m, e, V, nv) { let (i, j) = choose|i: int, j: int| 0 <= i < j < nv && mset(m, (#[trigger] ipts(V)[i]).values, e) && mset(m, (#[trigger] ipts(V)[j]).values, e); assert(iin(V, ipts(V)[i].values) && iin(V, ipts(V)[j].values) && iin(E, e)); } } }
  if forall|k: int| 0 <= k < ipts(E).len() ==> ccnt(m, (#[trigger] ipts(E)[k]).values, V, nv) <= 1 {
    assert forall|v: Seq<int>, w: Seq<int>, e: Seq<int>| iin(V, v) && iin(V, w) && iin(E, e) && #[trigger] mset(m, v, e) && #[trigger] mset(m, w, e) implies v == w by {
      let k = choose|k: int| 0 <= k < ipts(E).len() && (#[trigger] ipts(E)[k]).values == e; let i = choose|k: int| 0 <= k < nv && (#[trigger] ipts(V)[k]).values == v; let j = choose|k: int| 0 <= k < nv && (#[trigger] ipts(V)[k]).values == w;
      lemma_ccnt(m, ipts(E)[k].values, V, nv); assert(ipts(V)[i].values == v && ipts(V)[j].values == w); if i < j { assert(mcol(m, e, V, nv)); } else if j < i { assert(mcol(m, e, V, nv)); } } } }
%end
%fn marco::modeling::internal::isValidLocalMatchingSolution(marco::modeling::internal::MCIM const&)
%name Mc_isValid
%req
- mwf(matrix)
%ens
- [no row and no column is used twice] ret == (r1(matrix) && c1(matrix))
%entry
let ghost E = matrix.equationSpace; let ghost V = matrix.variableSpace;
lemma_ipts(E); lemma_ipts(V); lemma_ipts1(E); lemma_ipts1(V); lemma_r1(matrix); lemma_c1(matrix);
%loop 1
%inv
- forall|k: int| 0 <= k < $i ==> rcnt(matrix, (#[trigger] ipts(E)[k]).values, V, ipts(V).len() as int) <= 1
%endloop
%loop 2
%inv
- $acc == rcnt(matrix, ipts(E)[$i_1].values, V, $i)
%endloop
%loop 3
%inv
- forall|k: int| 0 <= k < $i ==> ccnt(matrix, (#[trigger] ipts(V)[k]).values, E, ipts(E).len() as int) <= 1
%endloop
%loop 4
%inv
- $acc == ccnt(matrix, ipts(V)[$i_3].values, E, $i)
%endloop
%endfn
%ghosttype LocalMatchingSolutions = LSol
%extfn solveLocalMatchingProblem * = lms_solve
%iterview LSol = $x.sols : marco::modeling::internal::MCIM
%prelude
// the local matching solutions of one access function, as a list
pub struct LSol { pub sols: Seq<MCIM> }
pub open spec fn lmok(s: MCIM, m: MCIM) -> bool { mwf(s) && s.equationSpace == m.equationSpace && s.variableSpace == m.variableSpace && r1(s) && c1(s) && forall|e: Seq<int>, v: Seq<int>| e.len() == erk(m) && v.len() == vrk(m) && #[trigger] mset(s, e, v) ==> mset(m, e, v) }
pub open spec fn lmone(s: MCIM, k: IndexSet, w: IndexSet, f: AFn) -> bool { mwf(s) && s.equationSpace == k && s.variableSpace == w && r1(s) && c1(s) && forall|e: Seq<int>, v: Seq<int>| e.len() == k.allowedRank && v.len() == w.allowedRank && #[trigger] mset(s, e, v) ==> iin(k, e) && afv(f, e) == v }
pub open spec fn anym(s: Seq<MCIM>, n: int, e: Seq<int>, v: Seq<int>) -> bool { exists|i: int| 0 <= i < n && mset(#[trigger] s[i], e, v) }
#[verifier::external_body] fn lms_solve(Ghost(k): Ghost<IndexSet>, Ghost(w): Ghost<IndexSet>, Ghost(fs): Ghost<Seq<AFn>>) -> (r: Ghost<LSol>) requires fs.len() == 1, spwf(k), spwf(w), k.allowedRank == afe(fs[0]), w.allowedRank == afr(fs[0]), forall|e: Seq<int>| #[trigger] iin(k, e) ==> iin(w, afv(fs[0], e)) ensures forall|i: int| 0 <= i < r@.sols.len() ==> lmone(#[trigger] r@.sols[i], k, w, fs[0]), forall|e: Seq<int>, v: Seq<int>| iin(k, e) && afv(fs[0], e) == v ==> #[trigger] anym(r@.sols, r@.sols.len() as int, e, v) { unimplemented!() } //@lib the local matching problem of a single access function (bounded companion of C18)
pub proof fn lemma_lmok(s: MCIM, t: MCIM, m: MCIM, i: int, w: IndexSet, f: AFn)
 requires mwf(m), 0 <= i < m.groups.len(), sameaf(f, m.groups[i].accessFunction), lmone(s, m.groups[i].keys, w, f), iwf(w), forall|v: Seq<int>| #[trigger] iin(w, v) == imgs(m.groups[i].accessFunction, m.groups[i].keys, v), t.groups == s.groups, t.points == s.points, t.equationSpace == m.equationSpace, t.variableSpace == m.variableSpace,
  w.allowedRank == vrk(m), m.groups[i].keys.allowedRank == erk(m)
 ensures lmok(t, m), forall|e: Seq<int>, v: Seq<int>| #[trigger] mset(t, e, v) == mset(s, e, v)
{ let g = m.groups[i]; let k = g.keys; let E = m.equationSpace; let V = m.variableSpace; assert(gfit(g, E, V)); let a = erk(m); let b = vrk(m); lemma_ix(k); lemma_ix(w); lemma_ix(E); lemma_ix(V);
  assert forall|v: Seq<int>| #[trigger] iin(w, v) implies iin(V, v) by { let p = choose|p: Seq<int>| #[trigger] iin(k, p) && afv(g.accessFunction, p) == v; }
  assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] mset(t, e, v) implies iin(k, e) && afv(f, e) == v && iin(w, v) && mset(m, e, v) by { assert(mset(s, e, v)); assert(iin(k, e) && afv(g.accessFunction, e) == v); assert(imgs(g.accessFunction, k, v)); assert(ghas(m.groups[i], e, v)); assert(ghasn(m.groups, m.groups.len() as int, e, v)); }
  assert forall|j: int| 0 <= j < t.groups.len() implies gfit(#[trigger] t.groups[j], E, V) by { assert(gfit(s.groups[j], k, w)); }
  assert(ptfit(t.points, E, V)) by { assert(ptfit(s.points, k, w)); assert forall|p: Seq<int>| #[trigger] iin(t.points, p) implies iin(E, p.subrange(0, a)) && iin(V, p.subrange(a, a + b)) by { assert(iin(s.points, p)); } }
  assert(mwf(t));
  assert(c1(t)) by { assert forall|e: Seq<int>, h: Seq<int>, v: Seq<int>| iin(E, e) && iin(E, h) && iin(V, v) && #[trigger] mset(t, e, v) && #[trigger] mset(t, h, v) implies e == h by { assert(mset(s, e, v) && mset(s, h, v)); } } }
%end
%fn MC::splitGroups() const
%name Mc_splitGroups
%req
- mwf(this)
%ens
- [each part is a matching inside the matrix] forall|i: int| 0 <= i < ret.len() ==> lmok(#[trigger] ret[i], this)
- [the parts cover the matrix] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(this) && v.len() == vrk(this) && #[trigger] mset(this, e, v) ==> anym(ret, ret.len() as int, e, v)
%entry
let ghost a = erk(this); let ghost b = vrk(this); let ghost G = this.groups; let ghost ng = this.groups.len() as int; let ghost mut gi: int = 0; let ghost mut R0: Seq<MCIM> = Seq::empty(); let ghost mut fc: AFn = arbitrary(); let ghost mut wv: IndexSet = arbitrary(); let ghost mut ls: LSol = arbitrary();
lemma_ipts(this.points); lemma_ipts1(this.points); lemma_ptsall(this.points); lemma_ix(this.points); lemma_ix(this.equationSpace); lemma_ix(this.variableSpace);
%aftercall afx_clone
fc = $ret;
%aftercall Gg_getValues
wv = $ret; lemma_ix(wv); lemma_ix(G[gi].keys);
let w0 = choose|p: Seq<int>| #[trigger] iin(G[gi].keys, p); assert(imgs(G[gi].accessFunction, G[gi].keys, afv(G[gi].accessFunction, w0))); assert(iin(wv, afv(G[gi].accessFunction, w0)));
assert forall|e: Seq<int>| #[trigger] iin(G[gi].keys, e) implies iin(wv, afv(G[gi].accessFunction, e)) by { assert(imgs(G[gi].accessFunction, G[gi].keys, afv(G[gi].accessFunction, e))); }
%aftercall lms_solve
ls = $ret;
%loop 1
%inv
- forall|i: int| 0 <= i < @result.len() ==> lmok(#[trigger] @result[i], this)
- forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] ghasn(G, $i, e, v) ==> anym(@result, @result.len() as int, e, v)
%begin
let ghost R1 = @result;
gi = $i;
assert(gfit(G[$i], this.equationSpace, this.variableSpace)); lemma_ghas_step(G, $i);
%end
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] ghasn(G, $i, e, v) implies anym(@result, @result.len() as int, e, v) by { let k = $i - 1; assert(ghasn(G, k + 1, e, v) == (ghasn(G, k, e, v) || ghas(G[k], e, v))); if ghas(G[k], e, v) { assert(anym(ls.sols, ls.sols.len() as int, e, v)); } else { assert(anym(R1, R1.len() as int, e, v)); let z = choose|z: int| 0 <= z < R1.len() && mset(#[trigger] R1[z], e, v); assert(@result[z] == R1[z]); } }
%endloop
%loop 2
%inv
- @result.len() >= R1.len() && (forall|i: int| 0 <= i < R1.len() ==> #[trigger] @result[i] == R1[i])
- forall|i: int| 0 <= i < @result.len() ==> lmok(#[trigger] @result[i], this)
- forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] anym(ls.sols, $i, e, v) ==> anym(@result, @result.len() as int, e, v)
%begin
let ghost R2 = @result;
assert(lmone(ls.sols[$i], G[$i_1].keys, wv, fc));
lemma_lmok(ls.sols[$i], MCIM { equationSpace: this.equationSpace, variableSpace: this.variableSpace, ..ls.sols[$i] }, this, $i_1, wv, fc);
%end
assert(lmok(@result[@result.len() - 1], this));
assert forall|i: int| 0 <= i < @result.len() implies lmok(#[trigger] @result[i], this) by { if i < R2.len() { assert(@result[i] == R2[i]); } }
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] anym(ls.sols, $i, e, v) implies anym(@result, @result.len() as int, e, v) by { let z = choose|z: int| 0 <= z < $i && mset(#[trigger] ls.sols[z], e, v); if z < $i - 1 { assert(anym(ls.sols, $i - 1, e, v)); assert(anym(R2, R2.len() as int, e, v)); let y = choose|y: int| 0 <= y < R2.len() && mset(#[trigger] R2[y], e, v); assert(@result[y] == R2[y]); } else { assert(mset(@result[@result.len() - 1], e, v)); } }
%endloop
%loop 3
%before
R0 = @result;
%inv
- forall|i: int| 0 <= i < @result.len() ==> lmok(#[trigger] @result[i], this)
- @result.len() >= R0.len() && (forall|i: int| 0 <= i < R0.len() ==> #[trigger] @result[i] == R0[i])
- forall|p: Seq<int>| #[trigger] ptsn(this.points, $i, p) ==> anym(@result, @result.len() as int, p.subrange(0, a), p.subrange(a, a + b))
%begin
let ghost R3 = @result; let ghost pt = ipts(this.points)[$i].values; let ghost mut g3: MCIM = arbitrary();
lemma_ptsn(this.points, $i); assert(iin(this.points, pt)); assert(pt.subrange(0, a) + pt.subrange(a, a + b) =~= pt);
%beforecall Mc_set
let ghost qe = $2.values; let ghost qv = $3.values; let ghost m0 = $1;
assert(qe =~= pt.subrange(0, a)); assert(qv =~= pt.subrange(a, a + b)); lemma_ix(m0.points);
%aftercall Mc_set
g3 = $post;
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b implies #[trigger] mset(g3, e, v) == (e == qe && v == qv) by { assert(!mset(m0, e, v)); }
assert(lmok(g3, this)) by { assert(qe + qv =~= pt); assert(r1(g3)); assert(c1(g3)); }
%end
assert(@result == R3.push(g3));
assert(lmok(g3, this) && mset(g3, pt.subrange(0, a), pt.subrange(a, a + b)));
assert forall|i: int| 0 <= i < @result.len() implies lmok(#[trigger] @result[i], this) by { if i < R3.len() { assert(@result[i] == R3[i]); } }
assert forall|p: Seq<int>| #[trigger] ptsn(this.points, $i, p) implies anym(@result, @result.len() as int, p.subrange(0, a), p.subrange(a, a + b)) by { let k = $i - 1; if ptsn(this.points, k, p) { assert(anym(R3, R3.len() as int, p.subrange(0, a), p.subrange(a, a + b))); let y = choose|y: int| 0 <= y < R3.len() && mset(#[trigger] R3[y], p.subrange(0, a), p.subrange(a, a + b)); assert(@result[y] == R3[y]); } else { assert(p == pt); assert(mset(@result[@result.len() - 1], pt.subrange(0, a), pt.subrange(a, a + b))); } }
%endloop
%exit
assert forall|e: Seq<int>, v: Seq<int>| e.len() == a && v.len() == b && #[trigger] mset(this, e, v) implies anym(ret, ret.len() as int, e, v) by { if iin(this.points, e + v) { assert(ptsn(this.points, ipts(this.points).len() as int, e + v)); assert((e + v).subrange(0, a) =~= e); assert((e + v).subrange(a, a + b) =~= v); } else { assert(anym(R0, R0.len() as int, e, v)); let z = choose|z: int| 0 <= z < R0.len() && mset(#[trigger] R0[z], e, v); assert(ret[z] == R0[z]); } }
%endfn
%fn marco::modeling::internal::MCIMSolutions::compute(marco::modeling::internal::MCIM const&)
%name Ms_compute
%req
- mwf(obj) && this.solutions.len() == 0
%ens
- [each solution is a matching inside the matrix] forall|i: int| 0 <= i < post_this.solutions.len() ==> lmok(#[trigger] post_this.solutions[i], obj)
- [the solutions cover the matrix] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(obj) && v.len() == vrk(obj) && #[trigger] mset(obj, e, v) ==> anym(post_this.solutions, post_this.solutions.len() as int, e, v)
%loop 1
%inv
- this.solutions =~= $seq.subrange(0, $i)
%begin
assert($seq.subrange(0, $i + 1) =~= $seq.subrange(0, $i).push($seq[$i]));
%after
assert($seq.subrange(0, $seq.len() as int) =~= $seq);
%endloop
%endfn
%fn marco::modeling::internal::MCIMSolutions::size() const
%name Ms_size
%ens
- [the number of solutions that can be fetched] ret == this.solutions.len()
%endfn
%fn marco::modeling::internal::MCIMSolutions::MCIMSolutions(marco::modeling::internal::MCIM const&)
%name Ms_ctor
%req
- mwf(obj)
%ens
- [each solution is a matching inside the matrix] forall|i: int| 0 <= i < ret.solutions.len() ==> lmok(#[trigger] ret.solutions[i], obj)
- [the solutions cover the matrix] forall|e: Seq<int>, v: Seq<int>| e.len() == erk(obj) && v.len() == vrk(obj) && #[trigger] mset(obj, e, v) ==> anym(ret.solutions, ret.solutions.len() as int, e, v)
%endfn
