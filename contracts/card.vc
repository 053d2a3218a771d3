%prelude
// ---- the points of a box as a list without repetitions, and of a list of disjoint boxes
pub open spec fn unlin(s: Seq<Range>, k: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { unlin(s, k / rlen(s[n - 1]), n - 1).push(s[n - 1].begin_ + k % rlen(s[n - 1])) } }
pub proof fn lemma_unlin_len(s: Seq<Range>, k: int, n: int) requires 0 <= n ensures unlin(s, k, n).len() == n decreases n { if n > 0 { lemma_unlin_len(s, k / rlen(s[n - 1]), n - 1); } }
pub proof fn lemma_unlin(s: Seq<Range>, k: int, n: int) requires swf(s), 0 <= n <= s.len(), 0 <= k < bsz(s, n)
    ensures sin(s.subrange(0, n), unlin(s, k, n)), lin(s, unlin(s, k, n), n) == k decreases n
{
    let t = s.subrange(0, n); let q = unlin(s, k, n);
    if n > 0 {
        assert(rwf(s[n - 1])); let l = rlen(s[n - 1]); let b = bsz(s, n - 1); let a = k / l; let m = k % l;
        assert(k == a * l + m && 0 <= m < l) by (nonlinear_arith) requires a == k / l, m == k % l, l > 0;
        assert(0 <= a < b) by (nonlinear_arith) requires k == a * l + m, 0 <= m < l, 0 <= k < b * l, l > 0;
        lemma_unlin(s, a, n - 1); let p = unlin(s, a, n - 1); lemma_unlin_len(s, a, n - 1);
        lemma_lin_same(s, p, q, n - 1);
        let u = s.subrange(0, n - 1);
        assert forall|i: int| 0 <= i < t.len() implies rin(#[trigger] t[i], q[i]) by { if i < n - 1 { assert(u[i] == t[i]); assert(rin(u[i], p[i])); } }
    }
}
pub open spec fn plist(s: Seq<Range>) -> Seq<Seq<int>> { Seq::new(bsz(s, s.len() as int) as nat, |k: int| unlin(s, k, s.len() as int)) }
pub proof fn lemma_plist(s: Seq<Range>) requires swf(s) ensures plist(s).no_duplicates(), plist(s).len() == bsz(s, s.len() as int), plist(s).len() > 0, forall|p: Seq<int>| #[trigger] plist(s).contains(p) == sin(s, p)
{
    let n = s.len() as int; let l = plist(s); lemma_bsz_pos(s, n); assert(s.subrange(0, n) =~= s);
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { lemma_unlin(s, i, n); lemma_unlin(s, j, n); }
    assert forall|p: Seq<int>| #[trigger] plist(s).contains(p) == sin(s, p) by {
        if l.contains(p) { let k = choose|k: int| 0 <= k < l.len() && l[k] == p; lemma_unlin(s, k, n); }
        if sin(s, p) { lemma_lin_bound(s, p, n); let k = lin(s, p, n); lemma_unlin(s, k, n); lemma_lin_inj(s, p, l[k], n); assert(l[k] =~= p); }
    }
}
pub open spec fn bsum(f: Seq<MultidimensionalRange>, n: int) -> int decreases n { if n <= 0 { 0 } else { bsum(f, n - 1) + bsz(f[n - 1].ranges, f[n - 1].ranges.len() as int) } }
pub open spec fn allpts(f: Seq<MultidimensionalRange>, n: int) -> Seq<Seq<int>> decreases n { if n <= 0 { Seq::empty() } else { allpts(f, n - 1) + plist(f[n - 1].ranges) } }
pub open spec fn allwf(f: Seq<MultidimensionalRange>) -> bool { forall|k: int| 0 <= k < f.len() ==> bwf(#[trigger] f[k]) }
pub proof fn lemma_allpts(f: Seq<MultidimensionalRange>, n: int) requires 0 <= n <= f.len(), pdisj(f), allwf(f)
    ensures allpts(f, n).no_duplicates(), allpts(f, n).len() == bsum(f, n), bsum(f, n) >= 0, forall|p: Seq<int>| #[trigger] allpts(f, n).contains(p) == anyin(f.subrange(0, n), p) decreases n
{
    if n > 0 {
        lemma_allpts(f, n - 1); assert(bwf(f[n - 1])); lemma_plist(f[n - 1].ranges);
        let a = allpts(f, n - 1); let b = plist(f[n - 1].ranges); let c = allpts(f, n); let u = f.subrange(0, n - 1);
        assert(f.subrange(0, n) =~= u.push(f[n - 1]));
        assert forall|p: Seq<int>| #[trigger] c.contains(p) == anyin(f.subrange(0, n), p) by {
            lemma_anyin_push(u, f[n - 1], p); assert(a.contains(p) == anyin(u, p)); assert(b.contains(p) == sin(f[n - 1].ranges, p));
            if c.contains(p) { let k = choose|k: int| 0 <= k < c.len() && c[k] == p; if k < a.len() { assert(a[k] == p); } else { assert(b[k - a.len()] == p); } }
            if a.contains(p) { let k = choose|k: int| 0 <= k < a.len() && a[k] == p; assert(c[k] == p); }
            if b.contains(p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; assert(c[k + a.len()] == p); }
        }
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { lemma_dup(f, n, i, j, a, b, c); }
    } else { assert forall|p: Seq<int>| #[trigger] allpts(f, n).contains(p) == anyin(f.subrange(0, n), p) by {} }
}
pub proof fn lemma_dup(f: Seq<MultidimensionalRange>, n: int, i: int, j: int, a: Seq<Seq<int>>, b: Seq<Seq<int>>, c: Seq<Seq<int>>)
    requires 0 < n <= f.len(), pdisj(f), c == a + b, a.no_duplicates(), b.no_duplicates(), b == plist(f[n - 1].ranges), bwf(f[n - 1]), forall|p: Seq<int>| #[trigger] a.contains(p) == anyin(f.subrange(0, n - 1), p), 0 <= i < c.len(), 0 <= j < c.len(), i != j
    ensures c[i] != c[j]
{
    if i < a.len() && j < a.len() { assert(c[i] == a[i] && c[j] == a[j]); }
    else if i >= a.len() && j >= a.len() { assert(c[i] == b[i - a.len()] && c[j] == b[j - a.len()]); }
    else {
        let (x, y) = if i < a.len() { (i, j) } else { (j, i) }; let p = c[x];
        if p == c[y] {
            assert(a[x] == p); assert(a.contains(p)); assert(b[y - a.len()] == p); assert(b.contains(p)); lemma_plist(f[n - 1].ranges); assert(sin(f[n - 1].ranges, p));
            let u = f.subrange(0, n - 1); let k = choose|k: int| 0 <= k < u.len() && bin(#[trigger] u[k], p); assert(bin(f[k], p)); assert(bin(f[n - 1], p));
        }
    }
}
// a list without repetitions whose elements all occur in another is not longer; if it misses one, it is shorter
pub proof fn lemma_card(a: Seq<Seq<int>>, b: Seq<Seq<int>>) requires a.no_duplicates(), b.no_duplicates(), forall|p: Seq<int>| #[trigger] a.contains(p) ==> b.contains(p) ensures a.len() <= b.len(), (exists|q: Seq<int>| #[trigger] b.contains(q) && !a.contains(q)) ==> a.len() < b.len()
{
    let x = a.to_set(); let y = b.to_set(); a.unique_seq_to_set(); b.unique_seq_to_set();
    assert forall|p: Seq<int>| x.contains(p) implies y.contains(p) by { assert(a.contains(p)); }
    vstd::set_lib::lemma_len_subset(x, y);
    if exists|q: Seq<int>| #[trigger] b.contains(q) && !a.contains(q) { let q = choose|q: Seq<int>| #[trigger] b.contains(q) && !a.contains(q); assert(y.contains(q) && !x.contains(q)); assert(x.subset_of(y.remove(q))); vstd::set_lib::lemma_len_subset(x, y.remove(q)); }
}
pub proof fn lemma_bsum_card(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>) requires pdisj(f), pdisj(g), allwf(f), allwf(g), forall|p: Seq<int>| #[trigger] anyin(f, p) ==> anyin(g, p)
    ensures bsum(f, f.len() as int) <= bsum(g, g.len() as int), (exists|q: Seq<int>| #[trigger] anyin(g, q) && !anyin(f, q)) ==> bsum(f, f.len() as int) < bsum(g, g.len() as int)
{
    let a = allpts(f, f.len() as int); let b = allpts(g, g.len() as int); lemma_allpts(f, f.len() as int); lemma_allpts(g, g.len() as int); assert(f.subrange(0, f.len() as int) =~= f); assert(g.subrange(0, g.len() as int) =~= g);
    assert forall|p: Seq<int>| #[trigger] a.contains(p) implies b.contains(p) by { assert(anyin(f, p)); }
    lemma_card(a, b);
    if exists|q: Seq<int>| #[trigger] anyin(g, q) && !anyin(f, q) { let q = choose|q: Seq<int>| #[trigger] anyin(g, q) && !anyin(f, q); assert(b.contains(q) && !a.contains(q)); }
}
pub proof fn lemma_bsum_concat(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>, n: int) requires 0 <= n <= g.len() ensures bsum(f + g, f.len() + n) == bsum(f, f.len() as int) + bsum(g, n) decreases n
{ let c = f + g; if n > 0 { lemma_bsum_concat(f, g, n - 1); assert(c[f.len() + n - 1] == g[n - 1]); } else { lemma_bsum_prefix(f, c, f.len() as int); } }
pub proof fn lemma_bsum_prefix(f: Seq<MultidimensionalRange>, g: Seq<MultidimensionalRange>, n: int) requires 0 <= n <= f.len(), n <= g.len(), forall|i: int| 0 <= i < n ==> f[i] == g[i] ensures bsum(f, n) == bsum(g, n) decreases n { if n > 0 { lemma_bsum_prefix(f, g, n - 1); } }
pub proof fn lemma_bsum_nonneg(f: Seq<MultidimensionalRange>, n: int) requires allwf(f), 0 <= n <= f.len() ensures bsum(f, n) >= n decreases n { if n > 0 { lemma_bsum_nonneg(f, n - 1); assert(bwf(f[n - 1])); lemma_bsz_pos(f[n - 1].ranges, f[n - 1].ranges.len() as int); } }
pub open spec fn vol(f: Seq<MultidimensionalRange>) -> int { bsum(f, f.len() as int) }
%end
