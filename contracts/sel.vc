%prelude
// the elements of s whose filter bit is set, in order (first n positions)
pub open spec fn sel<A>(s: Seq<A>, f: Seq<bool>, n: int) -> Seq<A> decreases n { if n <= 0 { Seq::empty() } else if f[n - 1] { sel(s, f, n - 1).push(s[n - 1]) } else { sel(s, f, n - 1) } }
pub proof fn lemma_sel_elem<A>(s: Seq<A>, f: Seq<bool>, n: int, j: int)
    requires 0 <= n <= s.len(), 0 <= j < sel(s, f, n).len()
    ensures exists|i: int| 0 <= i < n && f[i] && s[i] == sel(s, f, n)[j]
    decreases n
{
    if n > 0 {
        if f[n - 1] { if j < sel(s, f, n - 1).len() { lemma_sel_elem(s, f, n - 1, j); } }
        else { lemma_sel_elem(s, f, n - 1, j); }
    }
}
pub proof fn lemma_sel_len<A>(s: Seq<A>, f: Seq<bool>, n: int)
    requires 0 <= n
    ensures sel(s, f, n).len() <= n
    decreases n
{ if n > 0 { lemma_sel_len(s, f, n - 1); } }
%end
