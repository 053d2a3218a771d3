%prelude
// ---- C05: the comparisons are strict total orders, consistent with equality
pub proof fn lemma_order_range(a: Range, b: Range, c: Range)
    ensures -1 <= rcmp(a, b) <= 1, rcmp(a, b) == -rcmp(b, a), (rcmp(a, b) == 0) == (a == b),
        rcmp(a, b) <= 0 && rcmp(b, c) <= 0 ==> rcmp(a, c) <= 0,
        rcmp(a, b) < 0 && rcmp(b, c) <= 0 ==> rcmp(a, c) < 0,
        rcmp(a, b) <= 0 && rcmp(b, c) < 0 ==> rcmp(a, c) < 0,
{ }
pub proof fn lemma_seq_cmp_anti(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len()
    ensures -1 <= seq_cmp(a, b) <= 1, seq_cmp(a, b) == -seq_cmp(b, a), (seq_cmp(a, b) == 0) == (a =~= b)
    decreases a.len()
{
    if a.len() > 0 {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        lemma_seq_cmp_anti(a1, b1);
        if a[0] == b[0] && a1 =~= b1 { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a1[i - 1] == b1[i - 1]); } } }
    }
}
pub proof fn lemma_seq_cmp_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len(), b.len() == c.len()
    ensures seq_cmp(a, b) <= 0 && seq_cmp(b, c) <= 0 ==> seq_cmp(a, c) <= 0,
        seq_cmp(a, b) < 0 && seq_cmp(b, c) <= 0 ==> seq_cmp(a, c) < 0,
        seq_cmp(a, b) <= 0 && seq_cmp(b, c) < 0 ==> seq_cmp(a, c) < 0,
    decreases a.len()
{ if a.len() > 0 { lemma_seq_cmp_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int)); } }
pub proof fn lemma_order_point(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    ensures -1 <= pcmp(a, b) <= 1, pcmp(a, b) == -pcmp(b, a), (pcmp(a, b) == 0) == (a =~= b),
        pcmp(a, b) <= 0 && pcmp(b, c) <= 0 ==> pcmp(a, c) <= 0,
        pcmp(a, b) < 0 && pcmp(b, c) <= 0 ==> pcmp(a, c) < 0,
        pcmp(a, b) <= 0 && pcmp(b, c) < 0 ==> pcmp(a, c) < 0,
        a.len() < b.len() ==> pcmp(a, b) < 0,
{
    if a.len() == b.len() { lemma_seq_cmp_anti(a, b); }
    if a.len() == b.len() && b.len() == c.len() { lemma_seq_cmp_trans(a, b, c); }
}
pub proof fn lemma_bseq_cmp_anti(a: Seq<Range>, b: Seq<Range>)
    requires a.len() == b.len()
    ensures -1 <= bseq_cmp(a, b) <= 1, bseq_cmp(a, b) == -bseq_cmp(b, a), (bseq_cmp(a, b) == 0) == (a =~= b)
    decreases a.len()
{
    if a.len() > 0 {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        lemma_bseq_cmp_anti(a1, b1);
        if a[0] == b[0] && a1 =~= b1 { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a1[i - 1] == b1[i - 1]); } } }
    }
}
pub proof fn lemma_bseq_cmp_trans(a: Seq<Range>, b: Seq<Range>, c: Seq<Range>)
    requires a.len() == b.len(), b.len() == c.len()
    ensures bseq_cmp(a, b) <= 0 && bseq_cmp(b, c) <= 0 ==> bseq_cmp(a, c) <= 0,
        bseq_cmp(a, b) < 0 && bseq_cmp(b, c) <= 0 ==> bseq_cmp(a, c) < 0,
        bseq_cmp(a, b) <= 0 && bseq_cmp(b, c) < 0 ==> bseq_cmp(a, c) < 0,
    decreases a.len()
{ if a.len() > 0 { lemma_bseq_cmp_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int)); } }
pub proof fn lemma_order_box(a: MultidimensionalRange, b: MultidimensionalRange, c: MultidimensionalRange)
    ensures -1 <= bcmp(a, b) <= 1, bcmp(a, b) == -bcmp(b, a), (bcmp(a, b) == 0) == (a.ranges =~= b.ranges),
        (bcmp(a, b) == 0) == (a == b),
        bcmp(a, b) <= 0 && bcmp(b, c) <= 0 ==> bcmp(a, c) <= 0,
        bcmp(a, b) < 0 && bcmp(b, c) <= 0 ==> bcmp(a, c) < 0,
        bcmp(a, b) <= 0 && bcmp(b, c) < 0 ==> bcmp(a, c) < 0,
        a.ranges.len() < b.ranges.len() ==> bcmp(a, b) < 0,
{
    if a.ranges.len() == b.ranges.len() { lemma_bseq_cmp_anti(a.ranges, b.ranges); }
    if a.ranges.len() == b.ranges.len() && b.ranges.len() == c.ranges.len() { lemma_bseq_cmp_trans(a.ranges, b.ranges, c.ranges); }
}
%end
