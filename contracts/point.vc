%prelude
pub open spec fn seq_cmp(a: Seq<int>, b: Seq<int>) -> int
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { 0 } else if a[0] != b[0] { cmp_int(a[0], b[0]) } else { seq_cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn pcmp(a: Seq<int>, b: Seq<int>) -> int { if a.len() != b.len() { cmp_int(a.len() as int, b.len() as int) } else { seq_cmp(a, b) } }
// first difference at k decides
pub proof fn lemma_seq_cmp_at(a: Seq<int>, b: Seq<int>, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(), forall|j: int| 0 <= j < k ==> a[j] == b[j]
    ensures k < a.len() && a[k] != b[k] ==> seq_cmp(a, b) == cmp_int(a[k], b[k]), k == a.len() ==> seq_cmp(a, b) == 0
    decreases k
{
    if k > 0 {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        assert forall|j: int| 0 <= j < k - 1 implies a1[j] == b1[j] by { assert(a1[j] == a[j + 1]); assert(b1[j] == b[j + 1]); }
        if k < a.len() { assert(a1[k - 1] == a[k] && b1[k - 1] == b[k]); }
        lemma_seq_cmp_at(a1, b1, k - 1);
    }
}
%end

%structeq Point : true

%fn marco::modeling::Point::operator==(marco::modeling::Point const&) const
%name Point_eq
%ens
- ret == (this == other)
%loop 1
%inv
- this.values.len() == other.values.len()
- forall|j: int| 0 <= j < $i ==> this.values[j] == other.values[j]
%endloop
%exit
if ret { assert(this.values =~= other.values); }
%endfn

%fn marco::modeling::Point::operator!=(marco::modeling::Point const&) const
%name Point_ne
%ens
- ret == (this != other)
%endfn

%fn marco::modeling::Point::operator<(marco::modeling::Point const&) const
%name Point_lt
%ens
- ret == (pcmp(this.values, other.values) < 0)
%endfn

%fn marco::modeling::Point::compare(marco::modeling::Point const&) const
%name Point_compare
%ens
- ret == pcmp(this.values, other.values)
%loop 1
%inv
- this.values.len() == other.values.len()
- forall|j: int| 0 <= j < $i ==> this.values[j] == other.values[j]
%begin
lemma_seq_cmp_at(this.values, other.values, $i);
%after
lemma_seq_cmp_at(this.values, other.values, this.values.len() as int);
%endloop
%endfn

%fn marco::modeling::Point::append(marco::modeling::Point const&) const
%name Point_append
%ens
- ret.values =~= this.values + other.values
%endfn

%fn marco::modeling::Point::takeFront(unsigned long) const
%name Point_takeFront
%req
- n <= this.values.len()
%ens
- ret.values =~= this.values.subrange(0, n)
%endfn

%fn marco::modeling::Point::takeBack(unsigned long) const
%name Point_takeBack
%req
- n <= this.values.len()
%ens
- ret.values =~= this.values.subrange(this.values.len() - n, this.values.len() as int)
%endfn

%fn marco::modeling::Point::slice(llvm::BitVector const&) const
%name Point_slice
%req
- filter.len() == this.values.len()
%ens
- ret.values =~= sel(this.values, filter, this.values.len() as int)
%loop 1
%inv
- result =~= sel(this.values, filter, $i)
%endloop
%endfn
