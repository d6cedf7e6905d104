// sorting
/// `new` is `old` stably sorted by `cmp`
pub open spec fn stably_sorted<T>(old: Seq<T>, new: Seq<T>, cmp: spec_fn(T, T) -> Ordering) -> bool {
    old.len() == new.len() && exists|s: Seq<int>| #[trigger] sort_map(old, new, cmp, s)
}
pub open spec fn sort_map<T>(old: Seq<T>, new: Seq<T>, cmp: spec_fn(T, T) -> Ordering, s: Seq<int>) -> bool {
    &&& s.len() == old.len() && s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < old.len() && new[i] == old[s[i]]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp(#[trigger] new[i], #[trigger] new[j]) != Ordering::Greater && (cmp(new[i], new[j]) == Ordering::Equal ==> s[i] < s[j])
}
/// `[T]::sort_by`
#[verifier::external_body] pub fn sort_by_<T, P: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: P, cmp: Ghost<spec_fn(T, T) -> Ordering>)
    requires forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b)), forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == cmp@(a, b),
        preorder(old(v)@, cmp@),
    ensures stably_sorted(old(v)@, final(v)@, cmp@),
{ unimplemented!() }
/// `[T]::sort_by` with a comparison that need not be a total preorder on the elements
#[verifier::external_body] pub fn sort_any_<T, P: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: P, cmp: Ghost<spec_fn(T, T) -> Ordering>)
    requires forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b)), forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == cmp@(a, b),
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), preorder(old(v)@, cmp@) ==> stably_sorted(old(v)@, final(v)@, cmp@),
{ unimplemented!() }
