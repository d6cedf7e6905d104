// Contract shim of the standard (and rayon) iterator adaptors: an `It<T>` yields the elements of
// `all()` from position `pos()` on. Trusted: the documented meaning of the adaptors.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
pub open spec fn select<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || s.len() != keep.len() { seq![] }
    else if keep.last() { select(s.drop_last(), keep.drop_last()).push(s.last()) }
    else { select(s.drop_last(), keep.drop_last()) }
}
/// the i-th selected element is one of the kept elements
pub open spec fn selected_from<T>(s: Seq<T>, keep: Seq<bool>, x: T) -> bool {
    exists|j: int| 0 <= j < s.len() && keep[j] && #[trigger] s[j] == x
}
pub proof fn lemma_select<T>(s: Seq<T>, keep: Seq<bool>)
    requires s.len() == keep.len(),
    ensures select(s, keep).len() <= s.len(),
        forall|i: int| 0 <= i < select(s, keep).len() ==> selected_from(s, keep, #[trigger] select(s, keep)[i]),
        (forall|j: int| 0 <= j < keep.len() ==> keep[j]) ==> select(s, keep) =~= s,
    decreases s.len()
{
    if s.len() > 0 {
        let (s1, k1) = (s.drop_last(), keep.drop_last());
        lemma_select(s1, k1);
        let p = select(s1, k1);
        if keep.last() { assert(select(s, keep) =~= p.push(s.last())); } else { assert(select(s, keep) =~= p); }
        assert forall|i: int| 0 <= i < select(s, keep).len() implies selected_from(s, keep, #[trigger] select(s, keep)[i]) by {
            if i < p.len() {
                assert(selected_from(s1, k1, p[i]));
                let j = choose|j: int| 0 <= j < s1.len() && k1[j] && #[trigger] s1[j] == p[i];
                assert(keep[j] && s[j] == p[i]);
            } else {
                assert(keep[s.len() - 1] && s[s.len() - 1] == s.last());
            }
        }
        if forall|j: int| 0 <= j < keep.len() ==> keep[j] {
            assert forall|j: int| 0 <= j < k1.len() implies k1[j] by { assert(keep[j]); }
            assert(keep[s.len() - 1]);
        }
    } else {
        assert(select(s, keep).len() == 0);
    }
}
pub proof fn lemma_selects<T>()
    ensures forall|s: Seq<T>, keep: Seq<bool>| s.len() == keep.len() ==> (#[trigger] select(s, keep)).len() <= s.len(),
{
    assert forall|s: Seq<T>, keep: Seq<bool>| s.len() == keep.len() implies (#[trigger] select(s, keep)).len() <= s.len() by { lemma_select(s, keep); }
}
impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn fresh(&self) -> bool { self.pos() == 0 }
    pub open spec fn elements(&self) -> Seq<T> { self.all() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() == old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body] pub fn map<U, P: Fn(T) -> U>(self, f: P) -> (r: It<U>)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures r.fresh(), r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body] pub fn filter<P: Fn(&T) -> bool>(self, f: P) -> (r: It<T>)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> (#[trigger] call_requires(f, (&self.all()[i],))),
        ensures r.fresh(), exists|keep: Seq<bool>| keep.len() == self.all().len() && r.all() == #[trigger] select(self.all(), keep)
            && (forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&self.all()[i],), #[trigger] keep[i])),
    { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<T>)
        requires self.fresh(),
        ensures r.fresh(), r.all() == (if n < self.all().len() { self.all().take(n as int) } else { self.all() }),
    { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>)
        requires self.fresh(),
        ensures r.fresh(), r.all() == (if n < self.all().len() { self.all().skip(n as int) } else { seq![] }),
    { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.fresh(),
        ensures r.fresh(), r.all().len() == self.all().len(), r.all().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == i && r.all()[i].1 == self.all()[i],
            forall|i: int| 0 <= i < r.all().len() ==> r.all()[i].1 == #[trigger] self.all()[i],
    { unimplemented!() }
    #[verifier::external_body] pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        requires self.fresh(), o.fresh(),
        ensures r.fresh(), r.all().len() == (if self.all().len() < o.all().len() { self.all().len() } else { o.all().len() }),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] #![trigger o.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == (self.all()[i], o.all()[i]),
    { unimplemented!() }
    #[verifier::external_body] pub fn any<P: Fn(T) -> bool>(&mut self, f: P) -> (r: bool)
        requires old(self).fresh(), forall|i: int| 0 <= i < old(self).all().len() ==> call_requires(f, (#[trigger] old(self).all()[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
    { unimplemented!() }
    #[verifier::external_body] pub fn all_<P: Fn(T) -> bool>(&mut self, f: P) -> (r: bool)
        requires old(self).fresh(), forall|i: int| 0 <= i < old(self).all().len() ==> call_requires(f, (#[trigger] old(self).all()[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
    { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize)
        requires self.fresh(),
        ensures r as int == self.all().len(),
    { unimplemented!() }
    /// `max_by` with a comparison described by `c`: if that is a total preorder on the elements, no element is greater
    #[verifier::external_body] pub fn max_by_<P: Fn(&T, &T) -> Ordering>(self, c: Ghost<spec_fn(T, T) -> Ordering>, f: P) -> (r: Option<T>)
        requires self.fresh(), forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b)), forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == c@(a, b),
        ensures r is None <==> self.all().len() == 0,
            r matches Some(x) ==> exists|k: int| 0 <= k < self.all().len() && x == #[trigger] self.all()[k]
                && (preorder(self.all(), c@) ==> forall|i: int| 0 <= i < self.all().len() ==> c@(#[trigger] self.all()[i], x) != Ordering::Greater),
    { unimplemented!() }
    #[verifier::external_body] pub fn collect<C: FromIt<T>>(self) -> (r: C)
        requires self.fresh(),
        ensures C::collected(self.all(), r),
    { unimplemented!() }
}
impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body] pub fn cloned(self) -> (r: It<T>)
        requires self.fresh(),
        ensures r.fresh(), r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> cloned(*self.all()[i], r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body] pub fn copied(self) -> (r: It<T>)
        requires self.fresh(),
        ensures r.fresh(), r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> *self.all()[i] == r.all()[i],
    { unimplemented!() }
}
pub open spec fn preorder<T>(v: Seq<T>, cmp: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> (cmp(#[trigger] v[i], #[trigger] v[j]) == Ordering::Less <==> cmp(v[j], v[i]) == Ordering::Greater)
    &&& forall|i: int, j: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && 0 <= k < v.len() && cmp(#[trigger] v[i], #[trigger] v[j]) != Ordering::Greater && cmp(v[j], #[trigger] v[k]) != Ordering::Greater ==> cmp(v[i], v[k]) != Ordering::Greater
}
pub trait FromIt<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T> FromIt<T> for VecDeque<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, E> FromIt<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == Ok::<T, E>(v@[i])) && (forall|i: int| 0 <= i < s.len() ==> s[i] == Ok::<T, E>(#[trigger] v@[i])),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
        }
    }
}
pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
/// `a..b` used as an iterator
#[verifier::external_body] pub fn range_it(a: usize, b: usize) -> (r: It<usize>)
    ensures r.fresh(), r.all().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i, r.all() =~= range_seq(a, b),
{ unimplemented!() }
pub trait ToIt<T> {
    spec fn elems(&self) -> Seq<T>;
    fn it<'a>(&'a self) -> (r: It<&'a T>)
        ensures r.fresh(), r.all().len() == self.elems().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.elems()[i]] 0 <= i < r.all().len() ==> *r.all()[i] == self.elems()[i];
    fn into_it(self) -> (r: It<T>) where Self: Sized
        ensures r.fresh(), r.all() == self.elems();
}
impl<T> ToIt<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() }
}
impl<T> ToIt<T> for VecDeque<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() }
}
pub trait ToItRef<T> {
    spec fn elems_ref(&self) -> Seq<T>;
    fn it<'a>(&'a self) -> (r: It<&'a T>)
        ensures r.fresh(), r.all().len() == self.elems_ref().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.elems_ref()[i]] 0 <= i < r.all().len() ==> *r.all()[i] == self.elems_ref()[i];
}
impl<T> ToItRef<T> for [T] {
    open spec fn elems_ref(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
pub proof fn lemma_select_is_filter<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool)
    requires s.len() == keep.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(s[i]),
    ensures select(s, keep) == s.filter(p),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] keep.drop_last()[i] == p(s.drop_last()[i]) by { assert(keep[i] == p(s[i])); }
        lemma_select_is_filter(s.drop_last(), keep.drop_last(), p);
        assert(keep[s.len() - 1] == p(s[s.len() - 1]));
    }
}
pub proof fn lemma_filter_len<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures s.filter(p).len() <= s.len(), forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]),
        (forall|y: T| #[trigger] p(y)) ==> s.filter(p) == s,
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filter_len(s.drop_last(), p);
        let f = s.drop_last().filter(p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]) by {
            if i < f.len() {
                assert(p(f[i]) && s.drop_last().contains(f[i]));
                let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == f[i];
                assert(s[j] == f[i]);
            } else { assert(s[s.len() - 1] == s.last()); }
        }
        if forall|y: T| #[trigger] p(y) { assert(p(s.last())); assert(s.drop_last().push(s.last()) =~= s); }
    } else {
        assert(s.filter(p).len() == 0);
        assert(s.filter(p) =~= s);
    }
}
/// `vec![x; n]`
#[verifier::external_body] pub fn repeat_<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
