// never provable: the vacuity guard adds it to every extracted function
pub uninterp spec fn probe(n: int) -> bool;
// Assumed contracts of std functions that vstd does not specify
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct,
    ensures r == (match a { Some(x) => Some(x), None => b });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct,
    ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None });
pub assume_specification<T, A: core::alloc::Allocator> [std::collections::VecDeque::<T, A>::get] (v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None });
pub assume_specification<T, U, P> [Option::<T>::map_or] (a: Option<T>, d: U, f: P) -> (r: U)
    where P: FnOnce(T) -> U + core::marker::Destruct, U: core::marker::Destruct,
    requires a matches Some(x) ==> call_requires(f, (x,)),
    ensures match a { Some(x) => call_ensures(f, (x,), r), None => r == d };
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
