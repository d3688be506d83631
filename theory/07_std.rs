// trusted: more of the standard library, as documented, for code that is rewritten
pub use std::cmp::{max, min};
pub use std::mem;
pub assume_specification<T: Ord> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { b } else { a });

pub assume_specification<T: Ord> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { a } else { b });

pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });

pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> f.requires((a->0,)),
    ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r);

pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (a: Option<T>, f: F) -> (r: Option<T>)
    requires a is Some ==> f.requires((&a->0,)),
    ensures a is None ==> r is None, a is Some ==> (r == a && f.ensures((&a->0,), true)) || (r is None && f.ensures((&a->0,), false));

pub assume_specification<T: Copy> [Option::<&T>::copied] (a: Option<&T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });

pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (a: Result<T, E>, f: F) -> (r: T)
    requires a is Err ==> f.requires((a->Err_0,)),
    ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);

pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,)),
    ensures a is Err ==> r == Err::<U, E>(a->Err_0), a is Ok ==> f.ensures((a->Ok_0,), r);

pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last();

pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);

pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front] (s: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@.first();

pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::back] (s: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@.last();

pub assume_specification<T> [bool::then_some] (a: bool, x: T) -> (r: Option<T>)
    ensures r == (if a { Some(x) } else { None });

pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r == (if a < b { b - a } else { a - b });

pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b });

pub assume_specification<T, F: FnOnce() -> T> [Option::<T>::get_or_insert_with] (a: &mut Option<T>, f: F) -> (r: &mut T)
    requires *old(a) is None ==> f.requires(()),
    ensures *old(a) is Some ==> *r == (*old(a))->0, *old(a) is None ==> f.ensures((), *r), *final(a) == Some(*final(r));

