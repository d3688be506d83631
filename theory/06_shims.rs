// ---------------------------------------------------------------- trusted: the standard library, as documented
#[verifier::external_body]
pub struct VxPath { _p: u8 }

#[verifier::external_body]
pub fn vx_path(s: &str) -> (r: &'static VxPath) { unimplemented!() }

#[verifier::external_body]
pub fn vx_lit_64() -> (r: &'static [u8]) ensures r@ == seq![100u8] { b"d" }

#[verifier::external_body]
pub fn vx_lit_6c() -> (r: &'static [u8]) ensures r@ == seq![108u8] { b"l" }

#[verifier::external_body]
pub fn vx_lit_62() -> (r: &'static [u8]) ensures r@ == seq![98u8] { b"b" }

#[verifier::external_body]
pub fn vx_le_bytes(x: u64) -> (r: [u8; 8])
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == (x >> (8 * i) as u64) as u8
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_ne_bytes(x: u64) -> (r: [u8; 8])
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == (x >> (8 * i) as u64) as u8
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_be_bytes(x: u64) -> (r: [u8; 8])
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == (x >> (8 * (7 - i)) as u64) as u8
{ unimplemented!() }

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], r@[i]);

pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (s: Result<T, E>, d: T) -> (r: T)
    ensures r == (match s { Ok(x) => x, Err(_) => d });

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (s: &VecDeque<T, A>) -> (r: bool)
    ensures r == (s@.len() == 0);

pub assume_specification<T, const N: usize> [<[T; N] as AsRef<[T]>>::as_ref] (s: &[T; N]) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<T, A: std::alloc::Allocator> [<Vec<T, A> as AsRef<[T]>>::as_ref] (s: &Vec<T, A>) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<T> [Option::<T>::replace] (s: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(s), *final(s) == Some(x);

pub assume_specification<T> [<[T] as AsRef<[T]>>::as_ref] (s: &[T]) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<T, P: FnMut(&T) -> bool> [<[T]>::partition_point::<P>] (s: &[T], pred: P) -> (r: usize)
    requires
        forall|i: int| 0 <= i < s@.len() ==> #[trigger] pred.requires((&s@[i],)),
        // sorted by the predicate, which is taken to be a function of the element
        forall|i: int, j: int| 0 <= i <= j < s@.len() && #[trigger] pred.ensures((&s@[j],), true)
            ==> !#[trigger] pred.ensures((&s@[i],), false),
    ensures
        r <= s@.len(),
        forall|i: int| 0 <= i < r ==> pred.ensures((&#[trigger] s@[i],), true),
        forall|i: int| r <= i < s@.len() ==> pred.ensures((&#[trigger] s@[i],), false);

// Arrays compare lexicographically.
pub uninterp spec fn arr_lt<T, const N: usize>(a: [T; N], b: [T; N]) -> bool;

pub assume_specification<T: PartialOrd, const N: usize>[<[T; N] as PartialOrd>::lt](a: &[T; N], b: &[T; N]) -> (r: bool)
    ensures r == arr_lt(*a, *b);
pub assume_specification<T: PartialOrd, const N: usize>[<[T; N] as PartialOrd>::gt](a: &[T; N], b: &[T; N]) -> (r: bool)
    ensures r == arr_lt(*b, *a);
pub assume_specification<T: PartialOrd, const N: usize>[<[T; N] as PartialOrd>::le](a: &[T; N], b: &[T; N]) -> (r: bool)
    ensures r == !arr_lt(*b, *a);
pub assume_specification<T: PartialOrd, const N: usize>[<[T; N] as PartialOrd>::ge](a: &[T; N], b: &[T; N]) -> (r: bool)
    ensures r == !arr_lt(*a, *b);

pub trait VxOrd: Sized {
    spec fn vx_less(a: Self, b: Self) -> bool;
    fn vx_lt1(&self, o: &Self) -> (r: bool) ensures r == Self::vx_less(*self, *o);
    fn vx_gt1(&self, o: &Self) -> (r: bool) ensures r == Self::vx_less(*o, *self);
    fn vx_le1(&self, o: &Self) -> (r: bool) ensures r == !Self::vx_less(*o, *self);
    fn vx_ge1(&self, o: &Self) -> (r: bool) ensures r == !Self::vx_less(*self, *o);
}

impl<const N: usize> VxOrd for Array<N> {
    open spec fn vx_less(a: Self, b: Self) -> bool { arr_lt(a, b) }
    fn vx_lt1(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vx_gt1(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vx_le1(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vx_ge1(&self, o: &Self) -> (r: bool) { *self >= *o }
}

impl VxOrd for usize {
    open spec fn vx_less(a: Self, b: Self) -> bool { a < b }
    fn vx_lt1(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vx_gt1(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vx_le1(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vx_ge1(&self, o: &Self) -> (r: bool) { *self >= *o }
}

impl VxOrd for u8 {
    open spec fn vx_less(a: Self, b: Self) -> bool { a < b }
    fn vx_lt1(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vx_gt1(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vx_le1(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vx_ge1(&self, o: &Self) -> (r: bool) { *self >= *o }
}

impl<A: VxOrd> VxOrd for &A {
    open spec fn vx_less(a: Self, b: Self) -> bool { A::vx_less(*a, *b) }
    fn vx_lt1(&self, o: &Self) -> (r: bool) { (**self).vx_lt1(*o) }
    fn vx_gt1(&self, o: &Self) -> (r: bool) { (**self).vx_gt1(*o) }
    fn vx_le1(&self, o: &Self) -> (r: bool) { (**self).vx_le1(*o) }
    fn vx_ge1(&self, o: &Self) -> (r: bool) { (**self).vx_ge1(*o) }
}

pub fn vx_lt<A: VxOrd>(a: &A, b: &A) -> (r: bool) ensures r == A::vx_less(*a, *b) { a.vx_lt1(b) }
pub fn vx_gt<A: VxOrd>(a: &A, b: &A) -> (r: bool) ensures r == A::vx_less(*b, *a) { a.vx_gt1(b) }
pub fn vx_le<A: VxOrd>(a: &A, b: &A) -> (r: bool) ensures r == !A::vx_less(*b, *a) { a.vx_le1(b) }
pub fn vx_ge<A: VxOrd>(a: &A, b: &A) -> (r: bool) ensures r == !A::vx_less(*a, *b) { a.vx_ge1(b) }

// Sorting.
pub trait VxSort<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    spec fn vx_leq(a: T, b: T) -> bool;
    fn vx_sort(&mut self)
        ensures
            final(self).vx_seq().to_multiset() == old(self).vx_seq().to_multiset(),
            final(self).vx_seq().len() == old(self).vx_seq().len(),
            forall|i: int, j: int| 0 <= i <= j < final(self).vx_seq().len()
                ==> Self::vx_leq(#[trigger] final(self).vx_seq()[i], #[trigger] final(self).vx_seq()[j]);
}

impl<const N: usize> VxSort<Array<N>> for [Array<N>] {
    open spec fn vx_seq(&self) -> Seq<Array<N>> { self@ }
    open spec fn vx_leq(a: Array<N>, b: Array<N>) -> bool { !arr_lt(b, a) }
    #[verifier::external_body]
    fn vx_sort(&mut self) { self.sort_unstable(); }
}

impl VxSort<usize> for Vec<usize> {
    open spec fn vx_seq(&self) -> Seq<usize> { self@ }
    open spec fn vx_leq(a: usize, b: usize) -> bool { a <= b }
    #[verifier::external_body]
    fn vx_sort(&mut self) { self.sort_unstable(); }
}

impl<const N: usize> VxSort<TreeRef<N>> for Vec<TreeRef<N>> {
    open spec fn vx_seq(&self) -> Seq<TreeRef<N>> { self@ }
    open spec fn vx_leq(a: TreeRef<N>, b: TreeRef<N>) -> bool { tref_ord(a, b) != Ordering::Greater }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_binary_search<const N: usize>(s: &[Array<N>], k: &Array<N>) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i <= j < s@.len() ==> !arr_lt(#[trigger] s@[j], #[trigger] s@[i]),
    ensures
        match r {
            Ok(i) => i < s@.len() && s@[i as int] == *k && s@.contains(*k),
            Err(i) => !s@.contains(*k),
        },
{ s.binary_search(k) }

// Hash maps.
#[verifier::external_body]
pub fn vx_hm_index<'a, K: std::hash::Hash + Eq, V>(m: &'a HashMap<K, V>, k: &K) -> (r: &'a V)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{ &m[k] }

#[verifier::external_body]
pub fn vx_hm_take<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher>(m: &mut HashMap<K, V, S>, k: &K) -> (r: Option<V>)
    ensures
        r matches Some(v) ==> old(m)@.contains_key(*k) && v == old(m)@[*k] && final(m)@ == old(m)@.remove(*k),
        r is None ==> !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
{ m.remove(k) }

#[verifier::external_body]
pub fn vx_collect<T>(s: HashSet<T>) -> (r: Vec<T>)
    ensures
        r@.no_duplicates(),
        forall|x: T| r@.contains(x) <==> s@.contains(x),
{ s.into_iter().collect() }

pub broadcast axiom fn axiom_array_key_model<const N: usize>()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Array<N>>();

// Buffers of a given size: the size has to be one the machine can be expected to provide.
#[verifier::external_body]
pub fn vx_vec_cap<T>(n: usize) -> (r: Vec<T>) requires n <= u32::MAX ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }

#[verifier::external_body]
pub fn vx_deque_cap<T>(n: usize) -> (r: VecDeque<T>) requires n <= u32::MAX ensures r@ == Seq::<T>::empty() { VecDeque::with_capacity(n) }

#[verifier::external_body]
pub fn vx_map_cap<K: std::hash::Hash + Eq, V>(n: usize) -> (r: HashMap<K, V>) requires n <= u32::MAX ensures r@ == Map::<K, V>::empty() { HashMap::with_capacity(n) }

// Whole slices.
pub trait VxAll<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_slice(&self) -> (r: &[T]) ensures r@ == self.vx_items();
}

impl<T, const N: usize> VxAll<T> for [T; N] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { let r = &self[..]; assert(r@ =~= self@); r }
}

impl<T> VxAll<T> for [T] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self }
}

impl<T> VxAll<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}

impl<T, A: VxAll<T>> VxAll<T> for &A {
    open spec fn vx_items(&self) -> Seq<T> { (**self).vx_items() }
    fn vx_slice(&self) -> (r: &[T]) { (**self).vx_slice() }
}

pub fn vx_unreached<T>() -> (r: T)
    requires false,
{
    vstd::pervasive::unreached()
}

pub fn vx_from(len: usize, a: usize)
    requires a <= len,
{
}

pub fn vx_all<T, A: VxAll<T> + ?Sized>(a: &A) -> (r: &[T]) ensures r@ == a.vx_items() { a.vx_slice() }
