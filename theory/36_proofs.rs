// ---------------------------------------------------------------- inclusion proofs
/// The proof for a key: its data and leaf locations, then the sibling at every branch upwards.
pub open spec fn full_proof<H: Hasher<N>, const N: usize>(t: T<N>, k: Array<N>) -> Seq<(Array<N>, bool)>
    decreases t
{
    match t {
        T::Leaf { key, value } => seq![(data_loc::<H, N>(key, value), false)].push((hash::<H, N>(t), false)),
        T::Branch { split, l, r } => if bit(k, split) {
            full_proof::<H, N>(*r, k).push((hash::<H, N>(*l), false))
        } else {
            full_proof::<H, N>(*l, k).push((hash::<H, N>(*r), true))
        },
    }
}

pub open spec fn up_pre<const N: usize>(h: Array<N>, s: (Array<N>, bool)) -> Seq<u8> {
    if s.1 { branch_pre(h, s.0) } else { branch_pre(s.0, h) }
}

/// The hash reached after `n` items of the proof.
pub open spec fn up<H: Hasher<N>, const N: usize>(p: Seq<(Array<N>, bool)>, n: int) -> Array<N>
    decreases n
{
    if n <= 2 { p[1].0 } else { H::digest(up_pre(up::<H, N>(p, n - 1), p[n - 1])) }
}

pub open spec fn up_hashed<H: Hasher<N>, const N: usize>(p: Seq<(Array<N>, bool)>, n: int) -> bool {
    forall|i: int| 2 < i <= n ==> H::hashed(up_pre(#[trigger] up::<H, N>(p, i - 1), p[i - 1]))
}

/// The proof connects the pair with the root.
pub open spec fn connects<H: Hasher<N>, const N: usize>(root: Array<N>, key: Array<N>, v: Seq<u8>, p: Seq<(Array<N>, bool)>) -> bool {
    &&& p.len() >= 2
    &&& p[0].0 == data_loc::<H, N>(key, v)
    &&& p[1].0 == H::digest(leaf_pre(key, data_loc::<H, N>(key, v)))
    &&& up::<H, N>(p, p.len() as int) == root
}

/// What was hashed to check a proof.
pub open spec fn check_hashed<H: Hasher<N>, const N: usize>(key: Array<N>, v: Seq<u8>, p: Seq<(Array<N>, bool)>) -> bool {
    &&& H::hashed(data_pre(key, v))
    &&& H::hashed(leaf_pre(key, data_loc::<H, N>(key, v)))
    &&& up_hashed::<H, N>(p, p.len() as int)
}

pub proof fn lemma_up_prefix<H: Hasher<N>, const N: usize>(p: Seq<(Array<N>, bool)>, q: Seq<(Array<N>, bool)>, n: int)
    requires n <= p.len(), n <= q.len(), p.len() >= 2, q.len() >= 2, forall|i: int| 0 <= i < n ==> p[i] == q[i], p[1] == q[1],
    ensures up::<H, N>(p, n) == up::<H, N>(q, n),
    decreases n,
{
    if n > 2 { lemma_up_prefix::<H, N>(p, q, n - 1); }
}

/// C08: what a proof connects with the root of a tree is in the tree.
pub proof fn lemma_sound<H: Hasher<N>, const N: usize>(t: T<N>, key: Array<N>, v: Seq<u8>, p: Seq<(Array<N>, bool)>)
    requires
        valid::<H, N>(t),
        connects::<H, N>(hash::<H, N>(t), key, v, p),
        check_hashed::<H, N>(key, v, p),
    ensures
        lookup(t, key) == Some(v),
    decreases t,
{
    let n = p.len() as int;
    let d = data_loc::<H, N>(key, v);
    match t {
        T::Leaf { key: k1, value: v1 } => {
            let d1 = data_loc::<H, N>(k1, v1);
            if n == 2 {
                H::collision_free(leaf_pre(key, d), leaf_pre(k1, d1));
                lemma_leaf_pre_inj(key, d, k1, d1);
                H::collision_free(data_pre(key, v), data_pre(k1, v1));
                lemma_data_pre_inj(key, v, k1, v1);
            } else {
                let h = up::<H, N>(p, n - 1);
                let s = p[n - 1];
                let (z, o) = if s.1 { (h, s.0) } else { (s.0, h) };
                assert(H::hashed(up_pre(h, s)));
                lemma_tags(k1, v1, k1, d1, z, o);
                H::collision_free(leaf_pre(k1, d1), branch_pre(z, o));
            }
        },
        T::Branch { split, l, r } => {
            let (hl, hr) = (hash::<H, N>(*l), hash::<H, N>(*r));
            if n == 2 {
                lemma_tags(key, v, key, d, hl, hr);
                H::collision_free(leaf_pre(key, d), branch_pre(hl, hr));
            } else {
                let h = up::<H, N>(p, n - 1);
                let s = p[n - 1];
                let (z, o) = if s.1 { (h, s.0) } else { (s.0, h) };
                assert(H::hashed(up_pre(h, s)));
                H::collision_free(branch_pre(z, o), branch_pre(hl, hr));
                lemma_branch_pre_inj(z, o, hl, hr);
                let q = p.subrange(0, n - 1);
                lemma_up_prefix::<H, N>(p, q, n - 1);
                assert forall|i: int| 2 < i <= n - 1 implies H::hashed(up_pre(#[trigger] up::<H, N>(q, i - 1), q[i - 1])) by {
                    lemma_up_prefix::<H, N>(p, q, i - 1);
                    assert(H::hashed(up_pre(up::<H, N>(p, i - 1), p[i - 1])));
                }
                let c = if s.1 { *l } else { *r };
                lemma_sound::<H, N>(c, key, v, q);
                lemma_side(t, key);
            }
        },
    }
}

/// C07: the proof of a key in the tree connects it with the root.
pub proof fn lemma_complete<H: Hasher<N>, const N: usize>(t: T<N>, key: Array<N>)
    requires wg(t), lookup(t, key) is Some,
    ensures
        full_proof::<H, N>(t, key).len() >= 2,
        connects::<H, N>(hash::<H, N>(t), key, lookup(t, key).unwrap(), full_proof::<H, N>(t, key)),
    decreases t,
{
    match t {
        T::Leaf { key: k1, value: v1 } => {},
        T::Branch { split, l, r } => {
            let c = if bit(key, split) { *r } else { *l };
            lemma_complete::<H, N>(c, key);
            let p = full_proof::<H, N>(t, key);
            let q = full_proof::<H, N>(c, key);
            lemma_up_prefix::<H, N>(p, q, q.len() as int);
        },
    }
}

pub broadcast proof fn lemma_push_reverse<A>(a: Seq<A>, x: A)
    ensures #[trigger] a.push(x).reverse() == seq![x] + a.reverse(),
{
    assert(a.push(x).reverse() =~= seq![x] + a.reverse());
}

pub broadcast proof fn lemma_push_add<A>(a: Seq<A>, x: A, b: Seq<A>)
    ensures #[trigger] (a.push(x) + b) == a + (seq![x] + b),
{
    assert(a.push(x) + b =~= a + (seq![x] + b));
}

pub broadcast proof fn lemma_empty_add<A>(a: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + a) == a,
{
    assert(Seq::<A>::empty() + a =~= a);
}

pub broadcast group group_proofs {
    lemma_push_reverse, lemma_push_add, lemma_empty_add,
}
