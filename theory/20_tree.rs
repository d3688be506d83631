// ---------------------------------------------------------------- ghost trees
/// The abstract tree a location stands for.
pub enum T<const N: usize> {
    Leaf { key: Array<N>, value: Seq<u8> },
    Branch { split: int, l: Box<T<N>>, r: Box<T<N>> },
}

/// Smallest key.
pub open spec fn tkey<const N: usize>(t: T<N>) -> Array<N>
    decreases t
{
    match t {
        T::Leaf { key, value } => key,
        T::Branch { split, l, r } => tkey(*l),
    }
}

/// Number of keys.
pub open spec fn size<const N: usize>(t: T<N>) -> nat
    decreases t
{
    match t {
        T::Leaf { .. } => 1,
        T::Branch { split, l, r } => size(*l) + size(*r),
    }
}

/// Number of leaves and branches.
pub open spec fn weight<const N: usize>(t: T<N>) -> nat
    decreases t
{
    match t {
        T::Leaf { .. } => 1,
        T::Branch { split, l, r } => weight(*l) + weight(*r) + 1,
    }
}

/// Number of branches on the longest path.
pub open spec fn height<const N: usize>(t: T<N>) -> nat
    decreases t
{
    match t {
        T::Leaf { .. } => 0,
        T::Branch { split, l, r } => 1 + if height(*l) > height(*r) { height(*l) } else { height(*r) },
    }
}

/// Number of leading bits all keys of the tree share.
pub open spec fn level<const N: usize>(t: T<N>) -> int {
    match t {
        T::Leaf { .. } => 8 * N,
        T::Branch { split, l, r } => split,
    }
}

/// The content of the tree.
pub open spec fn lookup<const N: usize>(t: T<N>, k: Array<N>) -> Option<Seq<u8>>
    decreases t
{
    match t {
        T::Leaf { key, value } => if k == key { Some(value) } else { None },
        T::Branch { split, l, r } => if bit(k, split) { lookup(*r, k) } else { lookup(*l, k) },
    }
}

/// Number of branches above the leaf the key leads to.
pub open spec fn kdepth<const N: usize>(t: T<N>, k: Array<N>) -> nat
    decreases t
{
    match t {
        T::Leaf { key, value } => 0,
        T::Branch { split, l, r } => 1 + if bit(k, split) { kdepth(*r, k) } else { kdepth(*l, k) },
    }
}

/// The shape is the one determined by the keys: each branch splits at the first bit its keys differ.
pub open spec fn wg<const N: usize>(t: T<N>) -> bool
    decreases t
{
    match t {
        T::Leaf { .. } => true,
        T::Branch { split, l, r } => {
            &&& 0 <= split < 8 * N
            &&& wg(*l) && wg(*r)
            &&& level(*l) > split && level(*r) > split
            &&& agree(tkey(*l), tkey(*r), split)
            &&& !bit(tkey(*l), split)
            &&& bit(tkey(*r), split)
        },
    }
}

pub proof fn lemma_level<const N: usize>(t: T<N>)
    requires wg(t),
    ensures 0 <= level(t) <= 8 * N,
{
}

pub proof fn lemma_member<const N: usize>(t: T<N>, k: Array<N>)
    requires wg(t), lookup(t, k) is Some,
    ensures agree(k, tkey(t), level(t)),
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            if bit(k, split) { lemma_member(*r, k); } else { lemma_member(*l, k); }
            assert forall|i: int| 0 <= i < split implies bit(k, i) == bit(tkey(t), i) by {
                if bit(k, split) {
                    assert(bit(k, i) == bit(tkey(*r), i));
                    assert(bit(tkey(*l), i) == bit(tkey(*r), i));
                } else {
                    assert(bit(k, i) == bit(tkey(*l), i));
                }
            }
        },
    }
}

/// Keys of the subtrees are on the side their split bit says.
pub proof fn lemma_side<const N: usize>(t: T<N>, k: Array<N>)
    requires wg(t),
    ensures
        t matches T::Branch { split, l, r } ==> {
            &&& lookup(*l, k) is Some ==> !bit(k, split) && lookup(t, k) == lookup(*l, k)
            &&& lookup(*r, k) is Some ==> bit(k, split) && lookup(t, k) == lookup(*r, k)
        },
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            if lookup(*l, k) is Some { lemma_member(*l, k); assert(bit(k, split) == bit(tkey(*l), split)); }
            if lookup(*r, k) is Some { lemma_member(*r, k); assert(bit(k, split) == bit(tkey(*r), split)); }
        },
    }
}

pub proof fn lemma_tkey<const N: usize>(t: T<N>)
    requires wg(t),
    ensures lookup(t, tkey(t)) is Some,
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => { lemma_tkey(*l); },
    }
}

pub proof fn lemma_tkey_min<const N: usize>(t: T<N>, k: Array<N>)
    requires wg(t), lookup(t, k) is Some,
    ensures kle(tkey(t), k),
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            if bit(k, split) {
                lemma_member(t, k);
                lemma_agree_sym(k, tkey(t), split);
                assert(is_diff(tkey(t), k, split));
            } else {
                lemma_tkey_min(*l, k);
            }
        },
    }
}

pub proof fn lemma_size<const N: usize>(t: T<N>)
    ensures size(t) >= 1, weight(t) >= 1,
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => { lemma_size(*l); lemma_size(*r); },
    }
}

pub proof fn lemma_height<const N: usize>(t: T<N>, k: Array<N>)
    requires wg(t),
    ensures height(t) <= 8 * N - (if t is Leaf { 8 * N } else { level(t) }), kdepth(t, k) <= height(t),
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => { lemma_height(*l, k); lemma_height(*r, k); },
    }
}

pub open spec fn same_content<const N: usize>(a: T<N>, b: T<N>) -> bool {
    forall|k: Array<N>| #![trigger lookup(a, k)] #![trigger lookup(b, k)] lookup(a, k) == lookup(b, k)
}

/// C05: the tree is determined by its content.
pub proof fn lemma_canonical<const N: usize>(a: T<N>, b: T<N>)
    requires wg(a), wg(b), same_content(a, b),
    ensures a == b,
    decreases a,
{
    lemma_tkey(a);
    lemma_tkey(b);
    match a {
        T::Leaf { key: ka, value: va } => {
            assert(lookup(b, ka) == Some(va));
            assert(lookup(a, tkey(b)) is Some);
            match b {
                T::Leaf { key, value } => {},
                T::Branch { split, l, r } => {
                    lemma_tkey(*r);
                    lemma_side(b, tkey(*r));
                    assert(lookup(a, tkey(*r)) is Some);
                    assert(bit(tkey(*r), split) != bit(tkey(*l), split));
                },
            }
        },
        T::Branch { split: sa, l: la, r: ra } => {
            lemma_tkey(*la); lemma_tkey(*ra);
            lemma_side(a, tkey(*la)); lemma_side(a, tkey(*ra));
            assert(lookup(b, tkey(*ra)) is Some);
            assert(lookup(b, tkey(*la)) is Some);
            match b {
                T::Leaf { key, value } => {
                    assert(tkey(*la) == key && tkey(*ra) == key);
                },
                T::Branch { split: sb, l: lb, r: rb } => {
                    lemma_tkey(*lb); lemma_tkey(*rb);
                    lemma_side(b, tkey(*lb)); lemma_side(b, tkey(*rb));
                    assert(lookup(a, tkey(*rb)) is Some);
                    assert(lookup(a, tkey(*lb)) is Some);
                    lemma_split_le(a, b);
                    lemma_split_le(b, a);
                    assert(sa == sb);
                    assert forall|k: Array<N>| lookup(*la, k) == lookup(*lb, k) by {
                        lemma_side(a, k); lemma_side(b, k);
                        assert(lookup(a, k) == lookup(b, k));
                    }
                    assert forall|k: Array<N>| lookup(*ra, k) == lookup(*rb, k) by {
                        lemma_side(a, k); lemma_side(b, k);
                        assert(lookup(a, k) == lookup(b, k));
                    }
                    lemma_canonical(*la, *lb);
                    lemma_canonical(*ra, *rb);
                },
            }
        },
    }
}

proof fn lemma_split_le<const N: usize>(a: T<N>, b: T<N>)
    requires wg(a), wg(b), a is Branch, b is Branch, same_content(a, b),
    ensures level(a) >= level(b),
{
    match a {
        T::Leaf { key, value } => {},
        T::Branch { split: sa, l: la, r: ra } => {
            lemma_tkey(*la); lemma_tkey(*ra);
            lemma_side(a, tkey(*la)); lemma_side(a, tkey(*ra));
            assert(lookup(b, tkey(*ra)) is Some);
            assert(lookup(b, tkey(*la)) is Some);
            lemma_member(b, tkey(*la));
            lemma_member(b, tkey(*ra));
            if sa < level(b) {
                assert(bit(tkey(*la), sa) == bit(tkey(b), sa));
                assert(bit(tkey(*ra), sa) == bit(tkey(b), sa));
            }
        },
    }
}

// ---------------------------------------------------------------- separation
/// The trees have no common prefix as long as the shorter of their levels: they sit at different places.
pub open spec fn sep<const N: usize>(a: T<N>, b: T<N>) -> bool {
    !agree(tkey(a), tkey(b), level(a)) && !agree(tkey(a), tkey(b), level(b))
}

/// A key outside the subtree `t` and outside everything that could be below it.
pub open spec fn sep_key<const N: usize>(k: Array<N>, t: T<N>) -> bool {
    !agree(k, tkey(t), level(t))
}

pub proof fn lemma_sep_sym<const N: usize>(a: T<N>, b: T<N>)
    ensures sep(a, b) == sep(b, a),
{
    lemma_agree_sym(tkey(a), tkey(b), level(a));
    lemma_agree_sym(tkey(a), tkey(b), level(b));
}

pub open spec fn is_child<const N: usize>(c: T<N>, t: T<N>) -> bool {
    t matches T::Branch { split, l, r } && (c == *l || c == *r)
}

pub proof fn lemma_child_agree<const N: usize>(c: T<N>, t: T<N>)
    requires wg(t), is_child(c, t),
    ensures wg(c), agree(tkey(c), tkey(t), level(t)), level(c) > level(t),
{
    lemma_agree_sym(tkey(t), tkey(c), level(t));
}

pub proof fn lemma_sep_child<const N: usize>(c: T<N>, t: T<N>, o: T<N>)
    requires wg(t), is_child(c, t), sep(t, o),
    ensures sep(c, o),
{
    lemma_child_agree(c, t);
    if agree(tkey(c), tkey(o), level(c)) || agree(tkey(c), tkey(o), level(o)) {
        let m = if level(t) < level(o) { level(t) } else { level(o) };
        assert(agree(tkey(c), tkey(o), m));
        assert(agree(tkey(t), tkey(c), m));
        lemma_agree_trans(tkey(t), tkey(c), tkey(o), m);
    }
}

pub proof fn lemma_sep_children<const N: usize>(t: T<N>)
    requires wg(t),
    ensures t matches T::Branch { split, l, r } ==> sep(*l, *r) && sep(*r, *l),
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            assert(bit(tkey(*l), split) != bit(tkey(*r), split));
        },
    }
}

pub proof fn lemma_sep_key_child<const N: usize>(k: Array<N>, c: T<N>, t: T<N>)
    requires wg(t), is_child(c, t), sep_key(k, t),
    ensures sep_key(k, c),
{
    lemma_child_agree(c, t);
    if agree(k, tkey(c), level(c)) {
        assert(agree(k, tkey(c), level(t)));
        lemma_agree_trans(k, tkey(c), tkey(t), level(t));
    }
}

pub proof fn lemma_sep_key_lookup<const N: usize>(k: Array<N>, t: T<N>)
    requires wg(t), sep_key(k, t),
    ensures lookup(t, k) is None,
{
    if lookup(t, k) is Some { lemma_member(t, k); }
}

pub proof fn lemma_sep_disjoint<const N: usize>(a: T<N>, b: T<N>, k: Array<N>)
    requires wg(a), wg(b), sep(a, b), lookup(a, k) is Some,
    ensures lookup(b, k) is None,
{
    if lookup(b, k) is Some {
        lemma_member(a, k);
        lemma_member(b, k);
        let m = if level(a) < level(b) { level(a) } else { level(b) };
        assert(agree(k, tkey(a), m));
        assert(agree(tkey(a), k, m));
        assert(agree(k, tkey(b), m));
        lemma_agree_trans(tkey(a), k, tkey(b), m);
    }
}

// ---------------------------------------------------------------- hashes
pub open spec fn data_pre<const N: usize>(key: Array<N>, value: Seq<u8>) -> Seq<u8> {
    seq![100u8] + key@ + value
}

pub open spec fn leaf_pre<const N: usize>(key: Array<N>, data: Array<N>) -> Seq<u8> {
    seq![108u8] + key@ + data@
}

pub open spec fn branch_pre<const N: usize>(zero: Array<N>, one: Array<N>) -> Seq<u8> {
    seq![98u8] + zero@ + one@
}

/// C17: the location of each kind of node.
pub open spec fn data_loc<H: Hasher<N>, const N: usize>(key: Array<N>, value: Seq<u8>) -> Array<N> {
    H::digest(data_pre(key, value))
}

pub open spec fn hash<H: Hasher<N>, const N: usize>(t: T<N>) -> Array<N>
    decreases t
{
    match t {
        T::Leaf { key, value } => H::digest(leaf_pre(key, data_loc::<H, N>(key, value))),
        T::Branch { split, l, r } => H::digest(branch_pre(hash::<H, N>(*l), hash::<H, N>(*r))),
    }
}

/// Every string whose digest occurs in the tree has really been hashed.
pub open spec fn comp<H: Hasher<N>, const N: usize>(t: T<N>) -> bool
    decreases t
{
    match t {
        T::Leaf { key, value } => H::hashed(data_pre(key, value)) && H::hashed(leaf_pre(key, data_loc::<H, N>(key, value))),
        T::Branch { split, l, r } => {
            &&& H::hashed(branch_pre(hash::<H, N>(*l), hash::<H, N>(*r)))
            &&& comp::<H, N>(*l)
            &&& comp::<H, N>(*r)
        },
    }
}

pub open spec fn valid<H: Hasher<N>, const N: usize>(t: T<N>) -> bool {
    wg(t) && comp::<H, N>(t)
}

pub open spec fn names<H: Hasher<N>, const N: usize>(t: T<N>, loc: Array<N>) -> bool {
    valid::<H, N>(t) && hash::<H, N>(t) == loc
}

/// The tree a location stands for.
pub open spec fn tree_of<H: Hasher<N>, const N: usize>(loc: Array<N>) -> T<N> {
    choose|t: T<N>| names::<H, N>(t, loc)
}

pub open spec fn is_tree<H: Hasher<N>, const N: usize>(loc: Array<N>) -> bool {
    names::<H, N>(tree_of::<H, N>(loc), loc)
}

pub proof fn lemma_data_pre_inj<const N: usize>(k1: Array<N>, v1: Seq<u8>, k2: Array<N>, v2: Seq<u8>)
    requires data_pre(k1, v1) == data_pre(k2, v2),
    ensures k1 == k2, v1 == v2,
{
    let a = data_pre(k1, v1);
    let b = data_pre(k2, v2);
    assert(a.subrange(1, 1 + N as int) =~= k1@);
    assert(b.subrange(1, 1 + N as int) =~= k2@);
    assert(a.len() == 1 + N + v1.len());
    assert(b.len() == 1 + N + v2.len());
    assert(a.subrange(1 + N as int, a.len() as int) =~= v1);
    assert(b.subrange(1 + N as int, b.len() as int) =~= v2);
    lemma_arr_ext(k1, k2);
}

pub proof fn lemma_leaf_pre_inj<const N: usize>(k1: Array<N>, v1: Array<N>, k2: Array<N>, v2: Array<N>)
    requires leaf_pre(k1, v1) == leaf_pre(k2, v2),
    ensures k1 == k2, v1 == v2,
{
    let a = leaf_pre(k1, v1);
    let b = leaf_pre(k2, v2);
    assert(a.subrange(1, 1 + N as int) =~= k1@);
    assert(b.subrange(1, 1 + N as int) =~= k2@);
    assert(a.subrange(1 + N as int, 1 + 2 * N as int) =~= v1@);
    assert(b.subrange(1 + N as int, 1 + 2 * N as int) =~= v2@);
    lemma_arr_ext(k1, k2);
    lemma_arr_ext(v1, v2);
}

pub proof fn lemma_branch_pre_inj<const N: usize>(k1: Array<N>, v1: Array<N>, k2: Array<N>, v2: Array<N>)
    requires branch_pre(k1, v1) == branch_pre(k2, v2),
    ensures k1 == k2, v1 == v2,
{
    let a = branch_pre(k1, v1);
    let b = branch_pre(k2, v2);
    assert(a.subrange(1, 1 + N as int) =~= k1@);
    assert(b.subrange(1, 1 + N as int) =~= k2@);
    assert(a.subrange(1 + N as int, 1 + 2 * N as int) =~= v1@);
    assert(b.subrange(1 + N as int, 1 + 2 * N as int) =~= v2@);
    lemma_arr_ext(k1, k2);
    lemma_arr_ext(v1, v2);
}

/// Tags keep the three kinds of locations apart.
pub proof fn lemma_tags<const N: usize>(k1: Array<N>, v1: Seq<u8>, k2: Array<N>, d2: Array<N>, z: Array<N>, o: Array<N>)
    ensures
        data_pre(k1, v1) != leaf_pre(k2, d2),
        data_pre(k1, v1) != branch_pre(z, o),
        leaf_pre(k2, d2) != branch_pre(z, o),
{
    assert(data_pre(k1, v1)[0] == 100u8);
    assert(leaf_pre(k2, d2)[0] == 108u8);
    assert(branch_pre(z, o)[0] == 98u8);
}

/// C12: the hash determines the tree.
pub proof fn lemma_hash_inj<H: Hasher<N>, const N: usize>(a: T<N>, b: T<N>)
    requires valid::<H, N>(a), valid::<H, N>(b), hash::<H, N>(a) == hash::<H, N>(b),
    ensures a == b,
    decreases a,
{
    match (a, b) {
        (T::Leaf { key: k1, value: v1 }, T::Leaf { key: k2, value: v2 }) => {
            let d1 = data_loc::<H, N>(k1, v1);
            let d2 = data_loc::<H, N>(k2, v2);
            H::collision_free(leaf_pre(k1, d1), leaf_pre(k2, d2));
            lemma_leaf_pre_inj(k1, d1, k2, d2);
            H::collision_free(data_pre(k1, v1), data_pre(k2, v2));
            lemma_data_pre_inj(k1, v1, k2, v2);
        },
        (T::Branch { split: s1, l: l1, r: r1 }, T::Branch { split: s2, l: l2, r: r2 }) => {
            let (z1, o1) = (hash::<H, N>(*l1), hash::<H, N>(*r1));
            let (z2, o2) = (hash::<H, N>(*l2), hash::<H, N>(*r2));
            H::collision_free(branch_pre(z1, o1), branch_pre(z2, o2));
            lemma_branch_pre_inj(z1, o1, z2, o2);
            lemma_hash_inj::<H, N>(*l1, *l2);
            lemma_hash_inj::<H, N>(*r1, *r2);
            lemma_diff_unique(tkey(*l1), tkey(*r1), s1, s2);
        },
        (T::Leaf { key: k1, value: v1 }, T::Branch { split: s2, l: l2, r: r2 }) => {
            let d1 = data_loc::<H, N>(k1, v1);
            let (z2, o2) = (hash::<H, N>(*l2), hash::<H, N>(*r2));
            lemma_tags(k1, v1, k1, d1, z2, o2);
            H::collision_free(leaf_pre(k1, d1), branch_pre(z2, o2));
        },
        (T::Branch { split: s2, l: l2, r: r2 }, T::Leaf { key: k1, value: v1 }) => {
            let d1 = data_loc::<H, N>(k1, v1);
            let (z2, o2) = (hash::<H, N>(*l2), hash::<H, N>(*r2));
            lemma_tags(k1, v1, k1, d1, z2, o2);
            H::collision_free(leaf_pre(k1, d1), branch_pre(z2, o2));
        },
    }
}

pub proof fn lemma_tree_of<H: Hasher<N>, const N: usize>(t: T<N>)
    requires valid::<H, N>(t),
    ensures tree_of::<H, N>(hash::<H, N>(t)) == t, is_tree::<H, N>(hash::<H, N>(t)),
{
    assert(names::<H, N>(t, hash::<H, N>(t)));
    let u = tree_of::<H, N>(hash::<H, N>(t));
    assert(names::<H, N>(u, hash::<H, N>(t)));
    lemma_hash_inj::<H, N>(t, u);
}

pub proof fn lemma_data_not_tree<H: Hasher<N>, const N: usize>(key: Array<N>, value: Seq<u8>, t: T<N>)
    requires valid::<H, N>(t), H::hashed(data_pre(key, value)), data_loc::<H, N>(key, value) == hash::<H, N>(t),
    ensures false,
{
    match t {
        T::Leaf { key: k1, value: v1 } => {
            let d1 = data_loc::<H, N>(k1, v1);
            lemma_tags(key, value, k1, d1, d1, d1);
            H::collision_free(data_pre(key, value), leaf_pre(k1, d1));
        },
        T::Branch { split, l, r } => {
            let (z, o) = (hash::<H, N>(*l), hash::<H, N>(*r));
            lemma_tags(key, value, key, key, z, o);
            H::collision_free(data_pre(key, value), branch_pre(z, o));
        },
    }
}
