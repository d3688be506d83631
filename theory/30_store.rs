// ---------------------------------------------------------------- the store
pub type Store<const N: usize> = Map<Array<N>, RNode<N>>;

/// `c` is referred to by the node.
pub open spec fn child<const N: usize>(node: ANode<N>, c: Array<N>) -> bool {
    match node {
        ANode::Branch { count, zero, one, split, key } => c == zero || c == one,
        ANode::Leaf { key, data } => c == data,
        ANode::Data { value } => false,
    }
}

pub open spec fn parents<const N: usize>(m: Store<N>, c: Array<N>) -> Set<Array<N>> {
    m.dom().filter(|p: Array<N>| child(m[p].node, c))
}

/// Number of stored nodes that refer to `c`.
pub open spec fn indeg<const N: usize>(m: Store<N>, c: Array<N>) -> nat {
    parents(m, c).len()
}

pub open spec fn refs_of<const N: usize>(m: Store<N>, x: Array<N>) -> int {
    if m.contains_key(x) { m[x].refs as int } else { 0 }
}

/// References held from outside the store: the number of times the location is held as a root.
pub open spec fn ext<const N: usize>(m: Store<N>, x: Array<N>) -> int {
    refs_of(m, x) - indeg(m, x)
}

/// The node stored for the root of `t`.
pub open spec fn top<H: Hasher<N>, const N: usize>(t: T<N>, node: ANode<N>) -> bool {
    match (t, node) {
        (T::Leaf { key: k, value }, ANode::Leaf { key, data }) => key == k && data == data_loc::<H, N>(k, value),
        (T::Branch { split: s, l, r }, ANode::Branch { count, zero, one, split, key }) => {
            &&& zero == hash::<H, N>(*l)
            &&& one == hash::<H, N>(*r)
            &&& split as int == s
            &&& key == tkey(t)
            &&& count as nat == size(t)
        },
        _ => false,
    }
}

pub open spec fn names_data<H: Hasher<N>, const N: usize>(key: Array<N>, value: Seq<u8>, loc: Array<N>) -> bool {
    H::hashed(data_pre(key, value)) && data_loc::<H, N>(key, value) == loc
}

/// C16, C17: the node is the one its location names.
pub open spec fn node_ok<H: Hasher<N>, const N: usize>(loc: Array<N>, node: ANode<N>) -> bool {
    match node {
        ANode::Data { value } => exists|key: Array<N>| #[trigger] names_data::<H, N>(key, value, loc),
        _ => is_tree::<H, N>(loc) && top::<H, N>(tree_of::<H, N>(loc), node),
    }
}

pub open spec fn entry_ok<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>) -> bool {
    &&& node_ok::<H, N>(loc, m[loc].node)
    &&& forall|c: Array<N>| #[trigger] child(m[loc].node, c) ==> m.contains_key(c)
    &&& m[loc].refs >= 1
    &&& m[loc].refs >= indeg(m, loc)
}

/// C13, C16, C17: the store invariant.
pub open spec fn wf<H: Hasher<N>, const N: usize>(m: Store<N>) -> bool {
    forall|loc: Array<N>| #[trigger] m.contains_key(loc) ==> entry_ok::<H, N>(m, loc)
}

/// C03: nothing disappears and nothing but counts changes.
pub open spec fn grows<const N: usize>(m: Store<N>, n: Store<N>) -> bool {
    forall|loc: Array<N>| #![trigger m.contains_key(loc)] #![trigger n.contains_key(loc)]
        m.contains_key(loc) ==> n.contains_key(loc) && n[loc].node == m[loc].node
}

/// The location can be used as a root.
pub open spec fn is_root<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>) -> bool {
    m.contains_key(loc) && !(m[loc].node is Data)
}

pub proof fn lemma_grows_trans<const N: usize>(a: Store<N>, b: Store<N>, c: Store<N>)
    requires grows(a, b), grows(b, c),
    ensures grows(a, c),
{
    assert forall|loc: Array<N>| #![trigger a.contains_key(loc)] #![trigger c.contains_key(loc)]
        a.contains_key(loc) implies c.contains_key(loc) && c[loc].node == a[loc].node by {
        assert(b.contains_key(loc));
    }
}

/// What is stored under the location of a tree.
pub proof fn lemma_at_tree<H: Hasher<N>, const N: usize>(m: Store<N>, t: T<N>)
    requires wf::<H, N>(m), valid::<H, N>(t), m.contains_key(hash::<H, N>(t)),
    ensures
        top::<H, N>(t, m[hash::<H, N>(t)].node),
        tree_of::<H, N>(hash::<H, N>(t)) == t,
        is_root::<H, N>(m, hash::<H, N>(t)),
{
    lemma_tree_of::<H, N>(t);
    let loc = hash::<H, N>(t);
    assert(entry_ok::<H, N>(m, loc));
    match m[loc].node {
        ANode::Data { value } => {
            let key = choose|key: Array<N>| #[trigger] names_data::<H, N>(key, value, loc);
            lemma_data_not_tree::<H, N>(key, value, t);
        },
        _ => {},
    }
}

/// Going down from a stored branch.
pub proof fn lemma_at_branch<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc), m[loc].node is Branch,
    ensures
        is_tree::<H, N>(loc),
        ({
            let t = tree_of::<H, N>(loc);
            let b = m[loc].node;
            &&& t is Branch
            &&& top::<H, N>(t, b)
            &&& wg(t)
            &&& tree_of::<H, N>(b->zero) == *t->l
            &&& tree_of::<H, N>(b->one) == *t->r
            &&& is_tree::<H, N>(b->zero)
            &&& is_tree::<H, N>(b->one)
            &&& is_root::<H, N>(m, b->zero)
            &&& is_root::<H, N>(m, b->one)
            &&& b->zero != b->one
        }),
{
    assert(entry_ok::<H, N>(m, loc));
    let t = tree_of::<H, N>(loc);
    let b = m[loc].node;
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            assert(child(b, b->zero));
            assert(child(b, b->one));
            lemma_tree_of::<H, N>(*l);
            lemma_tree_of::<H, N>(*r);
            lemma_at_tree::<H, N>(m, *l);
            lemma_at_tree::<H, N>(m, *r);
            if b->zero == b->one {
                lemma_hash_inj::<H, N>(*l, *r);
            }
        },
    }
}

pub proof fn lemma_at_leaf<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc), m[loc].node is Leaf,
    ensures
        is_tree::<H, N>(loc),
        ({
            let t = tree_of::<H, N>(loc);
            let b = m[loc].node;
            &&& t is Leaf
            &&& top::<H, N>(t, b)
            &&& wg(t)
            &&& m.contains_key(b->data)
            &&& m[b->data].node == (ANode::<N>::Data { value: t->value })
        }),
{
    assert(entry_ok::<H, N>(m, loc));
    let t = tree_of::<H, N>(loc);
    let b = m[loc].node;
    match t {
        T::Leaf { key, value } => {
            assert(child(b, b->data));
            lemma_at_data::<H, N>(m, key, value);
        },
        T::Branch { split, l, r } => {},
    }
}

pub proof fn lemma_at_data<H: Hasher<N>, const N: usize>(m: Store<N>, key: Array<N>, value: Seq<u8>)
    requires wf::<H, N>(m), H::hashed(data_pre(key, value)), m.contains_key(data_loc::<H, N>(key, value)),
    ensures m[data_loc::<H, N>(key, value)].node == (ANode::<N>::Data { value }),
{
    let d = data_loc::<H, N>(key, value);
    assert(entry_ok::<H, N>(m, d));
    match m[d].node {
        ANode::Data { value: v2 } => {
            let k2 = choose|k2: Array<N>| #[trigger] names_data::<H, N>(k2, v2, d);
            H::collision_free(data_pre(key, value), data_pre(k2, v2));
            lemma_data_pre_inj(key, value, k2, v2);
        },
        _ => {
            lemma_data_not_tree::<H, N>(key, value, tree_of::<H, N>(d));
        },
    }
}

/// A location names one node only.
pub proof fn lemma_node_unique<H: Hasher<N>, const N: usize>(loc: Array<N>, a: ANode<N>, b: ANode<N>)
    requires node_ok::<H, N>(loc, a), node_ok::<H, N>(loc, b),
    ensures a == b,
{
    match a {
        ANode::Data { value: v1 } => {
            let k1 = choose|k1: Array<N>| #[trigger] names_data::<H, N>(k1, v1, loc);
            match b {
                ANode::Data { value: v2 } => {
                    let k2 = choose|k2: Array<N>| #[trigger] names_data::<H, N>(k2, v2, loc);
                    H::collision_free(data_pre(k1, v1), data_pre(k2, v2));
                    lemma_data_pre_inj(k1, v1, k2, v2);
                },
                _ => { lemma_data_not_tree::<H, N>(k1, v1, tree_of::<H, N>(loc)); },
            }
        },
        _ => {
            match b {
                ANode::Data { value: v2 } => {
                    let k2 = choose|k2: Array<N>| #[trigger] names_data::<H, N>(k2, v2, loc);
                    lemma_data_not_tree::<H, N>(k2, v2, tree_of::<H, N>(loc));
                },
                _ => {},
            }
        },
    }
}

// ---------------------------------------------------------------- reference accounting
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

pub proof fn lemma_indeg_put<const N: usize>(m: Store<N>, loc: Array<N>, n: RNode<N>, c: Array<N>)
    ensures
        m.contains_key(loc) && m[loc].node == n.node ==> indeg(m.insert(loc, n), c) == indeg(m, c),
        !m.contains_key(loc) ==> indeg(m.insert(loc, n), c) == indeg(m, c) + b2i(child(n.node, c)),
{
    let a = parents(m, c);
    let b = parents(m.insert(loc, n), c);
    if m.contains_key(loc) && m[loc].node == n.node {
        assert(a =~= b);
    }
    if !m.contains_key(loc) {
        if child(n.node, c) {
            assert(b =~= a.insert(loc));
        } else {
            assert(a =~= b);
        }
    }
}

pub proof fn lemma_indeg_del<const N: usize>(m: Store<N>, loc: Array<N>, c: Array<N>)
    requires m.contains_key(loc),
    ensures indeg(m.remove(loc), c) == indeg(m, c) - b2i(child(m[loc].node, c)),
{
    let a = parents(m, c);
    let b = parents(m.remove(loc), c);
    if child(m[loc].node, c) {
        assert(b =~= a.remove(loc));
        assert(a.contains(loc));
    } else {
        assert(a =~= b);
    }
}

pub proof fn lemma_indeg_absent<H: Hasher<N>, const N: usize>(m: Store<N>, c: Array<N>)
    requires wf::<H, N>(m), !m.contains_key(c),
    ensures indeg(m, c) == 0, ext(m, c) == 0,
{
    assert(parents(m, c) =~= Set::empty()) by {
        assert forall|p: Array<N>| !parents(m, c).contains(p) by {
            if parents(m, c).contains(p) {
                assert(m.contains_key(p));
                assert(entry_ok::<H, N>(m, p));
                assert(child(m[p].node, c));
            }
        }
    }
}

pub proof fn lemma_ext_nonneg<H: Hasher<N>, const N: usize>(m: Store<N>, x: Array<N>)
    requires wf::<H, N>(m),
    ensures ext(m, x) >= 0, ext(m, x) > 0 ==> m.contains_key(x),
{
    if m.contains_key(x) { assert(entry_ok::<H, N>(m, x)); } else { lemma_indeg_absent::<H, N>(m, x); }
}

pub proof fn lemma_parent_counts<const N: usize>(m: Store<N>, p: Array<N>, c: Array<N>)
    requires m.contains_key(p), child(m[p].node, c),
    ensures indeg(m, c) >= 1,
{
    assert(parents(m, c).contains(p));
    if parents(m, c).len() == 0 { assert(parents(m, c) =~= Set::empty()); }
}

/// What a write of `n` at `loc` may be.
pub open spec fn put_ok<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>, n: RNode<N>) -> bool {
    &&& node_ok::<H, N>(loc, n.node)
    &&& n.refs >= 1
    &&& n.refs >= indeg(m, loc)
    &&& !m.contains_key(loc) ==> forall|c: Array<N>| #[trigger] child(n.node, c) ==> m.contains_key(c) && ext(m, c) >= 1
}

/// By how much a write of `n` at `loc` changes the references held to `x`.
pub open spec fn put_delta<const N: usize>(m: Store<N>, loc: Array<N>, n: RNode<N>, x: Array<N>) -> int {
    (if x == loc { n.refs - refs_of(m, loc) } else { 0 }) - b2i(!m.contains_key(loc) && child(n.node, x))
}

pub proof fn lemma_not_own_child<H: Hasher<N>, const N: usize>(loc: Array<N>, n: ANode<N>)
    requires node_ok::<H, N>(loc, n),
    ensures !child(n, loc),
{
    match n {
        ANode::Data { value } => {},
        ANode::Leaf { key, data } => {
            let t = tree_of::<H, N>(loc);
            if data == loc { lemma_data_not_tree::<H, N>(key, t->value, t); }
        },
        ANode::Branch { count, zero, one, split, key } => {
            let t = tree_of::<H, N>(loc);
            if zero == loc { lemma_hash_inj::<H, N>(*t->l, t); lemma_weight_child(*t->l, t); }
            if one == loc { lemma_hash_inj::<H, N>(*t->r, t); lemma_weight_child(*t->r, t); }
        },
    }
}

pub proof fn lemma_weight_child<const N: usize>(c: T<N>, t: T<N>)
    requires is_child(c, t),
    ensures weight(c) < weight(t),
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => { lemma_size(*l); lemma_size(*r); },
    }
}

pub proof fn lemma_put<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>, n: RNode<N>)
    requires wf::<H, N>(m), put_ok::<H, N>(m, loc, n),
    ensures
        wf::<H, N>(m.insert(loc, n)),
        grows(m, m.insert(loc, n)),
        m.contains_key(loc) ==> m[loc].node == n.node,
        forall|x: Array<N>| #[trigger] ext(m.insert(loc, n), x) == ext(m, x) + put_delta(m, loc, n, x),
{
    let m2 = m.insert(loc, n);
    if m.contains_key(loc) {
        assert(entry_ok::<H, N>(m, loc));
        lemma_node_unique::<H, N>(loc, m[loc].node, n.node);
    }
    lemma_not_own_child::<H, N>(loc, n.node);
    assert forall|x: Array<N>| #[trigger] ext(m2, x) == ext(m, x) + put_delta(m, loc, n, x) by {
        lemma_indeg_put(m, loc, n, x);
    }
    assert forall|x: Array<N>| #[trigger] m2.contains_key(x) implies entry_ok::<H, N>(m2, x) by {
        lemma_indeg_put(m, loc, n, x);
        if x != loc {
            assert(m.contains_key(x));
            assert(entry_ok::<H, N>(m, x));
            assert(m2[x] == m[x]);
            if child(n.node, x) && !m.contains_key(loc) {
                assert(ext(m, x) >= 1);
            }
            assert forall|c: Array<N>| #[trigger] child(m2[x].node, c) implies m2.contains_key(c) by {
                assert(child(m[x].node, c));
            }
        } else {
            assert(m2[x] == n);
            if m.contains_key(loc) {
                assert forall|c: Array<N>| #[trigger] child(m2[x].node, c) implies m2.contains_key(c) by {
                    assert(child(m[x].node, c));
                }
            }
        }
    }
}

pub proof fn lemma_del<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc), m[loc].refs == ext(m, loc),
    ensures
        wf::<H, N>(m.remove(loc)),
        grows(m.remove(loc), m),
        forall|x: Array<N>| #[trigger] ext(m.remove(loc), x) ==
            if x == loc { 0 } else { ext(m, x) + b2i(child(m[loc].node, x)) },
{
    let m2 = m.remove(loc);
    assert(entry_ok::<H, N>(m, loc));
    lemma_not_own_child::<H, N>(loc, m[loc].node);
    assert(indeg(m, loc) == 0);
    assert forall|x: Array<N>| #[trigger] ext(m2, x) ==
            if x == loc { 0 } else { ext(m, x) + b2i(child(m[loc].node, x)) } by {
        lemma_indeg_del(m, loc, x);
    }
    assert forall|x: Array<N>| #[trigger] m2.contains_key(x) implies entry_ok::<H, N>(m2, x) by {
        lemma_indeg_del(m, loc, x);
        assert(m.contains_key(x) && x != loc);
        assert(entry_ok::<H, N>(m, x));
        assert(m2[x] == m[x]);
        assert forall|c: Array<N>| #[trigger] child(m2[x].node, c) implies m2.contains_key(c) by {
            assert(child(m[x].node, c));
            if c == loc { lemma_parent_counts(m, x, loc); }
        }
    }
}
