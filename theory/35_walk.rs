// ---------------------------------------------------------------- walking down
/// One step down.
pub proof fn lemma_step<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>, k: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc),
    ensures
        m[loc].node matches ANode::Branch { count, zero, one, split, key } ==> {
            let t = tree_of::<H, N>(loc);
            let l = tree_of::<H, N>(zero);
            let r = tree_of::<H, N>(one);
            let s = split as int;
            &&& !agree(k, key, s) ==> lookup(t, k) is None
            &&& lookup(t, k) == if bit(k, s) { lookup(r, k) } else { lookup(l, k) }
            &&& kdepth(t, k) == 1 + if bit(k, s) { kdepth(r, k) } else { kdepth(l, k) }
            &&& height(l) < height(t) && height(r) < height(t)
            &&& weight(l) + weight(r) < weight(t)
            &&& weight(l) >= 1 && weight(r) >= 1
            &&& height(t) <= 8 * N
            &&& is_child(l, t) && is_child(r, t)
            &&& wg(l) && wg(r) && wg(t)
        },
        m[loc].node is Leaf ==> {
            let t = tree_of::<H, N>(loc);
            &&& lookup(t, k) == if k == t->key { Some(t->value) } else { None::<Seq<u8>> }
            &&& kdepth(t, k) == 0
            &&& height(t) == 0
            &&& weight(t) == 1
        },
        !(m[loc].node is Data) ==> wg(tree_of::<H, N>(loc)) && height(tree_of::<H, N>(loc)) <= 8 * N
            && valid::<H, N>(tree_of::<H, N>(loc)) && hash::<H, N>(tree_of::<H, N>(loc)) == loc,
{
    lemma_seen::<H, N>(m, loc);
    let t = tree_of::<H, N>(loc);
    if m[loc].node is Branch {
        lemma_height(t, k);
        lemma_size(*t->l);
        lemma_size(*t->r);
        if !agree(k, tkey(t), level(t)) { lemma_sep_key_lookup(k, t); }
    }
}

/// A list of one key.
pub proof fn lemma_one<const N: usize>(k: Array<N>, bk: Array<N>)
    ensures
        forall|s: Seq<Array<N>>| s.len() == 1 ==> #[trigger] ksorted(s),
        forall|s: Seq<Array<N>>, d: int| s.len() == 1 && s[0] == k && #[trigger] min_split(s, bk, d) ==> agree(k, bk, d),
        forall|s: Seq<Array<N>>, r: Seq<Array<N>>, n: int| s.len() == 1 && s[0] == k && #[trigger] desc(s, r, bk, n)
            ==> (r.len() == 0) == !agree(k, bk, n),
{
    assert forall|s: Seq<Array<N>>, d: int| s.len() == 1 && s[0] == k && #[trigger] min_split(s, bk, d) implies agree(k, bk, d) by {
        assert(agree(s[0], bk, d));
    }
    assert forall|s: Seq<Array<N>>, r: Seq<Array<N>>, n: int| s.len() == 1 && s[0] == k && #[trigger] desc(s, r, bk, n)
            implies (r.len() == 0) == !agree(k, bk, n) by {
        let (a, e) = choose|a: int, e: int| #[trigger] desc_at(s, r, bk, n, a, e);
        assert((a <= 0 < e) == agree(s[0], bk, n));
    }
}

// ---------------------------------------------------------------- cells
pub struct ACell<const N: usize> { pub loc: Array<N>, pub keys: Seq<Array<N>>, pub depth: int }

pub open spec fn acell<X, const N: usize>(c: TreeCell<'_, X, N>) -> ACell<N> {
    ACell { loc: c.location, keys: c.keys@, depth: c.depth as int }
}

pub open spec fn acells<X, const N: usize>(q: Seq<TreeCell<'_, X, N>>) -> Seq<ACell<N>> {
    Seq::new(q.len(), |i: int| acell(q[i]))
}

/// The nodes kept in the cells are the stored ones.
#[verifier::opaque]
pub open spec fn cells_nodes<X: Node<N>, const N: usize>(m: Store<N>, q: Seq<TreeCell<'_, X, N>>) -> bool {
    forall|i: int| 0 <= i < q.len() ==> #[trigger] cell_node(m, q[i])
}

pub open spec fn cell_node<X: Node<N>, const N: usize>(m: Store<N>, c: TreeCell<'_, X, N>) -> bool {
    m.contains_key(c.location) && m[c.location] == rnode::<X, N>(c.node) && c.node.v_refs() < u64::MAX
}

/// The cell leads to the part of `t0` its keys belong to.
#[verifier::opaque]
pub open spec fn acell_ok<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>) -> bool {
    let t = tree_of::<H, N>(c.loc);
    &&& is_root::<H, N>(m, c.loc)
    &&& wg(t)
    &&& ksorted(c.keys)
    &&& c.keys.len() > 0
    &&& 0 <= c.depth
    &&& c.depth + height(t) <= height(t0)
    &&& forall|k: Array<N>| #[trigger] c.keys.contains(k) ==> all.contains(k) && lookup(t0, k) == lookup(t, k)
        && kdepth(t0, k) == c.depth + kdepth(t, k)
    &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> lookup(t0, k) == lookup(t, k)
        && kdepth(t0, k) == c.depth + kdepth(t, k)
}

#[verifier::opaque]
pub open spec fn acells_ok<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, q: Seq<ACell<N>>) -> bool {
    forall|i: int| 0 <= i < q.len() ==> acell_ok::<H, N>(m, t0, all, #[trigger] q[i])
}

#[verifier::opaque]
pub open spec fn covers<const N: usize>(q: Seq<ACell<N>>, k: Array<N>) -> bool {
    exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).keys.contains(k)
}

#[verifier::opaque]
pub open spec fn qweight<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>) -> nat
    decreases q.len()
{
    if q.len() == 0 { 0 } else { weight(tree_of::<H, N>(q[0].loc)) + qweight::<H, N>(q.subrange(1, q.len() as int)) }
}

pub broadcast proof fn lemma_acells_front<X, const N: usize>(q: Seq<TreeCell<'_, X, N>>, c: TreeCell<'_, X, N>)
    ensures #[trigger] acells(seq![c] + q) == seq![acell(c)] + acells(q),
{
    assert(acells(seq![c] + q) =~= seq![acell(c)] + acells(q));
}

pub broadcast proof fn lemma_cells_nodes_front<X: Node<N>, const N: usize>(m: Store<N>, q: Seq<TreeCell<'_, X, N>>, c: TreeCell<'_, X, N>)
    ensures #[trigger] cells_nodes(m, seq![c] + q) == (cells_nodes(m, q) && cell_node(m, c)),
{
    reveal(cells_nodes);
    let r = seq![c] + q;
    if cells_nodes(m, r) {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] cell_node(m, q[i]) by { assert(cell_node(m, r[i + 1])); }
        assert(cell_node(m, r[0]));
    }
    if cells_nodes(m, q) && cell_node(m, c) {
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] cell_node(m, r[i]) by { if i > 0 { assert(cell_node(m, q[i - 1])); } }
    }
}

pub broadcast proof fn lemma_acells_ok_front<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] acells_ok::<H, N>(m, t0, all, seq![c] + q) == (acells_ok::<H, N>(m, t0, all, q) && acell_ok::<H, N>(m, t0, all, c)),
{
    reveal(acells_ok);
    let r = seq![c] + q;
    if acells_ok::<H, N>(m, t0, all, r) {
        assert forall|i: int| 0 <= i < q.len() implies acell_ok::<H, N>(m, t0, all, #[trigger] q[i]) by { assert(acell_ok::<H, N>(m, t0, all, r[i + 1])); }
        assert(acell_ok::<H, N>(m, t0, all, r[0]));
    }
}

pub broadcast proof fn lemma_qweight_front<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] qweight::<H, N>(seq![c] + q) == weight(tree_of::<H, N>(c.loc)) + qweight::<H, N>(q),
{
    reveal(qweight);
    let r = seq![c] + q;
    assert(r.subrange(1, r.len() as int) =~= q);
}

pub broadcast proof fn lemma_covers_front<const N: usize>(q: Seq<ACell<N>>, c: ACell<N>, k: Array<N>)
    ensures #[trigger] covers(seq![c] + q, k) == (c.keys.contains(k) || covers(q, k)),
{
    reveal(covers);
    let r = seq![c] + q;
    if c.keys.contains(k) { assert(r[0].keys.contains(k)); }
    if covers(q, k) {
        let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).keys.contains(k);
        assert(r[i + 1] == q[i]);
    }
    if covers(r, k) {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).keys.contains(k);
        if i > 0 { assert(q[i - 1] == r[i]); }
    }
}

/// The queue before its front was taken.
pub broadcast proof fn lemma_popped<A>(q: Seq<A>)
    requires q.len() > 0,
    ensures q == seq![q[0]] + #[trigger] q.subrange(1, q.len() as int),
{
    assert(q =~= seq![q[0]] + q.subrange(1, q.len() as int));
}

pub broadcast proof fn lemma_acells_empty<X, const N: usize>(q: Seq<TreeCell<'_, X, N>>)
    requires q.len() == 0,
    ensures #[trigger] acells(q) == Seq::<ACell<N>>::empty(),
{
    assert(acells(q) =~= Seq::<ACell<N>>::empty());
}

pub broadcast proof fn lemma_cells_nodes_empty<X: Node<N>, const N: usize>(m: Store<N>, q: Seq<TreeCell<'_, X, N>>)
    requires q.len() == 0,
    ensures #[trigger] cells_nodes(m, q),
{
    reveal(cells_nodes);
}

pub broadcast proof fn lemma_acells_ok_empty<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>)
    ensures #[trigger] acells_ok::<H, N>(m, t0, all, Seq::<ACell<N>>::empty()),
{
    reveal(acells_ok);
}

pub broadcast proof fn lemma_covers_empty<const N: usize>(k: Array<N>)
    ensures !#[trigger] covers(Seq::<ACell<N>>::empty(), k),
{
    reveal(covers);
}

/// The cell for the root.
pub proof fn lemma_root_cell<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>)
    requires is_root::<H, N>(m, c.loc), wf::<H, N>(m), t0 == tree_of::<H, N>(c.loc), c.keys == all, ksorted(all), all.len() > 0, c.depth == 0,
    ensures acell_ok::<H, N>(m, t0, all, c),
{
    reveal(acell_ok);
    lemma_seen::<H, N>(m, c.loc);
}

pub broadcast group group_cells {
    lemma_acells_empty, lemma_cells_nodes_empty, lemma_acells_ok_empty, lemma_covers_empty,
    lemma_popped, lemma_acells_front, lemma_cells_nodes_front, lemma_acells_ok_front, lemma_qweight_front, lemma_covers_front,
}

/// What happens to a cell at a branch.
pub proof fn lemma_cell_branch<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>, ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>)
    requires
        wf::<H, N>(m),
        acell_ok::<H, N>(m, t0, all, c),
        m[c.loc].node is Branch,
        desc(c.keys, ds, m[c.loc].node->Branch_key, m[c.loc].node->split as int),
        parted(ds, z, o, m[c.loc].node->split as int),
    ensures
        z.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: m[c.loc].node->zero, keys: z, depth: c.depth + 1 }),
        o.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: m[c.loc].node->one, keys: o, depth: c.depth + 1 }),
        forall|k: Array<N>| #[trigger] c.keys.contains(k) && lookup(t0, k) is Some ==> z.contains(k) || o.contains(k),
        weight(tree_of::<H, N>(m[c.loc].node->zero)) + weight(tree_of::<H, N>(m[c.loc].node->one)) < weight(tree_of::<H, N>(c.loc)),
{
    reveal(acell_ok);
    let b = m[c.loc].node;
    let s = b->split as int;
    let t = tree_of::<H, N>(c.loc);
    lemma_desc(c.keys, ds, b->Branch_key, s);
    lemma_seen::<H, N>(m, c.loc);
    lemma_step::<H, N>(m, c.loc, c.loc);
    assert forall|k: Array<N>| #[trigger] c.keys.contains(k) && lookup(t0, k) is Some implies z.contains(k) || o.contains(k) by {
        lemma_step::<H, N>(m, c.loc, k);
        assert(ds.contains(k));
        lemma_concat_contains(z, o, k);
    }
    assert(ksorted(z)) by {
        assert forall|i: int, j: int| 0 <= i <= j < z.len() implies kle(#[trigger] z[i], #[trigger] z[j]) by {
            assert(ds[i] == z[i] && ds[j] == z[j]);
        }
    }
    assert(ksorted(o)) by {
        assert forall|i: int, j: int| 0 <= i <= j < o.len() implies kle(#[trigger] o[i], #[trigger] o[j]) by {
            assert(ds[z.len() + i] == o[i] && ds[z.len() + j] == o[j]);
        }
    }
    let zt = tree_of::<H, N>(b->zero);
    assert forall|k: Array<N>| #[trigger] lookup(zt, k) is Some implies lookup(t0, k) == lookup(zt, k)
        && kdepth(t0, k) == c.depth + 1 + kdepth(zt, k) by {
        lemma_side(t, k);
        assert(lookup(t, k) is Some);
    }
    let ot = tree_of::<H, N>(b->one);
    assert forall|k: Array<N>| #[trigger] lookup(ot, k) is Some implies lookup(t0, k) == lookup(ot, k)
        && kdepth(t0, k) == c.depth + 1 + kdepth(ot, k) by {
        lemma_side(t, k);
        assert(lookup(t, k) is Some);
    }
    assert forall|k: Array<N>| #[trigger] z.contains(k) implies all.contains(k) && lookup(t0, k) == lookup(tree_of::<H, N>(b->zero), k)
        && kdepth(t0, k) == c.depth + 1 + kdepth(tree_of::<H, N>(b->zero), k) by {
        lemma_concat_contains(z, o, k);
        let i = choose|i: int| 0 <= i < z.len() && z[i] == k;
        assert(!bit(z[i], s));
        lemma_step::<H, N>(m, c.loc, k);
        assert(c.keys.contains(k));
    }
    assert forall|k: Array<N>| #[trigger] o.contains(k) implies all.contains(k) && lookup(t0, k) == lookup(tree_of::<H, N>(b->one), k)
        && kdepth(t0, k) == c.depth + 1 + kdepth(tree_of::<H, N>(b->one), k) by {
        lemma_concat_contains(z, o, k);
        let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
        assert(bit(o[i], s));
        lemma_step::<H, N>(m, c.loc, k);
        assert(c.keys.contains(k));
    }
}

/// The same for all ways to divide the keys.
pub proof fn lemma_cell<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>)
    requires
        wf::<H, N>(m),
        acell_ok::<H, N>(m, t0, all, c),
    ensures
        is_root::<H, N>(m, c.loc),
        ksorted(c.keys),
        c.keys.len() > 0,
        c.depth + height(tree_of::<H, N>(c.loc)) <= height(t0),
        forall|k: Array<N>| #[trigger] c.keys.contains(k) ==> all.contains(k),
        m[c.loc].node matches ANode::Branch { count, zero, one, split, key } ==> {
            let s = split as int;
            &&& is_root::<H, N>(m, zero)
            &&& is_root::<H, N>(m, one)
            &&& forall|ds: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) ==> bits_mono(ds, s) && ksorted(ds)
            &&& forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] parted(ds, z, o, s) ==> {
                &&& z.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: zero, keys: z, depth: c.depth + 1 })
                &&& o.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: one, keys: o, depth: c.depth + 1 })
            }
            &&& forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>, k: Array<N>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] parted(ds, z, o, s)
                && #[trigger] c.keys.contains(k) && lookup(t0, k) is Some ==> z.contains(k) || o.contains(k)
            &&& forall|ds: Seq<Array<N>>, k: Array<N>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] c.keys.contains(k) && lookup(t0, k) is Some ==> ds.contains(k)
        },
        m[c.loc].node matches ANode::Leaf { key, data } ==> {
            let v = tree_of::<H, N>(c.loc)->value;
            &&& m.contains_key(data)
            &&& m[data].node == (ANode::<N>::Data { value: v })
            &&& lookup(t0, key) == Some(v)
            &&& kdepth(t0, key) == c.depth
            &&& forall|k: Array<N>| #[trigger] c.keys.contains(k) && k != key ==> lookup(t0, k) is None
        },
{
    reveal(acell_ok);
    if m[c.loc].node is Leaf {
        lemma_seen::<H, N>(m, c.loc);
        assert(lookup(tree_of::<H, N>(c.loc), m[c.loc].node->Leaf_key) is Some);
    }
    if m[c.loc].node is Branch {
        let b = m[c.loc].node;
        let s = b->split as int;
        lemma_seen::<H, N>(m, c.loc);
        assert forall|ds: Seq<Array<N>>| #[trigger] desc(c.keys, ds, b->Branch_key, s) implies bits_mono(ds, s) && ksorted(ds) by {
            lemma_desc(c.keys, ds, b->Branch_key, s);
            lemma_bits_mono(ds, b->Branch_key, s);
        }
        assert forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, b->Branch_key, s) && #[trigger] parted(ds, z, o, s) implies {
                &&& z.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: b->zero, keys: z, depth: c.depth + 1 })
                &&& o.len() > 0 ==> acell_ok::<H, N>(m, t0, all, ACell { loc: b->one, keys: o, depth: c.depth + 1 })
            } by {
            lemma_cell_branch::<H, N>(m, t0, all, c, ds, z, o);
        }
        assert forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>, k: Array<N>| #[trigger] desc(c.keys, ds, b->Branch_key, s) && #[trigger] parted(ds, z, o, s)
                && #[trigger] c.keys.contains(k) && lookup(t0, k) is Some implies z.contains(k) || o.contains(k) by {
            lemma_cell_branch::<H, N>(m, t0, all, c, ds, z, o);
        }
        assert forall|ds: Seq<Array<N>>, k: Array<N>| #[trigger] desc(c.keys, ds, b->Branch_key, s) && #[trigger] c.keys.contains(k) && lookup(t0, k) is Some implies ds.contains(k) by {
            lemma_desc(c.keys, ds, b->Branch_key, s);
            lemma_step::<H, N>(m, c.loc, k);
        }
    }
}

pub proof fn lemma_concat_contains<A>(a: Seq<A>, b: Seq<A>, x: A)
    ensures (a + b).contains(x) == (a.contains(x) || b.contains(x)),
{
    let c = a + b;
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
    if c.contains(x) {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); }
    }
}

/// Sorting keeps the members.
pub proof fn lemma_same_members<A>(a: Seq<A>, b: Seq<A>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|x: A| a.contains(x) == #[trigger] b.contains(x), a.len() == b.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: A| a.contains(x) == #[trigger] b.contains(x) by {
        assert(a.contains(x) == (a.to_multiset().count(x) > 0));
        assert(b.contains(x) == (b.to_multiset().count(x) > 0));
    }
    assert(a.len() == a.to_multiset().len());
    assert(b.len() == b.to_multiset().len());
}

pub proof fn lemma_sorted_same<const N: usize>(a: Seq<Array<N>>, b: Seq<Array<N>>)
    requires
        a.to_multiset() == b.to_multiset(),
        forall|i: int, j: int| 0 <= i <= j < b.len() ==> !arr_lt(#[trigger] b[j], #[trigger] b[i]),
    ensures
        forall|x: Array<N>| a.contains(x) == #[trigger] b.contains(x),
        a.len() == b.len(),
        ksorted(b),
{
    broadcast use group_arrays;
    lemma_same_members(a, b);
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies kle(#[trigger] b[i], #[trigger] b[j]) by {
        assert(!arr_lt(b[j], b[i]));
        lemma_klt_total(b[i], b[j]);
    }
}
