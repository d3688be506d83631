// ---------------------------------------------------------------- what is read is what was written
/// Where the location belongs: its tree, or the leaf whose data it names.
pub open spec fn spot<H: Hasher<N>, const N: usize>(x: Array<N>) -> T<N> {
    if is_tree::<H, N>(x) { tree_of::<H, N>(x) } else { choose|t: T<N>| #[trigger] data_of::<H, N>(t, x) }
}

pub open spec fn data_of<H: Hasher<N>, const N: usize>(t: T<N>, x: Array<N>) -> bool {
    t is Leaf && names_data::<H, N>(t->key, t->value, x)
}

pub proof fn lemma_data_apart<H: Hasher<N>, const N: usize>(key: Array<N>, value: Seq<u8>, x: Array<N>)
    requires names_data::<H, N>(key, value, x),
    ensures
        !is_tree::<H, N>(x),
        forall|k: Array<N>, v: Seq<u8>| #[trigger] names_data::<H, N>(k, v, x) ==> k == key && v == value,
{
    if is_tree::<H, N>(x) { lemma_data_not_tree::<H, N>(key, value, tree_of::<H, N>(x)); }
    assert forall|k: Array<N>, v: Seq<u8>| #[trigger] names_data::<H, N>(k, v, x) implies k == key && v == value by {
        H::collision_free(data_pre(k, v), data_pre(key, value));
        lemma_data_pre_inj(k, v, key, value);
    }
}

pub proof fn lemma_spot_data<H: Hasher<N>, const N: usize>(key: Array<N>, value: Seq<u8>, x: Array<N>)
    requires names_data::<H, N>(key, value, x),
    ensures !is_tree::<H, N>(x), spot::<H, N>(x) == (T::Leaf { key, value }),
{
    lemma_data_apart::<H, N>(key, value, x);
    let t = T::Leaf { key, value };
    assert(data_of::<H, N>(t, x));
    let u = spot::<H, N>(x);
    assert(data_of::<H, N>(u, x));
    assert(names_data::<H, N>(u->key, u->value, x));
}

/// The locations in the list belong elsewhere than `t`.
#[verifier::opaque]
pub open spec fn all_sep<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>, t: T<N>) -> bool {
    forall|i: int| 0 <= i < q.len() ==> sep(spot::<H, N>(#[trigger] q[i]), t)
}

/// The locations in the list belong to different parts.
#[verifier::opaque]
pub open spec fn lined<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() ==> sep(spot::<H, N>(#[trigger] q[i]), spot::<H, N>(#[trigger] q[j]))
}

/// Nothing written to the location is waiting.
pub open spec fn quiet<const N: usize>(m: Store<N>, d: Store<N>, dirty: Set<Array<N>>, x: Array<N>) -> bool {
    clean(m, d, x) && !dirty.contains(x)
}

/// What is waiting belongs elsewhere than all that is in the list.
pub open spec fn away<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, dirty: Set<Array<N>>, q: Seq<Array<N>>) -> bool {
    forall|x: Array<N>| #![trigger clean(m, d, x)] #![trigger spot::<H, N>(x)] quiet(m, d, dirty, x) || all_sep::<H, N>(q, spot::<H, N>(x))
}

pub broadcast proof fn lemma_all_sep_push<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>, x: Array<N>, t: T<N>)
    ensures #[trigger] all_sep::<H, N>(q.push(x), t) == (all_sep::<H, N>(q, t) && sep(spot::<H, N>(x), t)),
{
    reveal(all_sep);
    let r = q.push(x);
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i]);
    assert(r[q.len() as int] == x);
    if all_sep::<H, N>(r, t) {
        assert forall|i: int| 0 <= i < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), t) by { assert(r[i] == q[i]); }
    }
}

pub broadcast proof fn lemma_lined_push<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>, x: Array<N>)
    ensures #[trigger] lined::<H, N>(q.push(x)) == (lined::<H, N>(q) && all_sep::<H, N>(q, spot::<H, N>(x))),
{
    reveal(all_sep);
    reveal(lined);
    let r = q.push(x);
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i]);
    assert(r[q.len() as int] == x);
    if lined::<H, N>(r) {
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), spot::<H, N>(#[trigger] q[j])) by { assert(r[i] == q[i] && r[j] == q[j]); }
        assert forall|i: int| 0 <= i < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), spot::<H, N>(x)) by { assert(r[i] == q[i] && r[q.len() as int] == x); }
    }
}

pub broadcast proof fn lemma_all_sep_front<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>, x: Array<N>, t: T<N>)
    ensures #[trigger] all_sep::<H, N>(seq![x] + q, t) == (all_sep::<H, N>(q, t) && sep(spot::<H, N>(x), t)),
{
    reveal(all_sep);
    let r = seq![x] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == x);
    if all_sep::<H, N>(r, t) {
        assert forall|i: int| 0 <= i < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), t) by { assert(r[i + 1] == q[i]); }
    }
}

pub broadcast proof fn lemma_lined_front<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>, x: Array<N>)
    ensures #[trigger] lined::<H, N>(seq![x] + q) == (lined::<H, N>(q) && all_sep::<H, N>(q, spot::<H, N>(x))),
{
    reveal(all_sep);
    reveal(lined);
    let r = seq![x] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == x);
    if lined::<H, N>(r) {
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), spot::<H, N>(#[trigger] q[j])) by { assert(r[i + 1] == q[i] && r[j + 1] == q[j]); }
        assert forall|i: int| 0 <= i < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), spot::<H, N>(x)) by { assert(r[i + 1] == q[i] && r[0] == x); lemma_sep_sym(spot::<H, N>(q[i]), spot::<H, N>(x)); }
    }
    if lined::<H, N>(q) && all_sep::<H, N>(q, spot::<H, N>(x)) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies sep(spot::<H, N>(#[trigger] r[i]), spot::<H, N>(#[trigger] r[j])) by {
            assert(r[j] == q[j - 1]);
            if i > 0 { assert(r[i] == q[i - 1]); }
            lemma_sep_sym(spot::<H, N>(r[j]), spot::<H, N>(x));
        }
    }
}

pub broadcast group group_lined {
    lemma_all_sep_push, lemma_lined_push, lemma_all_sep_front, lemma_lined_front,
}

pub proof fn lemma_line_start<H: Hasher<N>, const N: usize>(q: Seq<Array<N>>)
    requires q.len() <= 1,
    ensures lined::<H, N>(q),
{
    reveal(lined);
}

/// A part belongs nowhere but where it is.
pub proof fn lemma_sep_self<const N: usize>(t: T<N>)
    ensures !sep(t, t),
{
    assert(agree(tkey(t), tkey(t), level(t)));
}

/// The first of the list, the rest of it, and what is below the first.
pub proof fn lemma_line_next<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, dirty: Set<Array<N>>, nodes: Seq<Array<N>>)
    requires
        nodes.len() > 0,
        lined::<H, N>(nodes),
        away::<H, N>(m, d, dirty, nodes),
    ensures
        ({
            let x = nodes[0];
            let q = nodes.subrange(1, nodes.len() as int);
            &&& quiet(m, d, dirty, x)
            &&& lined::<H, N>(q)
            &&& away::<H, N>(m, d, dirty, q)
            &&& all_sep::<H, N>(q, spot::<H, N>(x))
            &&& wf::<H, N>(m) && m.contains_key(x) ==> match m[x].node {
                ANode::Branch { count, zero, one, split, key } => {
                    &&& all_sep::<H, N>(q, spot::<H, N>(zero)) && all_sep::<H, N>(q, spot::<H, N>(one))
                    &&& sep(spot::<H, N>(zero), spot::<H, N>(one)) && sep(spot::<H, N>(one), spot::<H, N>(zero))
                    &&& forall|y: Array<N>| #![trigger clean(m, d, y)] #![trigger spot::<H, N>(y)] quiet(m, d, dirty, y)
                        || (sep(spot::<H, N>(zero), spot::<H, N>(y)) && sep(spot::<H, N>(one), spot::<H, N>(y)))
                },
                ANode::Leaf { key, data } => {
                    &&& all_sep::<H, N>(q, spot::<H, N>(data))
                    &&& forall|y: Array<N>| #![trigger clean(m, d, y)] #![trigger spot::<H, N>(y)] quiet(m, d, dirty, y) || sep(spot::<H, N>(data), spot::<H, N>(y))
                },
                ANode::Data { value } => true,
            }
        }),
{
    broadcast use group_lined;
    let x = nodes[0];
    let q = nodes.subrange(1, nodes.len() as int);
    let t = spot::<H, N>(x);
    assert(nodes =~= seq![x] + q);
    lemma_sep_self(t);
    assert(clean(m, d, x) || all_sep::<H, N>(seq![x] + q, t));
    if wf::<H, N>(m) && m.contains_key(x) {
        lemma_seen::<H, N>(m, x);
        match m[x].node {
            ANode::Branch { count, zero, one, split, key } => {
                let zt = tree_of::<H, N>(zero);
                let ot = tree_of::<H, N>(one);
                assert(t == tree_of::<H, N>(x));
                lemma_sep_children(t);
                reveal(all_sep);
                assert forall|i: int| 0 <= i < q.len() implies sep(spot::<H, N>(#[trigger] q[i]), zt) && sep(spot::<H, N>(q[i]), ot) by {
                    let o = spot::<H, N>(q[i]);
                    lemma_sep_sym(o, t);
                    lemma_sep_child(zt, t, o);
                    lemma_sep_child(ot, t, o);
                    lemma_sep_sym(zt, o);
                    lemma_sep_sym(ot, o);
                }
                assert forall|y: Array<N>| #![trigger clean(m, d, y)] #![trigger spot::<H, N>(y)] quiet(m, d, dirty, y)
                    || (sep(spot::<H, N>(zero), spot::<H, N>(y)) && sep(spot::<H, N>(one), spot::<H, N>(y))) by {
                    if !quiet(m, d, dirty, y) {
                        let o = spot::<H, N>(y);
                        assert(all_sep::<H, N>(seq![x] + q, o));
                        lemma_sep_child(zt, t, o);
                        lemma_sep_child(ot, t, o);
                    }
                }
            },
            ANode::Leaf { key, data } => {
                assert(t == tree_of::<H, N>(x));
                assert(names_data::<H, N>(t->key, t->value, data));
                lemma_spot_data::<H, N>(t->key, t->value, data);
                assert(spot::<H, N>(data) == t);
            },
            ANode::Data { value } => { },
        }
    }
}

// ---- the leaves of an insertion
/// The location is that of a leaf, or of its data, for one of the first `n` keys.
#[verifier::opaque]
pub open spec fn ours<H: Hasher<N>, const N: usize>(keys: Seq<Array<N>>, n: int, x: Array<N>) -> bool {
    exists|j: int| 0 <= j < n && (tree_of::<H, N>(x) == (T::Leaf { key: #[trigger] keys[j], value: tree_of::<H, N>(x)->value }) && is_tree::<H, N>(x)
        || exists|v: Seq<u8>| #[trigger] names_data::<H, N>(keys[j], v, x))
}

pub proof fn lemma_ours<H: Hasher<N>, const N: usize>(keys: Seq<Array<N>>, n: int, v: Seq<u8>)
    requires 0 <= n < keys.len(),
    ensures
        forall|x: Array<N>| #[trigger] ours::<H, N>(keys, n, x) ==> ours::<H, N>(keys, n + 1, x),
        !ours::<H, N>(keys, 0, keys[n]),
        H::hashed(data_pre(keys[n], v)) ==> ({
            let dl = data_loc::<H, N>(keys[n], v);
            &&& ours::<H, N>(keys, n + 1, dl)
            &&& !keys.subrange(0, n).contains(keys[n]) ==> !ours::<H, N>(keys, n, dl)
            &&& H::hashed(leaf_pre(keys[n], dl)) ==> {
                let ll = H::digest(leaf_pre(keys[n], dl));
                &&& ours::<H, N>(keys, n + 1, ll)
                &&& !keys.subrange(0, n).contains(keys[n]) ==> !ours::<H, N>(keys, n, ll)
            }
        }),
{
    reveal(ours);
    let k = keys[n];
    let dl = data_loc::<H, N>(k, v);
    let s = keys.subrange(0, n);
    assert(forall|j: int| 0 <= j < n ==> #[trigger] keys[j] == s[j]);
    if H::hashed(data_pre(k, v)) {
        assert(names_data::<H, N>(keys[n], v, dl));
        lemma_data_apart::<H, N>(k, v, dl);
        if ours::<H, N>(keys, n, dl) {
            let j = choose|j: int| 0 <= j < n && (tree_of::<H, N>(dl) == (T::Leaf { key: #[trigger] keys[j], value: tree_of::<H, N>(dl)->value }) && is_tree::<H, N>(dl)
                || exists|v: Seq<u8>| #[trigger] names_data::<H, N>(keys[j], v, dl));
            assert(s[j] == k);
        }
        if H::hashed(leaf_pre(k, dl)) {
            let ll = H::digest(leaf_pre(k, dl));
            lemma_leaf_tree::<H, N>(k, v);
            assert(tree_of::<H, N>(ll) == (T::Leaf { key: keys[n], value: tree_of::<H, N>(ll)->value }));
            if ours::<H, N>(keys, n, ll) {
                let j = choose|j: int| 0 <= j < n && (tree_of::<H, N>(ll) == (T::Leaf { key: #[trigger] keys[j], value: tree_of::<H, N>(ll)->value }) && is_tree::<H, N>(ll)
                    || exists|v: Seq<u8>| #[trigger] names_data::<H, N>(keys[j], v, ll));
                if tree_of::<H, N>(ll)->key != keys[j] {
                    let v2 = choose|v: Seq<u8>| #[trigger] names_data::<H, N>(keys[j], v, ll);
                    lemma_data_apart::<H, N>(keys[j], v2, ll);
                }
                assert(s[j] == k);
            }
        }
    }
    assert forall|x: Array<N>| #[trigger] ours::<H, N>(keys, n, x) implies ours::<H, N>(keys, n + 1, x) by {}
}

// ---- the parts of the old tree
/// A leaf for one of the keys.
pub open spec fn own_leaf<H: Hasher<N>, const N: usize>(all: Seq<Array<N>>, x: Array<N>) -> bool {
    tree_of::<H, N>(x) is Leaf && all.contains(tkey(tree_of::<H, N>(x)))
}

/// Only leaves for the keys and the parts kept so far are not read as they were written.
pub open spec fn loose<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, all: Seq<Array<N>>, l: Seq<Array<N>>) -> bool {
    forall|x: Array<N>| #[trigger] clean(m, d, x) || !is_tree::<H, N>(x) || own_leaf::<H, N>(all, x) || cnt(l, x) >= 1
}

pub proof fn lemma_ours_loose<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, all: Seq<Array<N>>)
    requires forall|x: Array<N>| #[trigger] clean(m, d, x) || ours::<H, N>(all, all.len() as int, x),
    ensures loose::<H, N>(m, d, all, Seq::empty()),
{
    reveal(ours);
    assert forall|x: Array<N>| #[trigger] clean(m, d, x) || !is_tree::<H, N>(x) || own_leaf::<H, N>(all, x) by {
        if !clean(m, d, x) && is_tree::<H, N>(x) {
            assert(ours::<H, N>(all, all.len() as int, x));
            let j = choose|j: int| 0 <= j < all.len() && (tree_of::<H, N>(x) == (T::Leaf { key: #[trigger] all[j], value: tree_of::<H, N>(x)->value }) && is_tree::<H, N>(x)
                || exists|v: Seq<u8>| #[trigger] names_data::<H, N>(all[j], v, x));
            if !own_leaf::<H, N>(all, x) {
                let v2 = choose|v: Seq<u8>| #[trigger] names_data::<H, N>(all[j], v, x);
                lemma_data_apart::<H, N>(all[j], v2, x);
            }
        }
    }
}

/// A part apart from those kept so far.
pub proof fn lemma_free<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, all: Seq<Array<N>>, p: Seq<TreeRef<N>>, x: Array<N>)
    requires
        loose::<H, N>(m, d, all, locs(p)),
        is_tree::<H, N>(x),
        rsep::<H, N>(p, tree_of::<H, N>(x)),
        !own_leaf::<H, N>(all, x),
    ensures clean(m, d, x),
{
    lemma_not_among::<H, N>(p, x);
}

pub proof fn lemma_not_among<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, x: Array<N>)
    requires rsep::<H, N>(p, tree_of::<H, N>(x)),
    ensures cnt(locs(p), x) == 0,
    decreases p.len(),
{
    reveal(cnt);
    reveal(locs);
    if p.len() > 0 {
        assert(rsep::<H, N>(p.drop_last(), tree_of::<H, N>(x)) && p.last().location != x) by {
            reveal(rsep);
            assert forall|i: int| 0 <= i < p.drop_last().len() implies sep(tree_of::<H, N>((#[trigger] p.drop_last()[i]).location), tree_of::<H, N>(x)) by {
                assert(p.drop_last()[i] == p[i]);
            }
            lemma_sep_self(tree_of::<H, N>(x));
            assert(sep(tree_of::<H, N>(p[p.len() - 1].location), tree_of::<H, N>(x)));
        }
        lemma_not_among::<H, N>(p.drop_last(), x);
        assert(locs(p).drop_last() =~= locs(p.drop_last()));
    }
}

/// A part with none of the keys.
pub proof fn lemma_not_own<H: Hasher<N>, const N: usize>(all: Seq<Array<N>>, x: Array<N>)
    requires forall|k: Array<N>| #[trigger] all.contains(k) ==> sep_key(k, tree_of::<H, N>(x)),
    ensures !own_leaf::<H, N>(all, x),
{
    let t = tree_of::<H, N>(x);
    if own_leaf::<H, N>(all, x) {
        assert(agree(tkey(t), tkey(t), level(t)));
    }
}

/// What is not read as it was written is not touched by the visit of a cell.
pub open spec fn calm_visit<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, all: Seq<Array<N>>, c: ACell<N>) -> bool {
    match d[c.loc].node {
        ANode::Branch { count, zero, one, split, key } => {
            &&& clean(m, d, c.loc)
            &&& forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, split as int) && #[trigger] parted(ds, z, o, split as int) ==> {
                &&& z.len() == 0 ==> clean(m, d, zero)
                &&& o.len() == 0 ==> clean(m, d, one)
            }
        },
        ANode::Leaf { key, data } => !all.contains(key) ==> clean(m, d, c.loc),
        ANode::Data { value } => true,
    }
}

pub proof fn lemma_calm_visit<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>, p: Seq<TreeRef<N>>)
    requires
        wf::<H, N>(d),
        d.contains_key(c.loc),
        wcell_ok::<H, N>(t0, all, c),
        rsep::<H, N>(p, tree_of::<H, N>(c.loc)),
        loose::<H, N>(m, d, all, locs(p)),
    ensures calm_visit::<H, N>(m, d, all, c),
{
    let t = tree_of::<H, N>(c.loc);
    lemma_seen::<H, N>(d, c.loc);
    assert(is_tree::<H, N>(c.loc)) by { reveal(wcell_ok); }
    match d[c.loc].node {
        ANode::Branch { count, zero, one, split, key } => {
            let s = split as int;
            lemma_free::<H, N>(m, d, all, p, c.loc);
            lemma_sep_down::<H, N>(Seq::empty(), p, t, tree_of::<H, N>(zero));
            lemma_sep_down::<H, N>(Seq::empty(), p, t, tree_of::<H, N>(one));
            assert forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] parted(ds, z, o, s) implies {
                &&& z.len() == 0 ==> clean(m, d, zero)
                &&& o.len() == 0 ==> clean(m, d, one)
            } by {
                lemma_visit_part::<H, N>(d, t0, all, c, ds, z, o);
                if z.len() == 0 {
                    lemma_not_own::<H, N>(all, zero);
                    lemma_free::<H, N>(m, d, all, p, zero);
                }
                if o.len() == 0 {
                    lemma_not_own::<H, N>(all, one);
                    lemma_free::<H, N>(m, d, all, p, one);
                }
            }
        },
        ANode::Leaf { key, data } => {
            if !all.contains(key) { lemma_free::<H, N>(m, d, all, p, c.loc); }
        },
        ANode::Data { value } => { },
    }
}

/// The leaf and its data as they are written when the durable content is `d`.
pub open spec fn stood<H: Hasher<N>, const N: usize>(m: Store<N>, d: Store<N>, key: Array<N>, v: Seq<u8>) -> bool {
    let dl = data_loc::<H, N>(key, v);
    let ll = H::digest(leaf_pre(key, dl));
    &&& H::hashed(data_pre(key, v))
    &&& H::hashed(leaf_pre(key, dl))
    &&& m.contains_key(ll)
    &&& m[ll].node == (ANode::Leaf { key, data: dl })
    &&& m[ll].refs == if d.contains_key(ll) { d[ll].refs + 1 } else { 1 }
    &&& !d.contains_key(ll) ==> m.contains_key(dl) && m[dl].node == (ANode::<N>::Data { value: v })
        && m[dl].refs == if d.contains_key(dl) { d[dl].refs + 1 } else { 1 }
}

#[verifier::opaque]
pub open spec fn all_stood<H: Hasher<N>, V: Encode, const N: usize>(m: Store<N>, d: Store<N>, keys: Seq<Array<N>>, values: Map<Array<N>, &V>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] stood::<H, N>(m, d, keys[j], values[keys[j]].enc())
}

pub proof fn lemma_stood_none<H: Hasher<N>, V: Encode, const N: usize>(m: Store<N>, d: Store<N>, keys: Seq<Array<N>>, values: Map<Array<N>, &V>)
    ensures all_stood::<H, V, N>(m, d, keys, values, 0),
{
    reveal(all_stood);
}

/// What is written a second time is what was written before.
pub proof fn lemma_stood_at<H: Hasher<N>, V: Encode, const N: usize>(m: Store<N>, d: Store<N>, keys: Seq<Array<N>>, values: Map<Array<N>, &V>, n: int)
    requires 0 <= n < keys.len(), all_stood::<H, V, N>(m, d, keys, values, n), keys.subrange(0, n).contains(keys[n]),
    ensures
        stood::<H, N>(m, d, keys[n], values[keys[n]].enc()),
        forall|x: Array<N>| #[trigger] m.contains_key(x) ==> m.insert(x, m[x]) == m,
        all_stood::<H, V, N>(m, d, keys, values, n + 1),
{
    reveal(all_stood);
    let s = keys.subrange(0, n);
    let j = choose|j: int| 0 <= j < s.len() && s[j] == keys[n];
    assert(keys[j] == keys[n]);
    assert(stood::<H, N>(m, d, keys[j], values[keys[j]].enc()));
    assert forall|x: Array<N>| #[trigger] m.contains_key(x) implies m.insert(x, m[x]) == m by { assert(m.insert(x, m[x]) =~= m); }
}

pub proof fn lemma_stood_more<H: Hasher<N>, V: Encode, const N: usize>(m: Store<N>, m2: Store<N>, d: Store<N>, keys: Seq<Array<N>>, values: Map<Array<N>, &V>, n: int)
    requires
        0 <= n < keys.len(),
        all_stood::<H, V, N>(m, d, keys, values, n),
        stood::<H, N>(m2, d, keys[n], values[keys[n]].enc()),
        forall|x: Array<N>| #[trigger] ours::<H, N>(keys, n, x) && m.contains_key(x) ==> m2.contains_key(x) && m2[x] == m[x],
    ensures all_stood::<H, V, N>(m2, d, keys, values, n + 1),
{
    reveal(all_stood);
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] stood::<H, N>(m2, d, keys[j], values[keys[j]].enc()) by {
        if j < n {
            let v = values[keys[j]].enc();
            let dl = data_loc::<H, N>(keys[j], v);
            let ll = H::digest(leaf_pre(keys[j], dl));
            assert(stood::<H, N>(m, d, keys[j], v));
            lemma_ours::<H, N>(keys, j, v);
            lemma_ours_more::<H, N>(keys, j + 1, n, dl);
            lemma_ours_more::<H, N>(keys, j + 1, n, ll);
        }
    }
}

pub proof fn lemma_ours_more<H: Hasher<N>, const N: usize>(keys: Seq<Array<N>>, a: int, b: int, x: Array<N>)
    requires a <= b, ours::<H, N>(keys, a, x),
    ensures ours::<H, N>(keys, b, x),
{
    reveal(ours);
}

pub proof fn lemma_no_duplicates_next<A>(s: Seq<A>, n: int)
    requires 0 <= n < s.len(),
    ensures s.subrange(0, n + 1).no_duplicates() ==> s.subrange(0, n).no_duplicates() && !s.subrange(0, n).contains(s[n]),
{
    let a = s.subrange(0, n);
    let b = s.subrange(0, n + 1);
    assert(forall|i: int| 0 <= i < n ==> a[i] == #[trigger] b[i]);
    assert(b[n] == s[n]);
    if b.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies a[i] != a[j] by { assert(a[i] == b[i] && a[j] == b[j]); }
        if a.contains(s[n]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == s[n]; assert(b[j] == b[n]); }
    }
}
