// ---------------------------------------------------------------- a tree with more entries
/// The references to the new leaves.
pub open spec fn leaf_refs<const N: usize>(keys: Seq<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>) -> bool {
    &&& rs.len() == keys.len() == nodes.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> {
        &&& (#[trigger] rs[i]).key == keys[i]
        &&& rs[i].location == nodes[i]
        &&& rs[i].node_count == 1
        &&& rs[i].count == 1
    }
}

/// Each node is the leaf for its key.
pub open spec fn leaf_nodes<H: Hasher<N>, const N: usize>(nodes: Seq<Array<N>>, keys: Seq<Array<N>>) -> bool {
    &&& nodes.len() == keys.len()
    &&& forall|i: int| 0 <= i < nodes.len() ==> {
        let t = tree_of::<H, N>(#[trigger] nodes[i]);
        &&& valid::<H, N>(t)
        &&& hash::<H, N>(t) == nodes[i]
        &&& t is Leaf
        &&& t->key == keys[i]
    }
}

/// What was in the tree, and the new entries.
pub open spec fn lookup_in<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>, k: Array<N>) -> Option<Seq<u8>> {
    match prev { Some(p) => lookup(tree_of::<H, N>(p), k), None => None }
}

pub open spec fn prev_size<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>) -> nat {
    match prev { Some(p) => size(tree_of::<H, N>(p)), None => 0 }
}

/// What remains of the previous tree.
pub open spec fn rest<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>, keys: Seq<Array<N>>, p: Seq<TreeRef<N>>) -> bool {
    match prev {
        Some(r) => divided::<H, N>(tree_of::<H, N>(r), keys, p),
        None => p.len() == 0,
    }
}

pub proof fn lemma_leaf_ref<H: Hasher<N>, const N: usize>(r: TreeRef<N>, key: Array<N>, loc: Array<N>)
    requires
        r.key == key, r.location == loc, r.node_count == 1, r.count == 1,
        valid::<H, N>(tree_of::<H, N>(loc)), hash::<H, N>(tree_of::<H, N>(loc)) == loc,
        tree_of::<H, N>(loc) is Leaf, tree_of::<H, N>(loc)->key == key,
    ensures tref_shape::<H, N>(r), level(rtree::<H, N>(r)) == 8 * N,
{
    lemma_tree_of::<H, N>(tree_of::<H, N>(loc));
}

pub proof fn lemma_leaf_parts<H: Hasher<N>, const N: usize>(keys: Seq<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>, n: int)
    requires leaf_refs(keys, nodes, rs), leaf_nodes::<H, N>(nodes, keys), 0 <= n <= rs.len(),
    ensures
        forall|i: int| 0 <= i < rs.len() ==> tref_shape::<H, N>(#[trigger] rs[i]) && rtree::<H, N>(rs[i]) is Leaf,
        psize::<H, N>(rs.subrange(0, n)) == n,
    decreases n,
{
    assert forall|i: int| 0 <= i < rs.len() implies tref_shape::<H, N>(#[trigger] rs[i]) && rtree::<H, N>(rs[i]) is Leaf by {
        assert(tree_of::<H, N>(nodes[i]) is Leaf);
        lemma_leaf_ref::<H, N>(rs[i], keys[i], nodes[i]);
    }
    reveal(psize);
    if n > 0 {
        lemma_leaf_parts::<H, N>(keys, nodes, rs, n - 1);
        assert(rs.subrange(0, n).drop_last() =~= rs.subrange(0, n - 1));
        assert(tref_shape::<H, N>(rs[n - 1]));
    }
}

pub proof fn lemma_psize_add<H: Hasher<N>, const N: usize>(a: Seq<TreeRef<N>>, b: Seq<TreeRef<N>>)
    ensures psize::<H, N>(a + b) == psize::<H, N>(a) + psize::<H, N>(b),
    decreases b.len(),
{
    reveal(psize);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_psize_add::<H, N>(a, b.drop_last());
    }
}

pub proof fn lemma_psize_len<H: Hasher<N>, const N: usize>(a: Seq<TreeRef<N>>)
    ensures a.len() <= psize::<H, N>(a),
    decreases a.len(),
{
    reveal(psize);
    if a.len() > 0 {
        lemma_psize_len::<H, N>(a.drop_last());
        lemma_size(tree_of::<H, N>(a.last().location));
    }
}

/// All the parts of the new tree.
pub proof fn lemma_parts<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>, keys: Seq<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>, p: Seq<TreeRef<N>>)
    requires
        leaf_refs(keys, nodes, rs),
        leaf_nodes::<H, N>(nodes, keys),
        rest::<H, N>(prev, keys, p),
    ensures
        parts_ok::<H, N>(rs + p),
        psize::<H, N>(rs + p) <= keys.len() + prev_size::<H, N>(prev),
        (rs + p).len() <= keys.len() + prev_size::<H, N>(prev),
        locs(rs) == nodes,
        locs(rs + p) == locs(rs) + locs(p),
        keys_distinct(rs + p) == keys.no_duplicates(),
{
    let all = rs + p;
    assert(locs(rs) =~= nodes) by { reveal(locs); }
    assert(locs(all) =~= locs(rs) + locs(p)) by { reveal(locs); }
    lemma_leaf_parts::<H, N>(keys, nodes, rs, rs.len() as int);
    assert(rs.subrange(0, rs.len() as int) =~= rs);
    lemma_psize_add::<H, N>(rs, p);
    lemma_psize_len::<H, N>(all);
    assert(psize::<H, N>(p) <= prev_size::<H, N>(prev)) by { reveal(psize); }
    assert forall|i: int| 0 <= i < all.len() implies tref_shape::<H, N>(#[trigger] all[i]) by {
        if i < rs.len() { assert(all[i] == rs[i]); } else {
            assert(all[i] == p[i - rs.len()]);
            reveal(trefs_ok);
            reveal(tref_ok);
            assert(tref_ok::<H, N>(tree_of::<H, N>(prev->0), keys, p[i - rs.len()]));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).key == (#[trigger] all[j]).key || sep(rtree::<H, N>(all[i]), rtree::<H, N>(all[j])) by {
        lemma_two_parts::<H, N>(prev, keys, nodes, rs, p, i, j);
    }
    assert forall|x: TreeRef<N>, y: TreeRef<N>| #[trigger] all.contains(x) && #[trigger] all.contains(y) implies x.key == y.key || sep(rtree::<H, N>(x), rtree::<H, N>(y)) by {
        let i = choose|i: int| 0 <= i < all.len() && all[i] == x;
        let j = choose|j: int| 0 <= j < all.len() && all[j] == y;
        lemma_sep_sym(rtree::<H, N>(x), rtree::<H, N>(y));
        if i < j { assert(all[i].key == all[j].key || sep(rtree::<H, N>(all[i]), rtree::<H, N>(all[j]))); }
        if j < i { assert(all[j].key == all[i].key || sep(rtree::<H, N>(all[j]), rtree::<H, N>(all[i]))); }
    }
    if keys_distinct(all) {
        assert forall|i: int, j: int| 0 <= i < keys.len() && 0 <= j < keys.len() && i != j implies keys[i] != keys[j] by {
            assert(all[i] == rs[i] && all[j] == rs[j]);
            if i < j { assert(all[i].key != all[j].key); } else { assert(all[j].key != all[i].key); }
        }
    }
    if keys.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).key != (#[trigger] all[j]).key by {
            lemma_two_parts::<H, N>(prev, keys, nodes, rs, p, i, j);
        }
    }
}

/// Two parts have different keys and are at different places, unless a key has been repeated.
pub proof fn lemma_two_parts<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>, keys: Seq<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>, p: Seq<TreeRef<N>>, i: int, j: int)
    requires
        leaf_refs(keys, nodes, rs),
        leaf_nodes::<H, N>(nodes, keys),
        rest::<H, N>(prev, keys, p),
        0 <= i < j < (rs + p).len(),
    ensures
        (rs + p)[i].key == (rs + p)[j].key || sep(rtree::<H, N>((rs + p)[i]), rtree::<H, N>((rs + p)[j])),
        keys.no_duplicates() ==> (rs + p)[i].key != (rs + p)[j].key,
{
    let n = rs.len() as int;
    lemma_leaf_parts::<H, N>(keys, nodes, rs, 0);
    if j < n {
        let a = rtree::<H, N>(rs[i]);
        let b = rtree::<H, N>(rs[j]);
        assert(tref_shape::<H, N>(rs[i]) && tref_shape::<H, N>(rs[j]));
        if keys[i] != keys[j] {
            if agree(keys[i], keys[j], 8 * N as int) { lemma_key_ext(keys[i], keys[j]); }
        }
    } else if i < n {
        let k = keys[i];
        reveal(trefs_ok);
        reveal(tref_ok);
        assert(tref_ok::<H, N>(tree_of::<H, N>(prev->0), keys, p[j - n]));
        let t = rtree::<H, N>(p[j - n]);
        assert(keys.contains(k));
        assert(sep_key(k, t));
        assert(tref_shape::<H, N>(rs[i]));
        assert(tkey(rtree::<H, N>(rs[i])) == k);
        lemma_leaf_ref::<H, N>(rs[i], keys[i], nodes[i]);
        lemma_level(t);
        assert(!agree(k, tkey(t), 8 * N as int));
    } else {
        reveal(psep);
        reveal(trefs_ok);
        reveal(tref_ok);
        assert(tref_ok::<H, N>(tree_of::<H, N>(prev->0), keys, p[i - n]));
        assert(tref_ok::<H, N>(tree_of::<H, N>(prev->0), keys, p[j - n]));
        assert(sep(rtree::<H, N>(p[i - n]), rtree::<H, N>(p[j - n])));
    }
}

/// The new tree has the new entries and what was there.
pub proof fn lemma_inserted<H: Hasher<N>, const N: usize>(prev: Option<Array<N>>, keys: Seq<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>, p: Seq<TreeRef<N>>, t: T<N>)
    requires
        leaf_refs(keys, nodes, rs),
        leaf_nodes::<H, N>(nodes, keys),
        rest::<H, N>(prev, keys, p),
        made::<H, N>(rs + p, t),
    ensures
        forall|i: int| 0 <= i < keys.len() ==> lookup(t, #[trigger] keys[i]) == Some(tree_of::<H, N>(nodes[i])->value),
        forall|k: Array<N>| !keys.contains(k) ==> #[trigger] lookup(t, k) == lookup_in::<H, N>(prev, k),
{
    let all = rs + p;
    let n = rs.len() as int;
    lemma_leaf_parts::<H, N>(keys, nodes, rs, 0);
    assert forall|i: int| 0 <= i < keys.len() implies lookup(t, #[trigger] keys[i]) == Some(tree_of::<H, N>(nodes[i])->value) by {
        assert(all[i] == rs[i]);
        assert(all.contains(rs[i]));
        assert(tref_shape::<H, N>(rs[i]));
        assert(lookup(rtree::<H, N>(rs[i]), keys[i]) is Some);
    }
    assert forall|k: Array<N>| !keys.contains(k) implies #[trigger] lookup(t, k) == lookup_in::<H, N>(prev, k) by {
        if lookup(t, k) is Some {
            let x = choose|x: TreeRef<N>| #[trigger] all.contains(x) && lookup(rtree::<H, N>(x), k) is Some;
            let i = choose|i: int| 0 <= i < all.len() && all[i] == x;
            if i < n {
                assert(all[i] == rs[i]);
                assert(tref_shape::<H, N>(rs[i]));
                assert(keys.contains(keys[i]));
            } else {
                reveal(trefs_ok);
                reveal(tref_ok);
                assert(tref_ok::<H, N>(tree_of::<H, N>(prev->0), keys, p[i - n]));
            }
        } else if lookup_in::<H, N>(prev, k) is Some {
            assert(phas::<H, N>(p, k));
            reveal(phas);
            let i = choose|i: int| 0 <= i < p.len() && lookup(tree_of::<H, N>((#[trigger] p[i]).location), k) is Some;
            assert(all[i + n] == p[i]);
            assert(all.contains(p[i]));
            assert(lookup(rtree::<H, N>(p[i]), k) is Some);
        }
    }
}

/// The map gives the values for the keys.
#[verifier::opaque]
pub open spec fn mapped<V, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, n: int) -> bool {
    &&& forall|k: Array<N>| #[trigger] map.contains_key(k) ==> exists|j: int| 0 <= j < n && #[trigger] keys[j] == k && *map[k] == values[j]
    &&& forall|j: int| 0 <= j < n ==> map.contains_key(#[trigger] keys[j])
}

pub proof fn lemma_mapped_none<V, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>)
    requires map == Map::<Array<N>, &V>::empty(),
    ensures mapped(map, keys, values, 0),
{
    reveal(mapped);
}

pub proof fn lemma_mapped_one<V, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, n: int, map2: Map<Array<N>, &V>)
    requires mapped(map, keys, values, n), 0 <= n < keys.len(), map2 =~= map.insert(keys[n], &values[n]),
    ensures mapped(map2, keys, values, n + 1),
{
    reveal(mapped);
    assert forall|k: Array<N>| #[trigger] map2.contains_key(k) implies exists|j: int| 0 <= j < n + 1 && #[trigger] keys[j] == k && *map2[k] == values[j] by {
        if k == keys[n] { } else {
            assert(map.contains_key(k));
            let j = choose|j: int| 0 <= j < n && #[trigger] keys[j] == k && *map[k] == values[j];
            assert(keys[j] == k && *map2[k] == values[j]);
        }
    }
}

pub proof fn lemma_mapped_value<V, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, i: int)
    requires mapped(map, keys, values, keys.len() as int), keys.no_duplicates(), 0 <= i < keys.len(),
    ensures map.contains_key(keys[i]), *map[keys[i]] == values[i],
{
    reveal(mapped);
    assert(map.contains_key(keys[i]));
    let j = choose|j: int| 0 <= j < keys.len() && #[trigger] keys[j] == keys[i] && *map[keys[i]] == values[j];
}

/// The keys in order, as the map has them.
pub proof fn lemma_mapped_sorted<V: Encode, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, ks: Seq<Array<N>>)
    requires
        mapped(map, keys, values, keys.len() as int),
        keys.len() == values.len(),
        ks.to_multiset() == keys.to_multiset(),
    ensures
        ks.len() == keys.len(),
        forall|i: int| 0 <= i < ks.len() ==> map.contains_key(#[trigger] ks[i]),
        (forall|i: int| 0 <= i < values.len() ==> (#[trigger] values[i]).encodable()) ==> forall|i: int| 0 <= i < ks.len() ==> map[#[trigger] ks[i]].encodable(),
        keys.no_duplicates() == ks.no_duplicates(),
{
    reveal(mapped);
    lemma_same_members(ks, keys);
    assert forall|i: int| 0 <= i < ks.len() implies map.contains_key(#[trigger] ks[i]) by {
        assert(ks.contains(ks[i]));
        assert(keys.contains(ks[i]));
        let j = choose|j: int| 0 <= j < keys.len() && keys[j] == ks[i];
        assert(map.contains_key(keys[j]));
    }
    if forall|i: int| 0 <= i < values.len() ==> (#[trigger] values[i]).encodable() {
        assert forall|i: int| 0 <= i < ks.len() implies map[#[trigger] ks[i]].encodable() by {
            assert(map.contains_key(ks[i]));
            let j = choose|j: int| 0 <= j < keys.len() && #[trigger] keys[j] == ks[i] && *map[ks[i]] == values[j];
            assert(values[j].encodable());
        }
    }
    if keys.no_duplicates() { keys.lemma_multiset_has_no_duplicates(); ks.lemma_multiset_has_no_duplicates_conv(); }
    if ks.no_duplicates() { ks.lemma_multiset_has_no_duplicates(); keys.lemma_multiset_has_no_duplicates_conv(); }
}

pub proof fn lemma_sub_contains<A>(s: Seq<A>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|x: A| #[trigger] s.subrange(0, n + 1).contains(x) == (s.subrange(0, n).contains(x) || x == s[n]),
{
    assert forall|x: A| #[trigger] s.subrange(0, n + 1).contains(x) == (s.subrange(0, n).contains(x) || x == s[n]) by {
        let a = s.subrange(0, n);
        let b = s.subrange(0, n + 1);
        if b.contains(x) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            if j < n { assert(a[j] == x); }
        }
        if a.contains(x) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
            assert(b[j] == x);
        }
        assert(b[n] == s[n]);
    }
}

/// The tree has the new values, and what it had for other keys.
pub open spec fn inserted<H: Hasher<N>, V: Encode, const N: usize>(prev: Option<Array<N>>, keys: Seq<Array<N>>, values: Seq<V>, t: T<N>) -> bool {
    &&& forall|i: int| 0 <= i < keys.len() ==> lookup(t, #[trigger] keys[i]) == Some(values[i].enc())
    &&& forall|k: Array<N>| !keys.contains(k) ==> #[trigger] lookup(t, k) == lookup_in::<H, N>(prev, k)
}

pub open spec fn opt<const N: usize>(o: Option<&Array<N>>) -> Option<Array<N>> {
    match o { Some(x) => Some(*x), None => None }
}

/// What goes into the tree: the leaves and the parts of the previous tree.
pub proof fn lemma_insertion<H: Hasher<N>, V: Encode, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, ks: Seq<Array<N>>, prev: Option<Array<N>>, nodes: Seq<Array<N>>, rs: Seq<TreeRef<N>>, p: Seq<TreeRef<N>>)
    requires
        mapped(map, keys, values, keys.len() as int),
        keys.len() == values.len(),
        ks.to_multiset() == keys.to_multiset(),
        leaf_refs(ks, nodes, rs),
        leaves_in::<H, V, N>(nodes, ks, map, ks.len() as int),
        rest::<H, N>(prev, ks, p),
    ensures
        parts_ok::<H, N>(rs + p),
        psize::<H, N>(rs + p) <= keys.len() + prev_size::<H, N>(prev),
        (rs + p).len() <= keys.len() + prev_size::<H, N>(prev),
        forall|x: Array<N>| #[trigger] cnt(locs(rs + p), x) == cnt(nodes, x) + cnt(locs(p), x),
        p.len() == 0 ==> forall|x: Array<N>| #[trigger] cnt(locs(rs + p), x) == cnt(nodes, x),
        keys_distinct(rs + p) == keys.no_duplicates(),
        forall|t: T<N>| keys.no_duplicates() && #[trigger] made::<H, N>(rs + p, t) ==> inserted::<H, V, N>(prev, keys, values, t),
{
    lemma_mapped_sorted(map, keys, values, ks);
    assert forall|i: int| 0 <= i < nodes.len() implies ({
        let t = tree_of::<H, N>(#[trigger] nodes[i]);
        &&& valid::<H, N>(t)
        &&& hash::<H, N>(t) == nodes[i]
        &&& t is Leaf
        &&& t->key == ks[i]
    }) by {
        assert(leaf_in::<H, V, N>(nodes[i], ks[i], map));
    }
    lemma_parts::<H, N>(prev, ks, nodes, rs, p);
    assert forall|x: Array<N>| #[trigger] cnt(locs(rs + p), x) == cnt(nodes, x) + cnt(locs(p), x) by { lemma_cnt_add(nodes, locs(p), x); }
    if p.len() == 0 {
        assert(locs(p).len() == 0) by { reveal(locs); }
        assert forall|x: Array<N>| #[trigger] cnt(locs(rs + p), x) == cnt(nodes, x) by { lemma_cnt_empty(locs(p), x); }
    }
    assert forall|t: T<N>| keys.no_duplicates() && #[trigger] made::<H, N>(rs + p, t) implies inserted::<H, V, N>(prev, keys, values, t) by {
        lemma_inserted::<H, N>(prev, ks, nodes, rs, p, t);
        lemma_same_members(ks, keys);
        assert forall|i: int| 0 <= i < keys.len() implies lookup(t, #[trigger] keys[i]) == Some(values[i].enc()) by {
            assert(keys.contains(keys[i]));
            assert(ks.contains(keys[i]));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == keys[i];
            assert(leaf_in::<H, V, N>(nodes[j], ks[j], map));
            lemma_mapped_value(map, keys, values, i);
            assert(lookup(t, ks[j]) == Some(tree_of::<H, N>(nodes[j])->value));
        }
        assert forall|k: Array<N>| !keys.contains(k) implies #[trigger] lookup(t, k) == lookup_in::<H, N>(prev, k) by {
            assert(!ks.contains(k));
        }
    }
}

/// A root that is one of the new leaves.
pub proof fn lemma_new_root<H: Hasher<N>, V: Encode, const N: usize>(map: Map<Array<N>, &V>, keys: Seq<Array<N>>, values: Seq<V>, ks: Seq<Array<N>>, nodes: Seq<Array<N>>, x: Array<N>)
    requires
        mapped(map, keys, values, keys.len() as int),
        keys.len() == values.len(),
        ks.to_multiset() == keys.to_multiset(),
        nodes.len() == ks.len(),
        leaves_in::<H, V, N>(nodes, ks, map, ks.len() as int),
    ensures
        nodes.contains(x) ==> size(tree_of::<H, N>(x)) == 1 && exists|i: int| 0 <= i < values.len() && x == leaf_loc::<H, N>(keys[i], (#[trigger] values[i]).enc()),
{
    if nodes.contains(x) {
        let j = choose|j: int| 0 <= j < nodes.len() && nodes[j] == x;
        assert(leaf_in::<H, V, N>(nodes[j], ks[j], map));
        lemma_mapped_sorted(map, keys, values, ks);
        assert(map.contains_key(ks[j]));
        reveal(mapped);
        let i = choose|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == ks[j] && *map[ks[j]] == values[i];
        assert(x == leaf_loc::<H, N>(keys[i], values[i].enc()));
    }
}
