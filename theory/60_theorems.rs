// ---------------------------------------------------------------- the properties, from the contracts alone
/// What a root stands for: a map from keys to the bytes of their values.
pub open spec fn content<H: Hasher<N>, const N: usize>(root: Array<N>, k: Array<N>) -> Option<Seq<u8>> {
    lookup(tree_of::<H, N>(root), k)
}

/// `held`: the roots returned by inserts and not removed since, with repeats.
pub open spec fn holding<H: Hasher<N>, const N: usize>(m: Store<N>, held: Seq<Array<N>>) -> bool {
    &&& wf::<H, N>(m)
    &&& forall|x: Array<N>| cnt(held, x) <= #[trigger] ext(m, x)
    &&& forall|i: int| 0 <= i < held.len() ==> is_root::<H, N>(m, #[trigger] held[i])
}

/// The same, and nobody else holds anything: no operation has failed so far.
pub open spec fn exact<const N: usize>(m: Store<N>, held: Seq<Array<N>>) -> bool {
    forall|x: Array<N>| cnt(held, x) == #[trigger] ext(m, x)
}

pub proof fn lemma_cnt_remove<A>(s: Seq<A>, i: int, x: A)
    requires 0 <= i < s.len(),
    ensures cnt(s.remove(i), x) == cnt(s, x) - cnt(seq![s[i]], x),
{
    broadcast use group_cnt;
    let a = s.subrange(0, i);
    let b = s.subrange(i + 1, s.len() as int);
    assert(s.remove(i) =~= a + b);
    assert(s =~= a + seq![s[i]] + b);
    lemma_cnt_add(a, b, x);
    lemma_cnt_add(a + seq![s[i]], b, x);
    lemma_cnt_add(a, seq![s[i]], x);
}

/// What is held is stored.
pub proof fn lemma_held<H: Hasher<N>, const N: usize>(m: Store<N>, m2: Store<N>, held: Seq<Array<N>>, i: int)
    requires
        0 <= i < held.len(),
        wf::<H, N>(m),
        wf::<H, N>(m2),
        is_root::<H, N>(m, held[i]),
        cnt(held, held[i]) <= ext(m2, held[i]),
    ensures is_root::<H, N>(m2, held[i]),
{
    lemma_cnt_pos(held, i);
    broadcast use lemma_indeg_ext;
    assert(m2.contains_key(held[i]));
    assert(entry_ok::<H, N>(m, held[i]));
    assert(entry_ok::<H, N>(m2, held[i]));
    lemma_node_unique::<H, N>(held[i], m[held[i]].node, m2[held[i]].node);
}

/// The roots are held in the database, and would be after a crash at this moment.
pub open spec fn kept_safe<M: MerkleTree<N>, const N: usize>(t: MerkleBIT<M, N>, held: Seq<Array<N>>) -> bool {
    &&& holding::<M::Hasher, N>(t.db.v_store(), held)
    &&& holding::<M::Hasher, N>(t.db.v_durable(), held)
}

/// From one to the next.
pub proof fn lemma_holding<H: Hasher<N>, const N: usize>(m: Store<N>, m2: Store<N>, held: Seq<Array<N>>, h2: Seq<Array<N>>)
    requires
        holding::<H, N>(m, held),
        wf::<H, N>(m2),
        forall|j: int| 0 <= j < h2.len() ==> held.contains(#[trigger] h2[j]),
        forall|x: Array<N>| cnt(h2, x) <= #[trigger] ext(m2, x),
    ensures holding::<H, N>(m2, h2),
{
    assert forall|j: int| 0 <= j < h2.len() implies is_root::<H, N>(m2, #[trigger] h2[j]) by {
        let i = choose|i: int| 0 <= i < held.len() && held[i] == h2[j];
        assert(is_root::<H, N>(m, held[i]));
        lemma_held::<H, N>(m, m2, h2, j);
    }
}

// ---- C01, C02, C03, C13, C20: an insert
fn theorem_insert<M: MerkleTree<N>, const N: usize>(t: &mut MerkleBIT<M, N>, prev: Option<&Array<N>>, keys: &mut [Array<N>], values: &[M::Value], held: Ghost<Seq<Array<N>>>) -> (r: Result<Array<N>, Exception>)
    requires
        tinv(*old(t)),
        calm(*old(t)),
        kept_safe(*old(t), held@),
        old(keys)@.len() < u32::MAX,
        prev is Some && is_root::<M::Hasher, N>(old(t).db.v_store(), *prev->0) ==> old(keys)@.len() + size(tree_of::<M::Hasher, N>(*prev->0)) <= u32::MAX,
    ensures
        tinv(*final(t)), // [C13]
        // it was in order
        r is Ok ==> old(keys)@.len() == values@.len() && old(keys)@.len() > 0 && old(keys)@.no_duplicates()
            && (prev is Some ==> is_root::<M::Hasher, N>(old(t).db.v_store(), *prev->0)
                || exists|i: int| 0 <= i < values@.len() && *prev->0 == leaf_loc::<M::Hasher, N>(old(keys)@[i], (#[trigger] values@[i]).enc())), // [C20]
        // the new root is the updated map
        r matches Ok(root) ==> {
            &&& forall|i: int| 0 <= i < values@.len() ==> content::<M::Hasher, N>(root, #[trigger] old(keys)@[i]) == Some(values@[i].enc())
            &&& forall|k: Array<N>| !old(keys)@.contains(k) ==> #[trigger] content::<M::Hasher, N>(root, k) == match prev { Some(p) => content::<M::Hasher, N>(*p, k), None => None }
        }, // [C01 C02]
        // what was held is still held, and the new root too
        r matches Ok(root) ==> kept_safe(*final(t), held@.push(root)), // [C03 C04 C13 C15]
        r is Err ==> holding::<M::Hasher, N>(final(t).db.v_store(), held@), // [C03 C20]
        // wherever it broke off
        holding::<M::Hasher, N>(final(t).db.v_durable(), held@), // [C15]
        r matches Ok(root) && exact(old(t).db.v_store(), held@) ==> exact(final(t).db.v_store(), held@.push(r->Ok_0)), // [C13]
{
    let ghost m = t.db.v_store();
    let ghost d = t.db.v_durable();
    let r = t.insert(prev, keys, values);
    proof {
        broadcast use group_cnt;
        let m2 = t.db.v_store();
        let d2 = t.db.v_durable();
        assert forall|x: Array<N>| cnt(held@, x) <= #[trigger] ext(m2, x) by { assert(cnt(held@, x) <= ext(m, x)); assert(cnt(held@, x) <= ext(d, x)); }
        assert forall|x: Array<N>| cnt(held@, x) <= #[trigger] ext(d2, x) by { assert(cnt(held@, x) <= ext(m, x)); assert(cnt(held@, x) <= ext(d, x)); }
        assert forall|j: int| 0 <= j < held@.len() implies held@.contains(#[trigger] held@[j]) by { }
        lemma_holding::<M::Hasher, N>(m, m2, held@, held@);
        lemma_holding::<M::Hasher, N>(m, d2, held@, held@);
        if r is Ok {
            let root = r->Ok_0;
            let h2 = held@.push(root);
            assert forall|x: Array<N>| cnt(h2, x) <= #[trigger] ext(m2, x) by { assert(cnt(held@, x) <= ext(m, x)); }
            assert forall|i: int| 0 <= i < h2.len() implies is_root::<M::Hasher, N>(m2, #[trigger] h2[i]) by { if i < held@.len() { assert(h2[i] == held@[i]); } }
            if exact(m, held@) {
                assert forall|x: Array<N>| cnt(h2, x) == #[trigger] ext(m2, x) by { assert(cnt(held@, x) == ext(m, x)); }
            }
        }
    }
    r
}

// ---- C04, C13: a removal
fn theorem_remove<M: MerkleTree<N>, const N: usize>(t: &mut MerkleBIT<M, N>, root: &Array<N>, held: Ghost<Seq<Array<N>>>, i: Ghost<int>) -> (r: Result<(), Exception>)
    requires
        tinv(*old(t)),
        kept_safe(*old(t), held@),
        0 <= i@ < held@.len(),
        held@[i@] == *root,
    ensures
        tinv(*final(t)), // [C13]
        // also if the database fails
        holding::<M::Hasher, N>(final(t).db.v_store(), held@.remove(i@)), // [C04]
        // and if everything ends here
        holding::<M::Hasher, N>(final(t).db.v_durable(), held@.remove(i@)), // [C04 C15]
        r is Ok && exact(old(t).db.v_store(), held@) ==> exact(final(t).db.v_store(), held@.remove(i@)), // [C13]
{
    let ghost m = t.db.v_store();
    proof {
        broadcast use lemma_indeg_ext;
        lemma_cnt_pos(held@, i@);
        assert(is_root::<M::Hasher, N>(m, held@[i@]));
        assert(cnt(held@, *root) <= ext(m, *root));
    }
    let ghost d = t.db.v_durable();
    let r = t.remove(root);
    proof {
        let m2 = t.db.v_store();
        let d2 = t.db.v_durable();
        let h2 = held@.remove(i@);
        assert forall|x: Array<N>| cnt(h2, x) <= #[trigger] ext(m2, x) by { lemma_cnt_remove(held@, i@, x); assert(cnt(held@, x) <= ext(m, x)); assert(cnt(held@, x) <= ext(d, x)); }
        assert forall|x: Array<N>| cnt(h2, x) <= #[trigger] ext(d2, x) by { lemma_cnt_remove(held@, i@, x); assert(cnt(held@, x) <= ext(m, x)); assert(cnt(held@, x) <= ext(d, x)); }
        assert forall|j: int| 0 <= j < h2.len() implies held@.contains(#[trigger] h2[j]) by { assert(h2[j] == held@[if j < i@ { j } else { j + 1 }]); }
        lemma_holding::<M::Hasher, N>(m, m2, held@, h2);
        lemma_holding::<M::Hasher, N>(m, d2, held@, h2);
        if r is Ok && exact(m, held@) {
            assert forall|x: Array<N>| cnt(h2, x) == #[trigger] ext(m2, x) by { broadcast use group_cnt; lemma_cnt_remove(held@, i@, x); assert(cnt(held@, x) == ext(m, x)); }
        }
    }
    r
}

// ---- C01: what was inserted is read back
fn theorem_read_back<const N: usize>(t: &mut HashTree<N>, prev: Option<&Array<N>>, keys: &mut [Array<N>], values: &[Vec<u8>], i: usize, key: &Array<N>, request: &mut [Array<N>])
    requires
        tinv(old(t).tree),
        old(keys)@.len() < u32::MAX,
        old(request)@.len() <= u32::MAX,
        prev is Some && is_root::<TreeHasher, N>(old(t).tree.db.v_store(), *prev->0) ==> old(keys)@.len() + size(tree_of::<TreeHasher, N>(*prev->0)) <= u32::MAX,
        i < old(keys)@.len(),
        *key == old(keys)@[i as int],
        old(request)@.contains(*key),
{
    let r = t.insert(prev, keys, values);
    if let Ok(root) = r {
        let one = t.get_one(&root, key);
        assert(one is Ok ==> one->Ok_0 is Some && one->Ok_0->0@ == values@[i as int]@); // [C01]
        let ghost asked = request@;
        let all = t.get(&root, request);
        if let Ok(map) = all {
            assert(map@.contains_key(*key));
            assert(map@[*key] is Some && map@[*key]->0@ == values@[i as int]@); // [C01]
        }
    }
}

// ---- C03: an insert does not disturb another root, whatever becomes of it
fn theorem_insert_beside<const N: usize>(t: &mut HashTree<N>, prev: Option<&Array<N>>, keys: &mut [Array<N>], values: &[Vec<u8>], other: &Array<N>, k: &Array<N>)
    requires
        tinv(old(t).tree),
        old(keys)@.len() < u32::MAX,
        prev is Some && is_root::<TreeHasher, N>(old(t).tree.db.v_store(), *prev->0) ==> old(keys)@.len() + size(tree_of::<TreeHasher, N>(*prev->0)) <= u32::MAX,
        is_root::<TreeHasher, N>(old(t).tree.db.v_store(), *other),
{
    let before = t.get_one(other, k);
    let _ = t.insert(prev, keys, values);
    let after = t.get_one(other, k);
    if let Ok(a) = before {
        if let Ok(b) = after {
            assert(a is Some == b is Some && (a is Some ==> a->0@ == b->0@)); // [C03]
        }
    }
}

// ---- C04: a removal does not disturb a root that is held
fn theorem_remove_beside<const N: usize>(t: &mut HashTree<N>, root: &Array<N>, other: &Array<N>, k: &Array<N>)
    requires
        tinv(old(t).tree),
        holding::<TreeHasher, N>(old(t).tree.db.v_store(), seq![*root, *other]),
{
    let ghost m = t.tree.db.v_store();
    let before = t.get_one(other, k);
    proof {
        let h = seq![*root, *other];
        assert(h =~= seq![*root].push(*other));
        broadcast use group_cnt;
        assert(cnt(h, *root) <= ext(m, *root));
        assert(cnt(h, *other) <= ext(m, *other));
        assert(is_root::<TreeHasher, N>(m, h[1]));
    }
    let _ = t.remove(root);
    proof {
        broadcast use group_cnt;
        broadcast use lemma_indeg_ext;
        assert(ext(t.tree.db.v_store(), *other) >= ext(m, *other) - cnt(seq![*root], *other));
        assert(t.tree.db.v_store().contains_key(*other));
    }
    let after = t.get_one(other, k);
    if let Ok(a) = before {
        if let Ok(b) = after {
            assert(a is Some == b is Some && (a is Some ==> a->0@ == b->0@)); // [C04]
        }
    }
}

// ---- C05, C12: root and content determine each other, also across databases
pub proof fn theorem_root_is_content<H: Hasher<N>, const N: usize>(m1: Store<N>, r1: Array<N>, m2: Store<N>, r2: Array<N>)
    requires
        wf::<H, N>(m1),
        wf::<H, N>(m2),
        is_root::<H, N>(m1, r1),
        is_root::<H, N>(m2, r2),
    ensures
        r1 == r2 <==> (forall|k: Array<N>| content::<H, N>(r1, k) == content::<H, N>(r2, k)), // [C05 C12]
{
    assert(entry_ok::<H, N>(m1, r1));
    assert(entry_ok::<H, N>(m2, r2));
    let a = tree_of::<H, N>(r1);
    let b = tree_of::<H, N>(r2);
    if forall|k: Array<N>| content::<H, N>(r1, k) == content::<H, N>(r2, k) {
        assert forall|k: Array<N>| #![trigger lookup(a, k)] #![trigger lookup(b, k)] lookup(a, k) == lookup(b, k) by {
            assert(content::<H, N>(r1, k) == content::<H, N>(r2, k));
        }
        lemma_canonical(a, b);
    }
}

fn theorem_same_map_same_root<M: MerkleTree<N>, const N: usize>(s: &mut MerkleBIT<M, N>, t: &mut MerkleBIT<M, N>, p: Option<&Array<N>>, q: Option<&Array<N>>, keys1: &mut [Array<N>], values1: &[M::Value], keys2: &mut [Array<N>], values2: &[M::Value])
    requires
        tinv(*old(s)),
        tinv(*old(t)),
        calm(*old(s)),
        calm(*old(t)),
        old(keys1)@.len() < u32::MAX,
        old(keys2)@.len() < u32::MAX,
        p is Some && is_root::<M::Hasher, N>(old(s).db.v_store(), *p->0) ==> old(keys1)@.len() + size(tree_of::<M::Hasher, N>(*p->0)) <= u32::MAX,
        q is Some && is_root::<M::Hasher, N>(old(t).db.v_store(), *q->0) ==> old(keys2)@.len() + size(tree_of::<M::Hasher, N>(*q->0)) <= u32::MAX,
{
    let r1 = s.insert(p, keys1, values1);
    let r2 = t.insert(q, keys2, values2);
    if let Ok(a) = r1 {
        if let Ok(b) = r2 {
            proof { theorem_root_is_content::<M::Hasher, N>(s.db.v_store(), a, t.db.v_store(), b); }
            assert(a == b <==> (forall|k: Array<N>| content::<M::Hasher, N>(a, k) == content::<M::Hasher, N>(b, k))); // [C05 C12]
        }
    }
}

// ---- C06: the lookups agree
fn theorem_lookups_agree<const N: usize>(t: &HashTree<N>, root: &Array<N>, request: &mut [Array<N>], k: &Array<N>)
    requires
        tinv(t.tree),
        is_root::<TreeHasher, N>(t.tree.db.v_store(), *root),
        old(request)@.len() <= u32::MAX,
        old(request)@.contains(*k),
{
    let one = t.get_one(root, k);
    let all = t.get(root, request);
    if let Ok(a) = one {
        if let Ok(map) = all {
            assert(map@.contains_key(*k)); // [C06]
            assert(a is Some == map@[*k] is Some && (a is Some ==> a->0@ == map@[*k]->0@)); // [C06]
        }
    }
}

// ---- C07: proofs are accepted
fn theorem_proofs_verify<M: MerkleTree<N>, const N: usize>(t: &MerkleBIT<M, N>, root: &Array<N>, key: Array<N>, value: &M::Value)
    requires
        tinv(*t),
        is_root::<M::Hasher, N>(t.db.v_durable(), *root),
        value.encodable(),
        content::<M::Hasher, N>(*root, key) == Some(value.enc()),
{
    let r = t.generate_inclusion_proof(root, key);
    assert(t.db.healthy() && height(tree_of::<M::Hasher, N>(*root)) + 1 <= t.depth ==> r is Ok); // [C07]
    if let Ok(p) = r {
        proof {
            assert(entry_ok::<M::Hasher, N>(t.db.v_durable(), *root));
            lemma_complete::<M::Hasher, N>(tree_of::<M::Hasher, N>(*root), key);
        }
        let v = MerkleBIT::<M, N>::verify_inclusion_proof(root, key, value, p.as_slice());
        assert(v is Ok); // [C07]
    }
}

// ---- C08: what is accepted is true
fn theorem_accepted_is_true<M: MerkleTree<N>, const N: usize>(t: &MerkleBIT<M, N>, root: &Array<N>, key: Array<N>, value: &M::Value, p: &[(Array<N>, bool)])
    requires
        tinv(*t),
        is_root::<M::Hasher, N>(t.db.v_store(), *root),
{
    let v = MerkleBIT::<M, N>::verify_inclusion_proof(root, key, value, p);
    if v.is_ok() {
        proof {
            assert(entry_ok::<M::Hasher, N>(t.db.v_store(), *root));
            lemma_sound::<M::Hasher, N>(tree_of::<M::Hasher, N>(*root), key, value.enc(), p@);
        }
        assert(content::<M::Hasher, N>(*root, key) == Some(value.enc())); // [C08]
    }
}

// ---- C09: one key, inserted alone or as a list
fn theorem_one_is_a_list_of_one<M: MerkleTree<N>, const N: usize>(s: &mut MerkleBIT<M, N>, t: &mut MerkleBIT<M, N>, prev: Option<&Array<N>>, key: &Array<N>, value: &M::Value, keys: &mut [Array<N>], values: &[M::Value])
    requires
        tinv(*old(s)),
        tinv(*old(t)),
        calm(*old(s)),
        calm(*old(t)),
        old(s).db.v_store() == old(t).db.v_store(),
        old(keys)@ == seq![*key],
        values@ == seq![*value],
        prev is Some && is_root::<M::Hasher, N>(old(s).db.v_store(), *prev->0) ==> 1 + size(tree_of::<M::Hasher, N>(*prev->0)) <= u32::MAX,
{
    let ghost m = s.db.v_store();
    let a = s.insert_one(prev, key, value);
    let b = t.insert(prev, keys, values);
    if let Ok(x) = a {
        if let Ok(y) = b {
            proof {
                let m1 = s.db.v_store();
                let m2 = t.db.v_store();
                assert forall|k: Array<N>| content::<M::Hasher, N>(x, k) == content::<M::Hasher, N>(y, k) by {
                    assert(seq![*key][0] == *key && seq![*key].len() == 1);
                    if k != *key { assert(!seq![*key].contains(k)); }
                }
                theorem_root_is_content::<M::Hasher, N>(m1, x, m2, y);
                assert(x == y);
                assert forall|z: Array<N>| #[trigger] ext(m1, z) == ext(m2, z) by { }
                theorem_counts_determine_store::<M::Hasher, N>(m1, m2);
            }
            assert(x == y); // [C09]
            assert(s.db.v_store() == t.db.v_store()); // [C09]
        }
    }
}

// ---- C13: nothing leaks
pub proof fn lemma_reached<H: Hasher<N>, const N: usize>(m1: Store<N>, m2: Store<N>, x: Array<N>, fuel: nat)
    requires
        wf::<H, N>(m1),
        wf::<H, N>(m2),
        forall|z: Array<N>| #[trigger] ext(m1, z) == ext(m2, z),
        m1.contains_key(x),
        rank::<H, N>(m1, x) <= fuel,
    ensures
        m2.contains_key(x),
        m2[x].node == m1[x].node,
    decreases fuel,
{
    broadcast use lemma_indeg_ext;
    assert(entry_ok::<H, N>(m1, x));
    if ext(m1, x) > 0 {
        assert(ext(m2, x) > 0);
        assert(refs_of(m2, x) > 0);
    } else {
        assert(ext(m1, x) == 0) by { lemma_ext_nonneg::<H, N>(m1, x); }
        assert(indeg(m1, x) >= 1);
        let p = parents(m1, x).choose();
        assert(parents(m1, x).contains(p)) by { if parents(m1, x) =~= Set::empty() { } }
        lemma_rank::<H, N>(m1, p, x);
        lemma_reached::<H, N>(m1, m2, p, (fuel - 1) as nat);
        assert(entry_ok::<H, N>(m2, p));
        assert(child(m2[p].node, x));
    }
    assert(entry_ok::<H, N>(m2, x));
    lemma_node_unique::<H, N>(x, m1[x].node, m2[x].node);
}

/// A node's distance from the top of the tallest tree: its parents have a smaller one.
pub open spec fn rank<H: Hasher<N>, const N: usize>(m: Store<N>, x: Array<N>) -> int {
    match m[x].node {
        ANode::Data { .. } => 8 * N + 1,
        _ => level(tree_of::<H, N>(x)),
    }
}

pub proof fn lemma_rank<H: Hasher<N>, const N: usize>(m: Store<N>, p: Array<N>, x: Array<N>)
    requires wf::<H, N>(m), m.contains_key(x), parents(m, x).contains(p),
    ensures m.contains_key(p), child(m[p].node, x), 0 <= rank::<H, N>(m, p) < rank::<H, N>(m, x),
{
    assert(entry_ok::<H, N>(m, p));
    assert(entry_ok::<H, N>(m, x));
    match m[p].node {
        ANode::Branch { .. } => {
            lemma_at_branch::<H, N>(m, p);
            let t = tree_of::<H, N>(p);
            assert(wg(t));
        },
        ANode::Leaf { key, data } => {
            lemma_at_leaf::<H, N>(m, p);
        },
        ANode::Data { .. } => {},
    }
}

/// The roots held determine the whole store: nothing is left behind, nothing is counted twice.
pub proof fn theorem_counts_determine_store<H: Hasher<N>, const N: usize>(m1: Store<N>, m2: Store<N>)
    requires
        wf::<H, N>(m1),
        wf::<H, N>(m2),
        forall|z: Array<N>| #[trigger] ext(m1, z) == ext(m2, z),
    ensures
        m1 == m2, // [C09 C13]
{
    broadcast use lemma_indeg_ext;
    assert forall|x: Array<N>| m1.contains_key(x) == m2.contains_key(x) && (m1.contains_key(x) ==> m1[x].node == m2[x].node) by {
        if m1.contains_key(x) {
            assert(entry_ok::<H, N>(m1, x));
            if rank::<H, N>(m1, x) < 0 { assert(false) by { assert(wg(tree_of::<H, N>(x))); } }
            lemma_reached::<H, N>(m1, m2, x, rank::<H, N>(m1, x) as nat);
        }
        if m2.contains_key(x) {
            assert(entry_ok::<H, N>(m2, x));
            if rank::<H, N>(m2, x) < 0 { assert(false) by { assert(wg(tree_of::<H, N>(x))); } }
            lemma_reached::<H, N>(m2, m1, x, rank::<H, N>(m2, x) as nat);
        }
    }
    assert forall|x: Array<N>| m1.contains_key(x) implies m1[x] == m2[x] by {
        assert(parents(m1, x) =~= parents(m2, x));
        assert(ext(m1, x) == ext(m2, x));
    }
    assert(m1 =~= m2);
}

/// Once every root has been removed the store is empty.
pub proof fn theorem_nothing_left<H: Hasher<N>, const N: usize>(m: Store<N>)
    requires wf::<H, N>(m), exact(m, seq![]),
    ensures m == Store::<N>::empty(), // [C13]
{
    broadcast use lemma_indeg_ext;
    broadcast use group_cnt;
    let e = Store::<N>::empty();
    lemma_nothing_stored::<H, N>();
    assert forall|z: Array<N>| #[trigger] ext(m, z) == ext(e, z) by {
        assert(cnt(Seq::<Array<N>>::empty(), z) == ext(m, z));
        assert(parents(e, z) =~= Set::empty());
    }
    theorem_counts_determine_store::<H, N>(m, e);
}

// ---- C16: what a stored branch says about itself
pub open spec fn keys_of<const N: usize>(t: T<N>) -> Set<Array<N>>
    decreases t
{
    match t {
        T::Leaf { key, value } => Set::empty().insert(key),
        T::Branch { split, l, r } => keys_of(*l).union(keys_of(*r)),
    }
}

pub proof fn lemma_keys_of<const N: usize>(t: T<N>)
    requires wg(t),
    ensures
        forall|k: Array<N>| #[trigger] keys_of(t).contains(k) == (lookup(t, k) is Some),
        keys_of(t).len() == size(t),
    decreases t,
{
    match t {
        T::Leaf { key, value } => {},
        T::Branch { split, l, r } => {
            lemma_keys_of(*l);
            lemma_keys_of(*r);
            assert forall|k: Array<N>| #[trigger] lookup(*l, k) is Some implies !bit(k, split) by { lemma_member(*l, k); }
            assert forall|k: Array<N>| #[trigger] lookup(*r, k) is Some implies bit(k, split) by { lemma_member(*r, k); }
            assert(keys_of(*l).disjoint(keys_of(*r))) by {
                assert forall|k: Array<N>| !(keys_of(*l).contains(k) && keys_of(*r).contains(k)) by {
                    if keys_of(*l).contains(k) && keys_of(*r).contains(k) {
                        assert(lookup(*l, k) is Some);
                        assert(lookup(*r, k) is Some);
                        lemma_member(*l, k);
                        lemma_member(*r, k);
                        assert(bit(k, split) == bit(tkey(*l), split));
                        assert(bit(k, split) == bit(tkey(*r), split));
                    }
                }
            }
            vstd::set_lib::lemma_set_disjoint_lens(keys_of(*l), keys_of(*r));
        },
    }
}

pub proof fn theorem_branch_metadata<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc), m[loc].node is Branch,
    ensures
        ({
            let t = tree_of::<H, N>(loc);
            let n = m[loc].node;
            let s = n->split as int;
            // the number of keys
            &&& n->count as nat == keys_of(t).len()
            &&& forall|k: Array<N>| #[trigger] keys_of(t).contains(k) == (content::<H, N>(loc, k) is Some)
            // the smallest key
            &&& content::<H, N>(loc, n->Branch_key) is Some
            &&& forall|k: Array<N>| content::<H, N>(loc, k) is Some ==> kle(n->Branch_key, k)
            // the first bit at which they differ
            &&& forall|k: Array<N>, i: int| content::<H, N>(loc, k) is Some && 0 <= i < s ==> #[trigger] bit(k, i) == bit(n->Branch_key, i)
            &&& exists|a: Array<N>| content::<H, N>(loc, a) is Some && !bit(a, s)
            &&& exists|b: Array<N>| content::<H, N>(loc, b) is Some && bit(b, s)
            // who is where
            &&& forall|k: Array<N>| #[trigger] content::<H, N>(loc, k) == if bit(k, s) { content::<H, N>(n->one, k) } else { content::<H, N>(n->zero, k) }
            &&& m.contains_key(n->zero) && m.contains_key(n->one)
        }), // [C16]
{
    assert(entry_ok::<H, N>(m, loc));
    let t = tree_of::<H, N>(loc);
    lemma_at_branch::<H, N>(m, loc);
    lemma_keys_of(t);
    match t {
        T::Branch { split, l, r } => {
            lemma_tree_of::<H, N>(*l);
            lemma_tree_of::<H, N>(*r);
            lemma_tkey(t);
            lemma_tkey(*l);
            lemma_tkey(*r);
            assert(content::<H, N>(loc, tkey(*l)) is Some && !bit(tkey(*l), split));
            assert(content::<H, N>(loc, tkey(*r)) is Some && bit(tkey(*r), split));
            assert forall|k: Array<N>| content::<H, N>(loc, k) is Some implies kle(tkey(t), k) by { lemma_tkey_min(t, k); }
            assert forall|k: Array<N>, i: int| content::<H, N>(loc, k) is Some && 0 <= i < split implies #[trigger] bit(k, i) == bit(tkey(t), i) by { lemma_member(t, k); }
            assert(child(m[loc].node, m[loc].node->zero));
            assert(child(m[loc].node, m[loc].node->one));
        },
        _ => {},
    }
}

// ---- C17: where nodes are stored
pub proof fn theorem_addresses<H: Hasher<N>, const N: usize>(m: Store<N>, loc: Array<N>)
    requires wf::<H, N>(m), m.contains_key(loc),
    ensures
        match m[loc].node {
            ANode::Data { value } => exists|key: Array<N>| loc == H::digest(#[trigger] data_pre(key, value)),
            ANode::Leaf { key, data } => loc == H::digest(leaf_pre(key, data)),
            ANode::Branch { count, zero, one, split, key } => loc == H::digest(branch_pre(zero, one)),
        }, // [C17]
        m[loc].node matches ANode::Leaf { key, data } ==> m.contains_key(data) && m[data].node is Data && data == H::digest(data_pre(key, m[data].node->value)), // [C17]
{
    assert(entry_ok::<H, N>(m, loc));
    match m[loc].node {
        ANode::Data { value } => {
            let key = choose|key: Array<N>| #[trigger] names_data::<H, N>(key, value, loc);
            assert(loc == H::digest(data_pre(key, value)));
        },
        ANode::Leaf { .. } => { lemma_at_leaf::<H, N>(m, loc); },
        ANode::Branch { .. } => { lemma_at_branch::<H, N>(m, loc); },
    }
}

// ---- C20: a rejected insert
fn theorem_rejected<M: MerkleTree<N>, const N: usize>(t: &mut MerkleBIT<M, N>, prev: Option<&Array<N>>, keys: &mut [Array<N>], values: &[M::Value], held: Ghost<Seq<Array<N>>>)
    requires
        tinv(*old(t)),
        calm(*old(t)),
        kept_safe(*old(t), held@),
        old(keys)@.len() < u32::MAX,
        prev is Some && is_root::<M::Hasher, N>(old(t).db.v_store(), *prev->0) ==> old(keys)@.len() + size(tree_of::<M::Hasher, N>(*prev->0)) <= u32::MAX,
        // why it has to be rejected
        old(keys)@.len() != values@.len() || old(keys)@.len() == 0 || !old(keys)@.no_duplicates()
            || (prev is Some && !is_root::<M::Hasher, N>(old(t).db.v_store(), *prev->0)
                && forall|i: int| 0 <= i < values@.len() ==> *prev->0 != leaf_loc::<M::Hasher, N>(old(keys)@[i], (#[trigger] values@[i]).enc())),
{
    let r = theorem_insert(t, prev, keys, values, held);
    assert(r is Err); // [C20]
    assert(holding::<M::Hasher, N>(t.db.v_store(), held@)); // [C20]
}

// ---- C10: on a working database what is asked for is done
fn theorem_no_spurious_errors<const N: usize>(t: &mut HashTree<N>, prev: Option<&Array<N>>, keys: &mut [Array<N>], values: &[Vec<u8>], i: usize, key: &Array<N>, request: &mut [Array<N>])
    requires
        tinv(old(t).tree),
        old(request)@.len() <= u32::MAX,
        old(t).tree.db.healthy(),
        0 < old(keys)@.len() < u32::MAX,
        old(keys)@.no_duplicates(),
        old(keys)@.len() == values@.len(),
        i < old(keys)@.len(),
        *key == old(keys)@[i as int],
        old(t).tree.depth > 8 * N,
        prev is Some ==> is_root::<TreeHasher, N>(old(t).tree.db.v_store(), *prev->0) && old(keys)@.len() + size(tree_of::<TreeHasher, N>(*prev->0)) <= u32::MAX,
{
    proof {
        if prev is Some {
            assert(entry_ok::<TreeHasher, N>(t.tree.db.v_store(), *prev->0));
            lemma_height(tree_of::<TreeHasher, N>(*prev->0), *key);
        }
    }
    let ghost m = t.tree.db.v_store();
    let r = t.insert(prev, keys, values);
    assert(r is Ok); // [C10]
    if let Ok(root) = r {
        proof {
            assert(entry_ok::<TreeHasher, N>(t.tree.db.v_store(), root));
            lemma_height(tree_of::<TreeHasher, N>(root), *key);
            broadcast use lemma_indeg_ext;
            broadcast use group_cnt;
            lemma_ext_nonneg::<TreeHasher, N>(m, root);
            assert(ext(t.tree.db.v_store(), root) == ext(m, root) + cnt(seq![root], root) - cnt(Seq::<Array<N>>::empty(), root));
        }
        let one = t.get_one(&root, key);
        assert(one is Ok); // [C10]
        let all = t.get(&root, request);
        assert(all is Ok); // [C10]
        let p = t.generate_inclusion_proof(&root, *key);
        assert(p is Ok); // [C10]
        let d = t.remove(&root);
        assert(d is Ok); // [C10]
    }
}

/// C21: whatever the pieces, the location is the digest of their concatenation.
pub open spec fn concat(p: Seq<Vec<u8>>) -> Seq<u8>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else { concat(p.drop_last()) + p.last()@ }
}
pub fn theorem_hash_of_the_concatenation<const N: usize>(parts: &Vec<Vec<u8>>) -> (r: Array<N>)
    ensures
        r == <TreeHasher as Hasher<N>>::digest(concat(parts@)), // [C21]
        forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == (if i < 8 { (sip(concat(parts@)) >> (8 * i) as u64) as u8 } else { 0 }), // [C21]
{
    let mut h = <TreeHasher as Hasher<N>>::new(N);
    let mut i = 0;
    while i < parts.len()
        invariant
            0 <= i <= parts.len(),
            <TreeHasher as Hasher<N>>::fed(&h) == concat(parts@.take(i as int)),
        decreases parts.len() - i,
    {
        <TreeHasher as Hasher<N>>::update(&mut h, parts[i].as_slice());
        proof {
            assert(parts@.take(i + 1).drop_last() =~= parts@.take(i as int));
        }
        i += 1;
    }
    proof { assert(parts@.take(i as int) =~= parts@); }
    <TreeHasher as Hasher<N>>::finalize(h)
}

// ---- C15: after a restart, orderly or not, a root that is held reads as before
fn theorem_restart<const N: usize>(t: &RocksTree<N, Vec<u8>>, path: &VxPath, depth: usize, held: Ghost<Seq<Array<N>>>, i: Ghost<int>, root: &Array<N>, k: &Array<N>)
    requires
        tinv(t.tree),
        kept_safe(t.tree, held@),
        0 <= i@ < held@.len(),
        held@[i@] == *root,
        // the disk was not touched in between
        forall|d: DB| #[trigger] left_at(path, d) ==> on_disk::<N>(d) == on_disk::<N>(t.tree.db.db),
{
    let before = t.get_one(root, k);
    let again: Result<RocksTree<N, Vec<u8>>, Exception> = RocksTree::open(path, depth);
    if let Ok(t2) = again {
        proof {
            assert(is_root::<TreeHasher, N>(t.tree.db.v_store(), held@[i@]));
            assert(t2.tree.db.v_store() == t.tree.db.v_durable());
            assert(is_root::<TreeHasher, N>(t2.tree.db.v_store(), held@[i@]));
        }
        assert(tinv(t2.tree)); // [C15]
        assert(kept_safe(t2.tree, held@)); // [C15]
        let after = t2.get_one(root, k);
        if let Ok(a) = before {
            if let Ok(b) = after {
                assert(a is Some == b is Some && (a is Some ==> a->0@ == b->0@)); // [C15]
                assert(a is Some ==> content::<TreeHasher, N>(*root, *k) == Some(a->0@)); // [C15]
            }
        }
    }
}
