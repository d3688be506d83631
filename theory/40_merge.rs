// ---------------------------------------------------------------- building the new tree
/// Which boundaries have been merged, when those at bit `d` have been up to number `i`.
pub open spec fn marks(bs: Seq<int>, d: int, i: int) -> Seq<bool> {
    Seq::new(bs.len(), |j: int| bs[j] > d || (bs[j] == d && j < i))
}

/// All boundaries are gone.
#[verifier::opaque]
pub open spec fn whole(mk: Seq<bool>) -> bool {
    forall|j: int| 0 <= j < mk.len() ==> #[trigger] mk[j]
}

pub open spec fn seg_start(mk: Seq<bool>, a: int) -> bool {
    a == 0 || !mk[a - 1]
}

pub open spec fn seg_end(mk: Seq<bool>, e: int) -> bool {
    e == mk.len() || !mk[e]
}

/// From `a` to `e` everything has been merged, and nothing beyond.
pub open spec fn seg(mk: Seq<bool>, a: int, e: int) -> bool {
    &&& 0 <= a <= e <= mk.len()
    &&& seg_start(mk, a)
    &&& seg_end(mk, e)
    &&& forall|j: int| a <= j < e ==> #[trigger] mk[j]
}

/// The pointers lead from `y` to the right end.
pub open spec fn chain<const N: usize>(rs: Seq<TreeRef<N>>, a: int, y: int, e: int) -> bool
    decreases e - y
{
    &&& a <= y <= e < rs.len()
    &&& if y == e {
        rs[y].count == e - a + 1
    } else {
        &&& y - a + 1 < rs[y].count <= e - a + 1
        &&& chain(rs, a, a + rs[y].count - 1, e)
    }
}

pub open spec fn rtree<H: Hasher<N>, const N: usize>(r: TreeRef<N>) -> T<N> {
    tree_of::<H, N>(r.location)
}

/// What the parts from `a` to `e` hold for the key.
pub open spec fn seglook<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, e: int, k: Array<N>) -> Option<Seq<u8>>
    decreases e - a + 1
{
    if e < a {
        None
    } else if lookup(rtree::<H, N>(r0[e]), k) is Some {
        lookup(rtree::<H, N>(r0[e]), k)
    } else {
        seglook::<H, N>(r0, a, e - 1, k)
    }
}

pub open spec fn psum<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, e: int) -> nat
    decreases e - a + 1
{
    if e < a { 0 } else { psum::<H, N>(r0, a, e - 1) + size(rtree::<H, N>(r0[e])) }
}

/// The parts from `a` to `e` have become one tree, kept at `e`.
pub open spec fn segok<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, bs: Seq<int>, rs: Seq<TreeRef<N>>, a: int, e: int) -> bool {
    let t = rtree::<H, N>(rs[e]);
    &&& is_tree::<H, N>(rs[e].location)
    &&& rs[e].key == tkey(t)
    &&& rs[e].node_count as nat == size(t)
    &&& size(t) == psum::<H, N>(r0, a, e)
    &&& chain(rs, a, a, e)
    &&& forall|k: Array<N>| #[trigger] lookup(t, k) == seglook::<H, N>(r0, a, e, k)
    &&& a > 0 ==> level(t) > bs[a - 1]
    &&& e < bs.len() ==> level(t) > bs[e]
}

#[verifier::opaque]
pub open spec fn segs_ok<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, rs: Seq<TreeRef<N>>, mk: Seq<bool>) -> bool {
    forall|a: int, e: int| #[trigger] seg(mk, a, e) ==> segok::<H, N>(r0, bounds(r0), rs, a, e)
}

/// How many of the trees built so far are at `x`.
#[verifier::opaque]
pub open spec fn hold<const N: usize>(rs: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, x: Array<N>) -> nat
    decreases n
{
    if n <= 0 { 0 } else { hold(rs, mk, n - 1, x) + if seg_end(mk, n - 1) && rs[n - 1].location == x { 1nat } else { 0 } }
}

/// The parts to start from.
#[verifier::opaque]
pub open spec fn base<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>) -> bool {
    &&& 0 < r0.len() <= u32::MAX
    &&& psum::<H, N>(r0, 0, r0.len() - 1) <= u64::MAX
    &&& forall|i: int| 0 <= i < r0.len() ==> tref_shape::<H, N>(#[trigger] r0[i])
    &&& forall|i: int, j: int| 0 <= i < j < r0.len() ==> klt((#[trigger] r0[i]).key, (#[trigger] r0[j]).key)
    &&& forall|i: int, j: int| 0 <= i < j < r0.len() ==> sep(rtree::<H, N>(#[trigger] r0[i]), rtree::<H, N>(#[trigger] r0[j]))
}

/// The state of the construction.
#[verifier::opaque]
pub open spec fn building<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, mk: Seq<bool>) -> bool {
    &&& base::<H, N>(r0)
    &&& rs.len() == r0.len()
    &&& mk.len() == r0.len() - 1
    &&& segs_ok::<H, N>(r0, rs, mk)
    &&& forall|x: Array<N>| #[trigger] ext(m, x) == ext(m0, x) - cnt(locs(r0), x) + hold(rs, mk, r0.len() as int, x)
    &&& forall|x: Array<N>| cnt(locs(r0), x) <= #[trigger] ext(m0, x)
}

// ---- facts
pub proof fn lemma_bound<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, i: int)
    requires base::<H, N>(r0), 0 <= i < r0.len() - 1,
    ensures
        is_diff(r0[i].key, r0[i + 1].key, bounds(r0)[i]),
        !bit(r0[i].key, bounds(r0)[i]),
        bit(r0[i + 1].key, bounds(r0)[i]),
        0 <= bounds(r0)[i] < 8 * N,
{
    reveal(base);
    assert(klt(r0[i].key, r0[i + 1].key));
    let d = choose|d: int| #[trigger] is_diff(r0[i].key, r0[i + 1].key, d) && !bit(r0[i].key, d);
    lemma_diff(r0[i].key, r0[i + 1].key, d);
}

pub proof fn lemma_seglook_has<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, e: int, j: int, k: Array<N>)
    requires a <= j <= e, lookup(rtree::<H, N>(r0[j]), k) is Some,
    ensures seglook::<H, N>(r0, a, e, k) is Some,
    decreases e - a,
{
    if j < e { lemma_seglook_has::<H, N>(r0, a, e - 1, j, k); }
}

pub proof fn lemma_seglook_split<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, i: int, e: int, k: Array<N>)
    requires a <= i + 1, i <= e,
    ensures
        seglook::<H, N>(r0, a, e, k) == if seglook::<H, N>(r0, i + 1, e, k) is Some { seglook::<H, N>(r0, i + 1, e, k) } else { seglook::<H, N>(r0, a, i, k) },
        psum::<H, N>(r0, a, e) == psum::<H, N>(r0, a, i) + psum::<H, N>(r0, i + 1, e),
    decreases e - i,
{
    if i < e { lemma_seglook_split::<H, N>(r0, a, i, e - 1, k); }
}

pub proof fn lemma_seg_exists(mk: Seq<bool>, a: int) -> (e: int)
    requires 0 <= a <= mk.len(), seg_start(mk, a),
    ensures seg(mk, a, e),
{
    lemma_seg_right(mk, a, a)
}

pub proof fn lemma_seg_right(mk: Seq<bool>, a: int, y: int) -> (e: int)
    requires 0 <= a <= y <= mk.len(), seg_start(mk, a), forall|j: int| a <= j < y ==> #[trigger] mk[j],
    ensures seg(mk, a, e),
    decreases mk.len() - y,
{
    if seg_end(mk, y) { y } else { lemma_seg_right(mk, a, y + 1) }
}

pub proof fn lemma_seg_left(mk: Seq<bool>, y: int, e: int) -> (a: int)
    requires 0 <= y <= e <= mk.len(), seg_end(mk, e), forall|j: int| y <= j < e ==> #[trigger] mk[j],
    ensures seg(mk, a, e),
    decreases y,
{
    if seg_start(mk, y) { y } else { lemma_seg_left(mk, y - 1, e) }
}

pub proof fn lemma_chain_frame<const N: usize>(rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, a: int, y: int, e: int)
    requires
        chain(rs, a, y, e),
        rs2.len() == rs.len(),
        forall|j: int| a <= j <= e ==> #[trigger] rs2[j] == rs[j],
    ensures chain(rs2, a, y, e),
    decreases e - y,
{
    if y < e { lemma_chain_frame(rs, rs2, a, a + rs[y].count - 1, e); }
}

pub proof fn lemma_chain_extend<const N: usize>(rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, a: int, y: int, i: int, e: int)
    requires
        chain(rs, a, y, i),
        rs2.len() == rs.len(),
        i < e < rs.len(),
        forall|j: int| a <= j < i ==> #[trigger] rs2[j] == rs[j],
        rs2[i].count == e - a + 1,
        rs2[e].count == e - a + 1,
    ensures chain(rs2, a, y, e),
    decreases i - y,
{
    if y < i {
        assert(rs2[y] == rs[y]);
        lemma_chain_extend(rs, rs2, a, a + rs[y].count - 1, i, e);
    } else {
        assert(chain(rs2, a, e, e));
    }
}

/// The tree made of two neighbours.
pub open spec fn joined<H: Hasher<N>, const N: usize>(d: int, l: Array<N>, r: Array<N>) -> T<N> {
    T::Branch { split: d, l: Box::new(tree_of::<H, N>(l)), r: Box::new(tree_of::<H, N>(r)) }
}

/// The place where the parts on both sides of a boundary are found.
pub open spec fn at_boundary<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, mk: Seq<bool>, d: int, i: int, e: int) -> bool {
    &&& i + 1 <= e < rs.len()
    &&& beyond(mk, i, e)
    &&& chain(rs, i + 1, i + 1, e)
    &&& 0 <= d < 8 * N
    &&& rs.len() <= u32::MAX
    &&& rs[i].node_count + rs[e].node_count <= u64::MAX
    &&& rs[i].count + rs[e].count <= u32::MAX
    &&& joinable::<H, N>(m, rs[i], rs[e], d)
}

#[verifier::opaque]
pub open spec fn beyond(mk: Seq<bool>, i: int, e: int) -> bool {
    seg(mk, i + 1, e)
}

/// What can be made of two neighbours.
#[verifier::opaque]
pub open spec fn joinable<H: Hasher<N>, const N: usize>(m: Store<N>, x: TreeRef<N>, y: TreeRef<N>, d: int) -> bool {
    let l = x.location;
    let r = y.location;
    let t = joined::<H, N>(d, l, r);
    let b = H::digest(branch_pre(l, r));
    &&& l != r
    &&& is_root::<H, N>(m, l) && is_root::<H, N>(m, r)
    &&& ext(m, l) >= 1 && ext(m, r) >= 1
    &&& H::hashed(branch_pre(l, r)) ==> {
        &&& valid::<H, N>(t)
        &&& hash::<H, N>(t) == b
        &&& is_tree::<H, N>(b)
        &&& tree_of::<H, N>(b) == t
        &&& b != l && b != r
        &&& forall|c: u64, s: usize| c == x.node_count + y.node_count && s == d ==>
            #[trigger] node_ok::<H, N>(b, ANode::Branch { count: c, zero: l, one: r, split: s, key: x.key })
        &&& m.contains_key(b) ==> {
            &&& m[b].node is Branch && m[b].node->zero == l && m[b].node->one == r
            &&& indeg(m, l) >= 1 && indeg(m, r) >= 1
        }
    }
}

/// The branch of two neighbours.
pub open spec fn branch_of<const N: usize>(x: TreeRef<N>, y: TreeRef<N>, d: int) -> ANode<N> {
    ANode::Branch { count: (x.node_count + y.node_count) as u64, zero: x.location, one: y.location, split: d as usize, key: x.key }
}

/// The branch is new.
pub proof fn lemma_new_branch<H: Hasher<N>, const N: usize>(m: Store<N>, x: TreeRef<N>, y: TreeRef<N>, d: int, n: RNode<N>)
    requires
        wf::<H, N>(m),
        joinable::<H, N>(m, x, y, d),
        x.node_count + y.node_count <= u64::MAX,
        0 <= d < 8 * N <= usize::MAX,
        H::hashed(branch_pre(x.location, y.location)),
        !m.contains_key(H::digest(branch_pre(x.location, y.location))),
        n.node == branch_of(x, y, d),
        n.refs == 1,
    ensures
        ({
            let b = H::digest(branch_pre(x.location, y.location));
            &&& put_ok::<H, N>(m, b, n)
            &&& joined_refs(m, m.insert(b, n), b, x.location, y.location)
        }),
{
    reveal(joinable);
    let b = H::digest(branch_pre(x.location, y.location));
    lemma_indeg_absent::<H, N>(m, b);
    lemma_put::<H, N>(m, b, n);
    assert forall|z: Array<N>| #[trigger] ext(m.insert(b, n), z) == ext(m, z) + b2i(b == z) - b2i(x.location == z) - b2i(y.location == z) by {
        assert(child(n.node, z) == (z == x.location || z == y.location));
    }
}

/// The branch is there already.
pub proof fn lemma_old_branch<H: Hasher<N>, const N: usize>(m: Store<N>, x: TreeRef<N>, y: TreeRef<N>, d: int, n: RNode<N>)
    requires
        wf::<H, N>(m),
        joinable::<H, N>(m, x, y, d),
        x.node_count + y.node_count <= u64::MAX,
        0 <= d < 8 * N <= usize::MAX,
        H::hashed(branch_pre(x.location, y.location)),
        m.contains_key(H::digest(branch_pre(x.location, y.location))),
        n.node == branch_of(x, y, d),
        n.refs == m[H::digest(branch_pre(x.location, y.location))].refs + 1,
    ensures
        ({
            let b = H::digest(branch_pre(x.location, y.location));
            let m2 = lowered(m, x.location);
            let m3 = lowered(m2, y.location);
            &&& indeg(m, x.location) >= 1
            &&& ext(m, x.location) >= 1
            &&& indeg(m2, y.location) >= 1
            &&& ext(m2, y.location) >= 1
            &&& put_ok::<H, N>(m3, b, n)
            &&& joined_refs(m, m3.insert(b, n), b, x.location, y.location)
        }),
{
    reveal(joinable);
    let l = x.location;
    let r = y.location;
    let b = H::digest(branch_pre(l, r));
    let m2 = lowered(m, l);
    let m3 = lowered(m2, r);
    lemma_lowered::<H, N>(m, l);
    lemma_parent_counts(m2, b, r);
    lemma_lowered::<H, N>(m2, r);
    assert(m3[b] == m[b]);
    assert(m3.contains_key(b));
    assert(entry_ok::<H, N>(m3, b));
    lemma_ext_nonneg::<H, N>(m3, b);
    lemma_put::<H, N>(m3, b, n);
    assert forall|z: Array<N>| #[trigger] ext(m3.insert(b, n), z) == ext(m, z) + b2i(b == z) - b2i(l == z) - b2i(r == z) by {
        assert(ext(m2, z) == ext(m, z) - b2i(l == z));
        assert(ext(m3, z) == ext(m2, z) - b2i(r == z));
    }
}

pub proof fn lemma_lowered<H: Hasher<N>, const N: usize>(m: Store<N>, l: Array<N>)
    requires wf::<H, N>(m), m.contains_key(l), ext(m, l) >= 1, indeg(m, l) >= 1,
    ensures
        wf::<H, N>(lowered(m, l)),
        forall|x: Array<N>| #[trigger] ext(lowered(m, l), x) == ext(m, x) - b2i(l == x),
{
    let n = RNode { refs: (m[l].refs - 1) as u64, node: m[l].node };
    assert(entry_ok::<H, N>(m, l));
    lemma_put::<H, N>(m, l, n);
}

/// The references after the merge.
pub open spec fn after_merge<const N: usize>(rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, i: int, e: int, b: Array<N>) -> bool {
    &&& rs2.len() == rs.len()
    &&& rs2[e].key == rs[i].key
    &&& rs2[e].location == b
    &&& rs2[e].node_count == rs[i].node_count + rs[e].node_count
    &&& rs2[e].count == rs[i].count + rs[e].count
    &&& rs2[i].count == rs2[e].count
    &&& forall|j: int| 0 <= j < rs.len() && j != i && j != e ==> #[trigger] rs2[j] == rs[j]
}

pub proof fn lemma_hold_bound<const N: usize>(rs: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, i: int, e: int, x: Array<N>)
    requires 0 <= i < e < n, seg_end(mk, i), seg_end(mk, e),
    ensures hold(rs, mk, n, x) >= (if rs[i].location == x { 1int } else { 0 }) + (if rs[e].location == x { 1int } else { 0 }),
    decreases n,
{
    reveal(hold);
    if e < n - 1 { lemma_hold_bound(rs, mk, n - 1, i, e, x); } else { lemma_hold_one(rs, mk, n - 1, i, x); }
}

pub proof fn lemma_hold_one<const N: usize>(rs: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, i: int, x: Array<N>)
    requires 0 <= i < n, seg_end(mk, i),
    ensures hold(rs, mk, n, x) >= (if rs[i].location == x { 1int } else { 0 }),
    decreases n,
{
    reveal(hold);
    if i < n - 1 { lemma_hold_one(rs, mk, n - 1, i, x); }
}

pub proof fn lemma_hold_step<const N: usize>(rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, i: int, e: int, b: Array<N>, x: Array<N>)
    requires
        0 <= i < e <= mk.len(), i < mk.len(), mk.len() + 1 == rs.len(), 0 <= n <= rs.len(),
        !mk[i], seg_end(mk, e), after_merge(rs, rs2, i, e, b),
    ensures
        hold(rs2, mk.update(i, true), n, x) == hold(rs, mk, n, x)
            - (if i < n && rs[i].location == x { 1int } else { 0 })
            - (if e < n && rs[e].location == x { 1int } else { 0 })
            + (if e < n && b == x { 1int } else { 0 }),
    decreases n,
{
    reveal(hold);
    if n > 0 {
        lemma_hold_step(rs, rs2, mk, n - 1, i, e, b, x);
        let mk2 = mk.update(i, true);
        if n - 1 != i && n - 1 != e { assert(rs2[n - 1] == rs[n - 1]); assert(seg_end(mk2, n - 1) == seg_end(mk, n - 1)); }
    }
}

/// What is found at the next boundary.
pub proof fn lemma_at_boundary<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, d: int, i: int) -> (e: int)
    requires
        wf::<H, N>(m),
        building::<H, N>(m0, r0, m, rs, marks(bounds(r0), d, i)),
        0 <= i < r0.len() - 1,
        bounds(r0)[i] == d,
    ensures at_boundary::<H, N>(r0, m, rs, marks(bounds(r0), d, i), d, i, e),
{
    reveal(beyond);
    reveal(joinable);
    reveal(building);
    let bs = bounds(r0);
    let n = r0.len() as int;
    let mk = marks(bs, d, i);
    lemma_bound::<H, N>(r0, i);
    assert(!mk[i]);
    let e = lemma_seg_exists(mk, i + 1);
    let a = lemma_seg_left(mk, i, i);
    reveal(segs_ok);
    assert(segok::<H, N>(r0, bs, rs, i + 1, e));
    assert(segok::<H, N>(r0, bs, rs, a, i));
    let l = rs[i].location;
    let r = rs[e].location;
    let lt = tree_of::<H, N>(l);
    let rt = tree_of::<H, N>(r);
    lemma_seg_ends::<H, N>(r0, a, i);
    lemma_seg_ends::<H, N>(r0, i + 1, e);
    lemma_member(lt, r0[i].key);
    lemma_member(rt, r0[i + 1].key);
    assert(bit(tkey(lt), d) == bit(r0[i].key, d));
    assert(bit(tkey(rt), d) == bit(r0[i + 1].key, d));
    assert(agree(tkey(lt), tkey(rt), d)) by {
        assert forall|j: int| 0 <= j < d implies bit(tkey(lt), j) == bit(tkey(rt), j) by {
            assert(bit(r0[i].key, j) == bit(tkey(lt), j));
            assert(bit(r0[i + 1].key, j) == bit(tkey(rt), j));
            assert(bit(r0[i].key, j) == bit(r0[i + 1].key, j));
        }
    }
    // sizes
    lemma_seglook_split::<H, N>(r0, a, i, e, r0[i].key);
    lemma_seglook_split::<H, N>(r0, 0, a - 1, e, r0[i].key);
    lemma_seglook_split::<H, N>(r0, 0, e, n - 1, r0[i].key);
    assert(psum::<H, N>(r0, 0, n - 1) <= u64::MAX && n <= u32::MAX) by { reveal(base); }
    lemma_chain_end(rs, a, a, i);
    lemma_chain_end(rs, i + 1, i + 1, e);
    // references
    lemma_hold_bound(rs, mk, n, i, e, l);
    lemma_hold_bound(rs, mk, n, i, e, r);
    assert(cnt(locs(r0), l) <= ext(m0, l));
    assert(cnt(locs(r0), r) <= ext(m0, r));
    assert(ext(m, l) >= 1);
    assert(ext(m, r) >= 1);
    lemma_ext_nonneg::<H, N>(m, l);
    lemma_ext_nonneg::<H, N>(m, r);
    lemma_at_tree::<H, N>(m, lt);
    lemma_at_tree::<H, N>(m, rt);
    if H::hashed(branch_pre(l, r)) {
        let t = joined::<H, N>(d, l, r);
        let b = H::digest(branch_pre(l, r));
        assert(valid::<H, N>(t));
        assert(hash::<H, N>(t) == b);
        lemma_tree_of::<H, N>(t);
        assert forall|c: u64, s: usize| c == rs[i].node_count + rs[e].node_count && s == d implies
            #[trigger] node_ok::<H, N>(b, ANode::Branch { count: c, zero: l, one: r, split: s, key: rs[i].key }) by {}
        lemma_size(lt);
        lemma_size(rt);
        assert(weight(t) > weight(lt) && weight(t) > weight(rt));
        if m.contains_key(b) {
            lemma_at_tree::<H, N>(m, t);
            lemma_parent_counts(m, b, l);
            lemma_parent_counts(m, b, r);
        }
    }
    e
}

pub proof fn lemma_chain_end<const N: usize>(rs: Seq<TreeRef<N>>, a: int, y: int, e: int)
    requires chain(rs, a, y, e),
    ensures rs[e].count == e - a + 1,
    decreases e - y,
{
    if y < e { lemma_chain_end(rs, a, a + rs[y].count - 1, e); }
}

/// The first and the last part are in the segment.
pub proof fn lemma_seg_ends<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, e: int)
    requires base::<H, N>(r0), 0 <= a <= e < r0.len(),
    ensures
        seglook::<H, N>(r0, a, e, r0[a].key) is Some,
        seglook::<H, N>(r0, a, e, r0[e].key) is Some,
{
    reveal(base);
    assert(tref_shape::<H, N>(r0[a]) && tref_shape::<H, N>(r0[e]));
    lemma_tkey(rtree::<H, N>(r0[a]));
    lemma_tkey(rtree::<H, N>(r0[e]));
    lemma_seglook_has::<H, N>(r0, a, e, a, r0[a].key);
    lemma_seglook_has::<H, N>(r0, a, e, e, r0[e].key);
}

/// Two neighbours become one.
pub proof fn lemma_merge<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, d: int, i: int, e: int)
    requires
        building::<H, N>(m0, r0, m, rs, marks(bounds(r0), d, i)),
        0 <= i < r0.len() - 1,
        bounds(r0)[i] == d,
        at_boundary::<H, N>(r0, m, rs, marks(bounds(r0), d, i), d, i, e),
        H::hashed(branch_pre(rs[i].location, rs[e].location)),
        after_merge(rs, rs2, i, e, H::digest(branch_pre(rs[i].location, rs[e].location))),
    ensures
        segs_ok::<H, N>(r0, rs2, marks(bounds(r0), d, i + 1)),
{
    reveal(beyond);
    reveal(joinable);
    reveal(building);
    let bs = bounds(r0);
    let mk = marks(bs, d, i);
    let mk2 = marks(bs, d, i + 1);
    assert(mk2 =~= mk.update(i, true));
    assert(!mk[i]);
    reveal(segs_ok);
    assert forall|a2: int, e2: int| #[trigger] seg(mk2, a2, e2) implies segok::<H, N>(r0, bs, rs2, a2, e2) by {
        if a2 <= i < e2 {
            assert(seg(mk, a2, i)) by { assert forall|j: int| a2 <= j < i implies #[trigger] mk[j] by { assert(mk2[j]); } }
            assert(seg(mk, i + 1, e2)) by { assert forall|j: int| i + 1 <= j < e2 implies #[trigger] mk[j] by { assert(mk2[j]); } }
            lemma_seg_unique(mk, i + 1, e, e2);
            lemma_merged::<H, N>(r0, bs, m, rs, rs2, mk, d, a2, i, e);
        } else {
            assert(seg(mk, a2, e2)) by { assert forall|j: int| a2 <= j < e2 implies #[trigger] mk[j] by { assert(mk2[j]); } }
            assert(segok::<H, N>(r0, bs, rs, a2, e2));
            if a2 <= e <= e2 {
                // the same segment as the right one
                if a2 < i + 1 { assert(mk2[i]); assert(false); }
                if a2 > i + 1 { assert(mk[a2 - 1]); }
                assert(a2 == i + 1);
                assert(mk2[i]);
                assert(false);
            }
            assert(!(a2 <= i <= e2)) by { if i == e2 { assert(mk2[i]); } }
            assert forall|j: int| a2 <= j <= e2 implies #[trigger] rs2[j] == rs[j] by {}
            lemma_chain_frame(rs, rs2, a2, a2, e2);
        }
    }
}

/// The references held when two trees have been joined.
pub open spec fn joined_refs<const N: usize>(m: Store<N>, m2: Store<N>, b: Array<N>, l: Array<N>, r: Array<N>) -> bool {
    forall|x: Array<N>| #[trigger] ext(m2, x) == ext(m, x) + b2i(b == x) - b2i(l == x) - b2i(r == x)
}

/// The references still held while two trees are joined.
pub open spec fn slack<const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, l: Array<N>, r: Array<N>) -> bool {
    forall|x: Array<N>| #[trigger] ext(m, x) >= ext(m0, x) - cnt(locs(r0), x) + b2i(l == x) + b2i(r == x)
}

pub proof fn lemma_slack<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, d: int, i: int, e: int)
    requires
        building::<H, N>(m0, r0, m, rs, marks(bounds(r0), d, i)),
        0 <= i < r0.len() - 1,
        bounds(r0)[i] == d,
        i + 1 <= e < rs.len(),
        beyond(marks(bounds(r0), d, i), i, e),
    ensures slack(m0, r0, m, rs[i].location, rs[e].location),
{
    reveal(beyond);
    reveal(joinable);
    reveal(building);
    let mk = marks(bounds(r0), d, i);
    assert(!mk[i]);
    assert forall|x: Array<N>| #[trigger] ext(m, x) >= ext(m0, x) - cnt(locs(r0), x) + b2i(rs[i].location == x) + b2i(rs[e].location == x) by {
        lemma_hold_bound(rs, mk, r0.len() as int, i, e, x);
    }
}

/// One more boundary is gone.
pub proof fn lemma_joined<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, m2: Store<N>, rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, d: int, i: int, e: int)
    requires
        building::<H, N>(m0, r0, m, rs, marks(bounds(r0), d, i)),
        0 <= i < r0.len() - 1,
        bounds(r0)[i] == d,
        at_boundary::<H, N>(r0, m, rs, marks(bounds(r0), d, i), d, i, e),
        H::hashed(branch_pre(rs[i].location, rs[e].location)),
        after_merge(rs, rs2, i, e, H::digest(branch_pre(rs[i].location, rs[e].location))),
        joined_refs(m, m2, H::digest(branch_pre(rs[i].location, rs[e].location)), rs[i].location, rs[e].location),
    ensures
        building::<H, N>(m0, r0, m2, rs2, marks(bounds(r0), d, i + 1)),
        whole(marks(bounds(r0), d, i + 1)) ==> e == r0.len() - 1,
{
    reveal(beyond);
    reveal(joinable);
    let bs = bounds(r0);
    let mk = marks(bs, d, i);
    let b = H::digest(branch_pre(rs[i].location, rs[e].location));
    lemma_merge::<H, N>(m0, r0, m, rs, rs2, d, i, e);
    reveal(building);
    assert(mk.update(i, true) =~= marks(bs, d, i + 1));
    assert forall|x: Array<N>| #[trigger] ext(m2, x) == ext(m0, x) - cnt(locs(r0), x) + hold(rs2, marks(bs, d, i + 1), r0.len() as int, x) by {
        assert(ext(m, x) == ext(m0, x) - cnt(locs(r0), x) + hold(rs, mk, r0.len() as int, x));
        lemma_hold_step(rs, rs2, mk, r0.len() as int, i, e, b, x);
    }
    reveal(whole);
    if whole(marks(bs, d, i + 1)) {
        if e < bs.len() { assert(marks(bs, d, i + 1)[e]); assert(!mk[e]); }
    }
}

pub proof fn lemma_seg_unique(mk: Seq<bool>, a: int, e: int, e2: int)
    requires seg(mk, a, e), seg(mk, a, e2),
    ensures e == e2,
{
    if e < e2 { assert(mk[e]); }
    if e2 < e { assert(mk[e2]); }
}

pub proof fn lemma_merged<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, bs: Seq<int>, m: Store<N>, rs: Seq<TreeRef<N>>, rs2: Seq<TreeRef<N>>, mk: Seq<bool>, d: int, a: int, i: int, e: int)
    requires
        base::<H, N>(r0),
        bs == bounds(r0),
        rs.len() == r0.len(),
        mk == marks(bs, d, i),
        0 <= i < bs.len(),
        bs[i] == d,
        seg(mk, a, i),
        seg(mk, i + 1, e),
        segok::<H, N>(r0, bs, rs, a, i),
        segok::<H, N>(r0, bs, rs, i + 1, e),
        at_boundary::<H, N>(r0, m, rs, mk, d, i, e),
        H::hashed(branch_pre(rs[i].location, rs[e].location)),
        after_merge(rs, rs2, i, e, H::digest(branch_pre(rs[i].location, rs[e].location))),
    ensures
        segok::<H, N>(r0, bs, rs2, a, e),
{
    reveal(beyond);
    reveal(joinable);
    let lt = rtree::<H, N>(rs[i]);
    let rt = rtree::<H, N>(rs[e]);
    let t = joined::<H, N>(d, rs[i].location, rs[e].location);
    assert(rtree::<H, N>(rs2[e]) == t);
    lemma_seglook_split::<H, N>(r0, a, i, e, r0[i].key);
    lemma_chain_end(rs, a, a, i);
    lemma_chain_end(rs, i + 1, i + 1, e);
    lemma_chain_extend(rs, rs2, a, a, i, e);
    assert forall|k: Array<N>| #[trigger] lookup(t, k) == seglook::<H, N>(r0, a, e, k) by {
        lemma_seglook_split::<H, N>(r0, a, i, e, k);
        lemma_side(t, k);
        assert(lookup(lt, k) == seglook::<H, N>(r0, a, i, k));
        assert(lookup(rt, k) == seglook::<H, N>(r0, i + 1, e, k));
    }
    if a > 0 {
        assert(!mk[a - 1]);
        assert(bs[a - 1] < d);
    }
    if e < bs.len() {
        assert(!mk[e]);
        if bs[e] >= d {
            assert(bs[e] == d);
            lemma_bound::<H, N>(r0, i);
            lemma_bound::<H, N>(r0, e);
            lemma_seg_ends::<H, N>(r0, i + 1, e);
            assert(lookup(rt, r0[i + 1].key) is Some);
            assert(lookup(rt, r0[e].key) is Some);
            lemma_member(rt, r0[i + 1].key);
            lemma_member(rt, r0[e].key);
            assert(bit(r0[i + 1].key, d) == bit(tkey(rt), d));
            assert(bit(r0[e].key, d) == bit(tkey(rt), d));
        }
    }
}

/// Every part is a tree of its own.
pub proof fn lemma_own<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int)
    requires base::<H, N>(r0), 0 <= a < r0.len(),
    ensures segok::<H, N>(r0, bounds(r0), r0, a, a),
{
    let bs = bounds(r0);
    let t = rtree::<H, N>(r0[a]);
    if a > 0 { lemma_beside::<H, N>(r0, a - 1); }
    if a < bs.len() { lemma_beside::<H, N>(r0, a); }
    assert(tref_shape::<H, N>(r0[a])) by { reveal(base); }
    assert(psum::<H, N>(r0, a, a) == size(t)) by { reveal_with_fuel(psum, 2); }
    assert forall|k: Array<N>| #[trigger] lookup(t, k) == seglook::<H, N>(r0, a, a, k) by { reveal_with_fuel(seglook, 2); }
}

/// Two neighbouring parts part below the bits both agree on.
pub proof fn lemma_beside<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, j: int)
    requires base::<H, N>(r0), 0 <= j < r0.len() - 1,
    ensures
        level(rtree::<H, N>(r0[j])) > bounds(r0)[j],
        level(rtree::<H, N>(r0[j + 1])) > bounds(r0)[j],
{
    lemma_bound::<H, N>(r0, j);
    reveal(base);
    assert(sep(rtree::<H, N>(r0[j]), rtree::<H, N>(r0[j + 1])));
    assert(tref_shape::<H, N>(r0[j]));
    assert(tref_shape::<H, N>(r0[j + 1]));
    assert(!agree(r0[j].key, r0[j + 1].key, level(rtree::<H, N>(r0[j]))));
    assert(!agree(r0[j].key, r0[j + 1].key, level(rtree::<H, N>(r0[j + 1]))));
}

// ---- beginning and end
pub proof fn lemma_begin<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>)
    requires
        base::<H, N>(r0),
        forall|x: Array<N>| cnt(locs(r0), x) <= #[trigger] ext(m0, x),
    ensures
        building::<H, N>(m0, r0, m0, r0, marks(bounds(r0), 8 * N as int, 0)),
{
    reveal(building);
    let bs = bounds(r0);
    let mk = marks(bs, 8 * N as int, 0);
    assert(r0.len() > 0) by { reveal(base); }
    assert forall|j: int| 0 <= j < mk.len() implies !#[trigger] mk[j] by { lemma_bound::<H, N>(r0, j); }
    assert(segs_ok::<H, N>(r0, r0, mk)) by {
        reveal(segs_ok);
        assert forall|a: int, e: int| #[trigger] seg(mk, a, e) implies segok::<H, N>(r0, bs, r0, a, e) by {
            if a < e { assert(mk[a]); }
            assert(r0.len() == bs.len() + 1);
            lemma_own::<H, N>(r0, a);
        }
    }
    assert forall|x: Array<N>| #[trigger] ext(m0, x) == ext(m0, x) - cnt(locs(r0), x) + hold(r0, mk, r0.len() as int, x) by {
        lemma_hold_all(r0, mk, r0.len() as int, x);
        assert(r0.subrange(0, r0.len() as int) =~= r0);
    }
}

pub proof fn lemma_hold_all<const N: usize>(rs: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, x: Array<N>)
    requires 0 <= n <= rs.len(), rs.len() == mk.len() + 1, forall|j: int| 0 <= j < mk.len() ==> !#[trigger] mk[j],
    ensures hold(rs, mk, n, x) == cnt(locs(rs.subrange(0, n)), x),
    decreases n,
{
    reveal(hold);
    reveal(cnt);
    reveal(locs);
    if n > 0 {
        lemma_hold_all(rs, mk, n - 1, x);
        assert(locs(rs.subrange(0, n)).drop_last() =~= locs(rs.subrange(0, n - 1)));
    }
}

pub proof fn lemma_hold_none<const N: usize>(rs: Seq<TreeRef<N>>, mk: Seq<bool>, n: int, x: Array<N>)
    requires 0 <= n <= mk.len(), forall|j: int| 0 <= j < mk.len() ==> #[trigger] mk[j],
    ensures hold(rs, mk, n, x) == 0,
    decreases n,
{
    reveal(hold);
    if n > 0 { lemma_hold_none(rs, mk, n - 1, x); }
}

/// All boundaries are merged.
pub proof fn lemma_end<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, mk: Seq<bool>)
    requires
        wf::<H, N>(m),
        building::<H, N>(m0, r0, m, rs, mk),
        whole(mk),
    ensures
        seg(mk, 0, r0.len() - 1),
        ({
            let root = rs[r0.len() - 1].location;
            &&& is_root::<H, N>(m, root)
            &&& size(tree_of::<H, N>(root)) == psize::<H, N>(r0)
            &&& forall|k: Array<N>| #[trigger] lookup(tree_of::<H, N>(root), k) == seglook::<H, N>(r0, 0, r0.len() - 1, k)
            &&& forall|x: Array<N>| #[trigger] ext(m, x) == ext(m0, x) - cnt(locs(r0), x) + if x == root { 1int } else { 0 }
        }),
{
    reveal(building);
    reveal(whole);
    let n = r0.len() as int;
    let root = rs[n - 1].location;
    assert(base::<H, N>(r0) && n > 0) by { reveal(base); }
    assert(seg(mk, 0, n - 1));
    lemma_psum_psize::<H, N>(r0, n - 1);
    assert(r0.subrange(0, n) =~= r0);
    assert(segok::<H, N>(r0, bounds(r0), rs, 0, n - 1)) by { reveal(segs_ok); }
    assert forall|x: Array<N>| #[trigger] ext(m, x) == ext(m0, x) - cnt(locs(r0), x) + if x == root { 1int } else { 0 } by {
        reveal(hold);
        lemma_hold_none(rs, mk, n - 1, x);
    }
    assert(cnt(locs(r0), root) <= ext(m0, root));
    assert(ext(m, root) >= 1);
    lemma_ext_nonneg::<H, N>(m, root);
    lemma_at_tree::<H, N>(m, tree_of::<H, N>(root));
}

// ---- the boundaries at one bit
/// The first `v` boundaries of the level have been merged: the position after the last one.
pub open spec fn upto(lv: Seq<(usize, usize, usize)>, v: int) -> int {
    if v <= 0 { 0 } else { lv[v - 1].1 + 1 }
}

pub proof fn lemma_level_of<const N: usize>(bs: Seq<int>, d: int, n: int)
    requires 0 <= n <= bs.len() < usize::MAX, 0 <= d < usize::MAX,
    ensures
        level_of(bs, d, n).len() <= n,
        forall|v: int| 0 <= v < level_of(bs, d, n).len() ==> {
            let it = #[trigger] level_of(bs, d, n)[v];
            &&& it.0 == d
            &&& it.1 < n
            &&& it.2 == it.1 + 1
            &&& bs[it.1 as int] == d
            &&& upto(level_of(bs, d, n), v) <= it.1
            &&& forall|j: int| upto(level_of(bs, d, n), v) <= j < it.1 ==> #[trigger] bs[j] != d
        },
        forall|j: int| upto(level_of(bs, d, n), level_of(bs, d, n).len() as int) <= j < n ==> #[trigger] bs[j] != d,
        0 <= upto(level_of(bs, d, n), level_of(bs, d, n).len() as int) <= n,
    decreases n,
{
    if n > 0 {
        lemma_level_of::<N>(bs, d, n - 1);
        let a = level_of(bs, d, n - 1);
        let b = level_of(bs, d, n);
        if bs[n - 1] == d {
            assert(b == a.push((d as usize, (n - 1) as usize, n as usize)));
            assert forall|v: int| 0 <= v < b.len() implies {
                let it = #[trigger] b[v];
                &&& it.0 == d
                &&& it.1 < n
                &&& it.2 == it.1 + 1
                &&& bs[it.1 as int] == d
                &&& upto(b, v) <= it.1
                &&& forall|j: int| upto(b, v) <= j < it.1 ==> #[trigger] bs[j] != d
            } by {
                assert(upto(b, v) == upto(a, v));
                if v < a.len() { assert(b[v] == a[v]); }
            }
        }
    }
}

/// The next boundary at the level.
pub proof fn lemma_level_at<const N: usize>(bs: Seq<int>, d: int, v: int)
    requires bs.len() < usize::MAX, 0 <= d < usize::MAX, 0 <= v < level_of(bs, d, bs.len() as int).len(),
    ensures
        ({
            let lv = level_of(bs, d, bs.len() as int);
            let it = lv[v];
            &&& it.0 == d
            &&& it.1 < bs.len()
            &&& it.2 == it.1 + 1
            &&& bs[it.1 as int] == d
            &&& upto(lv, v + 1) == it.1 + 1
            &&& upto(lv, v) <= it.1
            &&& marks(bs, d, upto(lv, v)) == marks(bs, d, it.1 as int)
        }),
{
    lemma_level_of::<N>(bs, d, bs.len() as int);
    let lv = level_of(bs, d, bs.len() as int);
    let it = lv[v];
    lemma_marks_skip(bs, d, upto(lv, v), it.1 as int);
}

/// After the last boundary at the level.
pub proof fn lemma_level_end<const N: usize>(bs: Seq<int>, d: int)
    requires bs.len() < usize::MAX, 0 <= d < usize::MAX,
    ensures
        marks(bs, d, upto(level_of(bs, d, bs.len() as int), level_of(bs, d, bs.len() as int).len() as int)) == marks(bs, d, bs.len() as int),
{
    lemma_level_of::<N>(bs, d, bs.len() as int);
    lemma_marks_skip(bs, d, upto(level_of(bs, d, bs.len() as int), level_of(bs, d, bs.len() as int).len() as int), bs.len() as int);
}

/// Boundaries at other bits do not matter.
pub proof fn lemma_marks_skip(bs: Seq<int>, d: int, i: int, i2: int)
    requires 0 <= i <= i2, forall|j: int| i <= j < i2 && j < bs.len() ==> #[trigger] bs[j] != d,
    ensures marks(bs, d, i) == marks(bs, d, i2),
{
    assert(marks(bs, d, i) =~= marks(bs, d, i2));
}

/// From one bit to the next one at which there is a boundary.
pub proof fn lemma_marks_down(bs: Seq<int>, c: int, d: int)
    requires d < c, forall|j: int| 0 <= j < bs.len() ==> !(d < #[trigger] bs[j] < c),
    ensures marks(bs, c, bs.len() as int) == marks(bs, d, 0),
{
    assert(marks(bs, c, bs.len() as int) =~= marks(bs, d, 0));
}

pub proof fn lemma_kept<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, mk: Seq<bool>)
    requires building::<H, N>(m0, r0, m, rs, mk),
    ensures kept(m0, m, locs(r0)), 0 < r0.len() <= u32::MAX, rs.len() == r0.len(),
{
    reveal(building);
    reveal(base);
}

// ---- in any order
/// Parts of which no two overlap, unless they have the same key.
pub open spec fn parts_ok<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>) -> bool {
    &&& forall|x: TreeRef<N>| #[trigger] rs.contains(x) ==> tref_shape::<H, N>(x)
    &&& forall|x: TreeRef<N>, y: TreeRef<N>| #[trigger] rs.contains(x) && #[trigger] rs.contains(y) ==> x.key == y.key || sep(rtree::<H, N>(x), rtree::<H, N>(y))
}

pub open spec fn keys_distinct<const N: usize>(rs: Seq<TreeRef<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).key != (#[trigger] rs[j]).key
}

/// The tree has what the parts have.
pub open spec fn made<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>, t: T<N>) -> bool {
    &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> exists|x: TreeRef<N>| #[trigger] rs.contains(x) && lookup(rtree::<H, N>(x), k) is Some
    &&& forall|x: TreeRef<N>, k: Array<N>| #[trigger] rs.contains(x) && #[trigger] lookup(rtree::<H, N>(x), k) is Some ==> lookup(t, k) == lookup(rtree::<H, N>(x), k)
}

pub open spec fn rsorted<const N: usize>(rs: Seq<TreeRef<N>>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < rs.len() ==> tref_ord(#[trigger] rs[i], #[trigger] rs[j]) != Ordering::Greater
}

pub proof fn lemma_perm_totals<H: Hasher<N>, const N: usize>(a: Seq<TreeRef<N>>, b: Seq<TreeRef<N>>, x: Array<N>)
    requires a.to_multiset() == b.to_multiset(),
    ensures
        cnt(locs(a), x) == cnt(locs(b), x),
        psize::<H, N>(a) == psize::<H, N>(b),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_same_members(a, b);
    if a.len() == 0 {
        assert(locs(a) =~= locs(b)) by { reveal(locs); }
        assert(a =~= b);
    } else {
        let l = a.last();
        assert(a.contains(l)) by { assert(a[a.len() - 1] == l); }
        assert(b.contains(l));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == l;
        let a2 = a.drop_last();
        let b2 = b.remove(i);
        assert(a =~= a2.push(l));
        assert(a2.to_multiset().insert(l) =~= a.to_multiset());
        assert(b2.to_multiset() =~= b.to_multiset().remove(l));
        assert(a2.to_multiset() =~= a.to_multiset().remove(l)) by {
            assert(a2.to_multiset() =~= a2.to_multiset().insert(l).remove(l));
        }
        lemma_perm_totals::<H, N>(a2, b2, x);
        lemma_remove_totals::<H, N>(b, i, x);
        lemma_locs_push(a2, l);
        lemma_psize_push::<H, N>(a2, l);
        lemma_cnt_push(locs(a2), l.location, x);
    }
}

pub proof fn lemma_remove_totals<H: Hasher<N>, const N: usize>(b: Seq<TreeRef<N>>, i: int, x: Array<N>)
    requires 0 <= i < b.len(),
    ensures
        cnt(locs(b), x) == cnt(locs(b.remove(i)), x) + if b[i].location == x { 1int } else { 0 },
        psize::<H, N>(b) == psize::<H, N>(b.remove(i)) + size(rtree::<H, N>(b[i])),
    decreases b.len(),
{
    let l = b.last();
    let c = b.drop_last();
    assert(b =~= c.push(l));
    lemma_locs_push(c, l);
    lemma_psize_push::<H, N>(c, l);
    lemma_cnt_push(locs(c), l.location, x);
    if i < b.len() - 1 {
        lemma_remove_totals::<H, N>(c, i, x);
        let c2 = c.remove(i);
        assert(b.remove(i) =~= c2.push(l));
        lemma_locs_push(c2, l);
        lemma_psize_push::<H, N>(c2, l);
        lemma_cnt_push(locs(c2), l.location, x);
    } else {
        assert(b.remove(i) =~= c);
    }
}

pub proof fn lemma_psum_psize<H: Hasher<N>, const N: usize>(r: Seq<TreeRef<N>>, e: int)
    requires -1 <= e < r.len(),
    ensures psum::<H, N>(r, 0, e) == psize::<H, N>(r.subrange(0, e + 1)),
    decreases e + 1,
{
    reveal(psize);
    if e >= 0 {
        lemma_psum_psize::<H, N>(r, e - 1);
        assert(r.subrange(0, e + 1).drop_last() =~= r.subrange(0, e));
    }
}

/// Distinct keys stay distinct in another order.
pub proof fn lemma_perm_distinct<const N: usize>(a: Seq<TreeRef<N>>, b: Seq<TreeRef<N>>)
    requires a.to_multiset() == b.to_multiset(), keys_distinct(a),
    ensures keys_distinct(b),
{
    lemma_same_members(a, b);
    assert(a.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
            if i < j { assert(a[i].key != a[j].key); } else { assert(a[j].key != a[i].key); }
        }
    }
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).key != (#[trigger] b[j]).key by {
        assert(b.contains(b[i]) && b.contains(b[j]));
        assert(b[i] != b[j]);
        let u = choose|u: int| 0 <= u < a.len() && a[u] == b[i];
        let v = choose|v: int| 0 <= v < a.len() && a[v] == b[j];
        if u < v { assert(a[u].key != a[v].key); }
        if v < u { assert(a[v].key != a[u].key); }
    }
}

/// Sorted parts with different neighbours.
pub proof fn lemma_sorted_base<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>, r0: Seq<TreeRef<N>>)
    requires
        parts_ok::<H, N>(rs),
        rs.to_multiset() == r0.to_multiset(),
        rsorted(r0),
        0 < rs.len() <= u32::MAX,
        psize::<H, N>(rs) <= u64::MAX,
        distinct_neighbours(r0, r0.len() - 1),
    ensures
        base::<H, N>(r0),
        keys_distinct(r0),
{
    lemma_same_members(rs, r0);
    let n = r0.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < n implies klt((#[trigger] r0[i]).key, (#[trigger] r0[j]).key) by {
        lemma_sorted_klt(r0, i, j);
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] r0[i]).key != (#[trigger] r0[j]).key by {
        lemma_klt_total(r0[i].key, r0[j].key);
    }
    lemma_parts_shape::<H, N>(rs, r0);
    assert(rs.len() == r0.len()) by { lemma_perm_len(rs, r0); }
    lemma_perm_totals::<H, N>(rs, r0, r0[0].key);
    lemma_psum_psize::<H, N>(r0, n - 1);
    assert(r0.subrange(0, n) =~= r0);
    reveal(base);
}

pub proof fn lemma_perm_len<const N: usize>(a: Seq<TreeRef<N>>, b: Seq<TreeRef<N>>)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.len() == b.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len());
    assert(b.len() == b.to_multiset().len());
}

pub proof fn lemma_sorted_klt<const N: usize>(r0: Seq<TreeRef<N>>, i: int, j: int)
    requires rsorted(r0), distinct_neighbours(r0, r0.len() - 1), 0 <= i < j < r0.len(),
    ensures klt(r0[i].key, r0[j].key),
{
    assert(tref_ord(r0[i], r0[i + 1]) != Ordering::Greater);
    assert(tref_ord(r0[i + 1], r0[j]) != Ordering::Greater);
    assert(r0[i].key != r0[i + 1].key);
    if r0[i + 1].key != r0[j].key { lemma_klt_trans(r0[i].key, r0[i + 1].key, r0[j].key); }
}

pub proof fn lemma_parts_shape<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>, r0: Seq<TreeRef<N>>)
    requires
        parts_ok::<H, N>(rs),
        forall|x: TreeRef<N>| rs.contains(x) == r0.contains(x),
        keys_distinct(r0),
    ensures
        forall|i: int| 0 <= i < r0.len() ==> tref_shape::<H, N>(#[trigger] r0[i]),
        forall|i: int, j: int| 0 <= i < j < r0.len() ==> sep(rtree::<H, N>(#[trigger] r0[i]), rtree::<H, N>(#[trigger] r0[j])),
{
    assert forall|i: int| 0 <= i < r0.len() implies tref_shape::<H, N>(#[trigger] r0[i]) by {
        assert(r0.contains(r0[i]));
        assert(rs.contains(r0[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < r0.len() implies sep(rtree::<H, N>(#[trigger] r0[i]), rtree::<H, N>(#[trigger] r0[j])) by {
        assert(r0.contains(r0[i]) && r0.contains(r0[j]));
        assert(rs.contains(r0[i]) && rs.contains(r0[j]));
    }
}

/// The order of the parts does not matter.
pub proof fn lemma_any_order<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>, r0: Seq<TreeRef<N>>)
    requires
        rs.to_multiset() == r0.to_multiset(),
    ensures
        rs.len() == r0.len(),
        keys_distinct(r0) == keys_distinct(rs),
        psize::<H, N>(r0) == psize::<H, N>(rs),
        forall|x: Array<N>| #[trigger] cnt(locs(rs), x) == cnt(locs(r0), x),
        forall|t: T<N>| #[trigger] made::<H, N>(r0, t) ==> made::<H, N>(rs, t),
{
    lemma_perm_len(rs, r0);
    lemma_perm_totals::<H, N>(rs, r0, arbitrary());
    assert forall|x: Array<N>| #[trigger] cnt(locs(rs), x) == cnt(locs(r0), x) by { lemma_perm_totals::<H, N>(rs, r0, x); }
    if keys_distinct(rs) { lemma_perm_distinct(rs, r0); }
    if keys_distinct(r0) { lemma_perm_distinct(r0, rs); }
    assert forall|t: T<N>| #[trigger] made::<H, N>(r0, t) implies made::<H, N>(rs, t) by {
        lemma_same_members(rs, r0);
        lemma_made_members::<H, N>(rs, r0, t);
    }
}

pub proof fn lemma_made_members<H: Hasher<N>, const N: usize>(rs: Seq<TreeRef<N>>, r0: Seq<TreeRef<N>>, t: T<N>)
    requires
        forall|x: TreeRef<N>| rs.contains(x) == r0.contains(x),
        made::<H, N>(r0, t),
    ensures made::<H, N>(rs, t),
{
    assert forall|k: Array<N>| #[trigger] lookup(t, k) is Some implies exists|x: TreeRef<N>| #[trigger] rs.contains(x) && lookup(rtree::<H, N>(x), k) is Some by {
        let x = choose|x: TreeRef<N>| #[trigger] r0.contains(x) && lookup(rtree::<H, N>(x), k) is Some;
        assert(rs.contains(x));
    }
}

/// A single part is a tree already.
pub proof fn lemma_single<H: Hasher<N>, const N: usize>(m: Store<N>, rs: Seq<TreeRef<N>>)
    requires
        wf::<H, N>(m),
        rs.len() == 1,
        parts_ok::<H, N>(rs),
        forall|x: Array<N>| cnt(locs(rs), x) <= #[trigger] ext(m, x),
    ensures
        is_root::<H, N>(m, rs[0].location),
        size(rtree::<H, N>(rs[0])) == psize::<H, N>(rs),
        made::<H, N>(rs, rtree::<H, N>(rs[0])),
        moved(m, m, seq![rs[0].location], locs(rs)),
{
    assert(rs.contains(rs[0]));
    let l = rs[0].location;
    assert(locs(rs) =~= seq![l]) by { reveal(locs); }
    lemma_cnt_one(l, l);
    assert(psize::<H, N>(rs) == size(rtree::<H, N>(rs[0]))) by {
        reveal(psize);
        assert(psize::<H, N>(rs.drop_last()) == 0);
    }
    assert(cnt(locs(rs), l) <= ext(m, l));
    lemma_ext_nonneg::<H, N>(m, l);
    lemma_at_tree::<H, N>(m, rtree::<H, N>(rs[0]));
}

pub proof fn lemma_seglook_from<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, e: int, k: Array<N>)
    requires -1 <= e < r0.len(), seglook::<H, N>(r0, 0, e, k) is Some,
    ensures exists|j: int| 0 <= j <= e && lookup(rtree::<H, N>(#[trigger] r0[j]), k) == seglook::<H, N>(r0, 0, e, k),
    decreases e + 1,
{
    if lookup(rtree::<H, N>(r0[e]), k) is None {
        lemma_seglook_from::<H, N>(r0, e - 1, k);
        let j = choose|j: int| 0 <= j <= e - 1 && lookup(rtree::<H, N>(#[trigger] r0[j]), k) == seglook::<H, N>(r0, 0, e - 1, k);
        assert(lookup(rtree::<H, N>(r0[j]), k) == seglook::<H, N>(r0, 0, e, k));
    }
}

/// The tree of all the parts.
pub proof fn lemma_made<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, t: T<N>)
    requires
        base::<H, N>(r0),
        forall|k: Array<N>| #[trigger] lookup(t, k) == seglook::<H, N>(r0, 0, r0.len() - 1, k),
    ensures made::<H, N>(r0, t),
{
    reveal(base);
    let n = r0.len() as int;
    assert forall|k: Array<N>| #[trigger] lookup(t, k) is Some implies exists|x: TreeRef<N>| #[trigger] r0.contains(x) && lookup(rtree::<H, N>(x), k) is Some by {
        lemma_seglook_from::<H, N>(r0, n - 1, k);
        let j = choose|j: int| 0 <= j <= n - 1 && lookup(rtree::<H, N>(#[trigger] r0[j]), k) == seglook::<H, N>(r0, 0, n - 1, k);
        assert(r0.contains(r0[j]));
    }
    assert forall|x: TreeRef<N>, k: Array<N>| #[trigger] r0.contains(x) && #[trigger] lookup(rtree::<H, N>(x), k) is Some implies lookup(t, k) == lookup(rtree::<H, N>(x), k) by {
        let i = choose|i: int| 0 <= i < n && r0[i] == x;
        lemma_seglook_has::<H, N>(r0, 0, n - 1, i, k);
        lemma_seglook_from::<H, N>(r0, n - 1, k);
        let j = choose|j: int| 0 <= j <= n - 1 && lookup(rtree::<H, N>(#[trigger] r0[j]), k) == seglook::<H, N>(r0, 0, n - 1, k);
        assert(tref_shape::<H, N>(r0[i]) && tref_shape::<H, N>(r0[j]));
        if i < j { lemma_sep_disjoint(rtree::<H, N>(r0[i]), rtree::<H, N>(r0[j]), k); }
        if j < i { lemma_sep_disjoint(rtree::<H, N>(r0[j]), rtree::<H, N>(r0[i]), k); }
    }
}

// ---- the queue
/// The bit up to which everything is merged.
pub open spec fn level_at(ix: Seq<usize>, v: int, top: int) -> int {
    if v < ix.len() { ix[v] as int } else { top }
}

/// What is in the queue belongs there.
pub open spec fn queue_in(q: Map<usize, Vec<(usize, usize, usize)>>, bs: Seq<int>) -> bool {
    forall|b: usize| #[trigger] q.contains_key(b) ==> q[b]@ == level_of(bs, b as int, bs.len() as int) && q[b]@.len() > 0
}

pub proof fn lemma_queue_in(q: Map<usize, Vec<(usize, usize, usize)>>, bs: Seq<int>, b: usize)
    requires queue_in(q, bs), q.contains_key(b), bs.len() < usize::MAX,
        forall|j: int| 0 <= j < bs.len() ==> 0 <= #[trigger] bs[j] < usize::MAX,
    ensures exists|j: int| 0 <= j < bs.len() && #[trigger] bs[j] == b,
{
    if b < usize::MAX {
        lemma_level_of::<0>(bs, b as int, bs.len() as int);
        let it = level_of(bs, b as int, bs.len() as int)[0];
        assert(bs[it.1 as int] == b);
    } else {
        lemma_level_none(bs, b as int, bs.len() as int);
    }
}

pub proof fn lemma_level_none(bs: Seq<int>, d: int, n: int)
    requires 0 <= n <= bs.len(), forall|j: int| 0 <= j < bs.len() ==> #[trigger] bs[j] != d,
    ensures level_of(bs, d, n).len() == 0,
    decreases n,
{
    if n > 0 { lemma_level_none(bs, d, n - 1); }
}

/// Sorted numbers of which each occurs once.
pub proof fn lemma_strict(a: Seq<usize>, b: Seq<usize>, u: int, v: int)
    requires
        a.no_duplicates(),
        a.to_multiset() == b.to_multiset(),
        forall|i: int, j: int| 0 <= i <= j < b.len() ==> #[trigger] b[i] <= #[trigger] b[j],
        0 <= u < v < b.len(),
    ensures b[u] < b[v],
{
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert(b[u] != b[v]);
}

// ---- what has been written at this level
/// The tree at the location has a key of the parts up to `p`.
#[verifier::opaque]
pub open spec fn behind<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, p: int, x: Array<N>) -> bool {
    &&& is_tree::<H, N>(x)
    &&& exists|k: Array<N>| #[trigger] lookup(tree_of::<H, N>(x), k) is Some && seglook::<H, N>(r0, 0, p, k) is Some
}

/// At this level, all that is up to `p` has been dealt with when the boundaries below `i` have been.
pub open spec fn done_to(bs: Seq<int>, d: int, i: int, p: int) -> bool {
    &&& -1 <= p <= bs.len()
    &&& p >= 0 ==> i <= p
    &&& 0 <= p < bs.len() ==> bs[p] < d
    &&& forall|j: int| i <= j < p && j < bs.len() ==> #[trigger] bs[j] > d
}

/// What is not read as it was written last is part of a tree that has been dealt with.
pub open spec fn ahead<H: Hasher<N>, const N: usize>(s: Store<N>, dr: Store<N>, r0: Seq<TreeRef<N>>, p: int) -> bool {
    forall|x: Array<N>| #[trigger] clean(s, dr, x) || behind::<H, N>(r0, p, x)
}

pub proof fn lemma_seglook_in<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, a: int, e: int, k: Array<N>) -> (j: int)
    requires seglook::<H, N>(r0, a, e, k) is Some,
    ensures a <= j <= e, lookup(rtree::<H, N>(r0[j]), k) is Some,
    decreases e - a + 1,
{
    if lookup(rtree::<H, N>(r0[e]), k) is Some { e } else { lemma_seglook_in::<H, N>(r0, a, e - 1, k) }
}

/// Parts further on have other keys.
pub proof fn lemma_seglook_apart<H: Hasher<N>, const N: usize>(r0: Seq<TreeRef<N>>, p: int, a: int, e: int, k: Array<N>)
    requires base::<H, N>(r0), p < a, e < r0.len(), seglook::<H, N>(r0, a, e, k) is Some,
    ensures seglook::<H, N>(r0, 0, p, k) is None,
{
    if seglook::<H, N>(r0, 0, p, k) is Some {
        let j = lemma_seglook_in::<H, N>(r0, 0, p, k);
        let j2 = lemma_seglook_in::<H, N>(r0, a, e, k);
        reveal(base);
        assert(sep(rtree::<H, N>(r0[j]), rtree::<H, N>(r0[j2])));
        assert(tref_shape::<H, N>(r0[j]) && tref_shape::<H, N>(r0[j2]));
        lemma_sep_disjoint(rtree::<H, N>(r0[j]), rtree::<H, N>(r0[j2]), k);
    }
}

/// What is joined at a boundary is not part of what has been dealt with before.
pub proof fn lemma_apart<H: Hasher<N>, const N: usize>(m0: Store<N>, r0: Seq<TreeRef<N>>, m: Store<N>, rs: Seq<TreeRef<N>>, d: int, i: int, e: int, i0: int, p: int)
    requires
        building::<H, N>(m0, r0, m, rs, marks(bounds(r0), d, i)),
        0 <= i < r0.len() - 1,
        bounds(r0)[i] == d,
        at_boundary::<H, N>(r0, m, rs, marks(bounds(r0), d, i), d, i, e),
        done_to(bounds(r0), d, i0, p),
        i0 <= i,
    ensures
        forall|x: Array<N>| #[trigger] behind::<H, N>(r0, p, x) ==> behind::<H, N>(r0, e, x) && x != rs[i].location && x != rs[e].location
            && (H::hashed(branch_pre(rs[i].location, rs[e].location)) ==> x != H::digest(branch_pre(rs[i].location, rs[e].location))),
        rs[i].location != rs[e].location,
        behind::<H, N>(r0, e, rs[i].location),
        behind::<H, N>(r0, e, rs[e].location),
        H::hashed(branch_pre(rs[i].location, rs[e].location)) ==> {
            let b = H::digest(branch_pre(rs[i].location, rs[e].location));
            behind::<H, N>(r0, e, b) && b != rs[i].location && b != rs[e].location
        },
        done_to(bounds(r0), d, i + 1, e),
{
    reveal(beyond);
    reveal(joinable);
    reveal(building);
    reveal(segs_ok);
    reveal(behind);
    let bs = bounds(r0);
    let n = r0.len() as int;
    let mk = marks(bs, d, i);
    let l = rs[i].location;
    let r = rs[e].location;
    assert(!mk[i]);
    let a = lemma_seg_left(mk, i, i);
    assert(segok::<H, N>(r0, bs, rs, i + 1, e));
    assert(segok::<H, N>(r0, bs, rs, a, i));
    // the left part begins after what has been dealt with
    assert(a > p) by {
        if p >= 0 {
            assert(i > p);
            if a <= p { assert(mk[p]); }
        }
    }
    lemma_seg_ends::<H, N>(r0, a, i);
    lemma_seg_ends::<H, N>(r0, i + 1, e);
    let lt = tree_of::<H, N>(l);
    let rt = tree_of::<H, N>(r);
    let t = joined::<H, N>(d, l, r);
    let b = H::digest(branch_pre(l, r));
    let h = H::hashed(branch_pre(l, r));
    assert forall|k: Array<N>| #[trigger] lookup(lt, k) is Some implies seglook::<H, N>(r0, 0, p, k) is None && seglook::<H, N>(r0, 0, e, k) is Some by {
        assert(seglook::<H, N>(r0, a, i, k) is Some);
        lemma_seglook_apart::<H, N>(r0, p, a, i, k);
        let j = lemma_seglook_in::<H, N>(r0, a, i, k);
        lemma_seglook_has::<H, N>(r0, 0, e, j, k);
    }
    assert forall|k: Array<N>| #[trigger] lookup(rt, k) is Some implies seglook::<H, N>(r0, 0, p, k) is None && seglook::<H, N>(r0, 0, e, k) is Some by {
        assert(seglook::<H, N>(r0, i + 1, e, k) is Some);
        lemma_seglook_apart::<H, N>(r0, p, i + 1, e, k);
        let j = lemma_seglook_in::<H, N>(r0, i + 1, e, k);
        lemma_seglook_has::<H, N>(r0, 0, e, j, k);
    }
    assert forall|x: Array<N>| #[trigger] behind::<H, N>(r0, p, x) implies behind::<H, N>(r0, e, x) && x != l && x != r && (h ==> x != b) by {
        let k = choose|k: Array<N>| #[trigger] lookup(tree_of::<H, N>(x), k) is Some && seglook::<H, N>(r0, 0, p, k) is Some;
        let j = lemma_seglook_in::<H, N>(r0, 0, p, k);
        lemma_seglook_has::<H, N>(r0, 0, e, j, k);
        if h && x == b { assert(lookup(t, k) is Some); assert(lookup(lt, k) is Some || lookup(rt, k) is Some); }
    }
    assert(lookup(lt, r0[i].key) is Some);
    assert(lookup(rt, r0[e].key) is Some);
    if h {
        lemma_bound::<H, N>(r0, i);
        assert(!bit(r0[i].key, d));
        assert(lookup(t, r0[i].key) == lookup(lt, r0[i].key));
        assert(lookup(tree_of::<H, N>(b), r0[i].key) is Some);
    }
    // the next boundary is further on
    if e < bs.len() {
        assert(!mk[e]);
        if bs[e] >= d {
            assert(bs[e] == d);
            lemma_bound::<H, N>(r0, i);
            lemma_bound::<H, N>(r0, e);
            assert(lookup(rt, r0[i + 1].key) is Some);
            lemma_member(rt, r0[i + 1].key);
            lemma_member(rt, r0[e].key);
            assert(bit(r0[i + 1].key, d) == bit(tkey(rt), d));
            assert(bit(r0[e].key, d) == bit(tkey(rt), d));
        }
    }
    assert forall|j: int| i + 1 <= j < e && j < bs.len() implies #[trigger] bs[j] > d by { assert(mk[j]); }
}
