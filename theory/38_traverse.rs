// ---------------------------------------------------------------- dividing a tree
/// The reference describes the tree at its location.
pub open spec fn tref_shape<H: Hasher<N>, const N: usize>(r: TreeRef<N>) -> bool {
    let t = tree_of::<H, N>(r.location);
    &&& is_tree::<H, N>(r.location)
    &&& r.key == tkey(t)
    &&& r.node_count as nat == size(t)
    &&& r.count == 1
}

/// A part of `t0` that has none of the keys.
#[verifier::opaque]
pub open spec fn tref_ok<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, r: TreeRef<N>) -> bool {
    let t = tree_of::<H, N>(r.location);
    &&& tref_shape::<H, N>(r)
    &&& forall|k: Array<N>| #[trigger] all.contains(k) ==> sep_key(k, t)
    &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> lookup(t0, k) == lookup(t, k)
}

/// A part of `t0` with the keys that belong there.
#[verifier::opaque]
pub open spec fn wcell_ok<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, c: ACell<N>) -> bool {
    let t = tree_of::<H, N>(c.loc);
    &&& is_tree::<H, N>(c.loc)
    &&& ksorted(c.keys)
    &&& c.keys.len() > 0
    &&& 0 <= c.depth
    &&& c.depth + height(t) <= height(t0)
    &&& forall|k: Array<N>| #[trigger] c.keys.contains(k) ==> all.contains(k) && lookup(t0, k) == lookup(t, k)
        && kdepth(t0, k) == c.depth + kdepth(t, k)
    &&& forall|k: Array<N>| #[trigger] all.contains(k) && !c.keys.contains(k) ==> sep_key(k, t)
    &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> lookup(t0, k) == lookup(t, k)
        && kdepth(t0, k) == c.depth + kdepth(t, k)
}

#[verifier::opaque]
pub open spec fn trefs_ok<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, p: Seq<TreeRef<N>>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> tref_ok::<H, N>(t0, all, #[trigger] p[i])
}

#[verifier::opaque]
pub open spec fn wcells_ok<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, q: Seq<ACell<N>>) -> bool {
    forall|i: int| 0 <= i < q.len() ==> wcell_ok::<H, N>(t0, all, #[trigger] q[i])
}

/// Every part in the list sits elsewhere than `t`.
#[verifier::opaque]
pub open spec fn csep<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, t: T<N>) -> bool {
    forall|i: int| 0 <= i < q.len() ==> sep(tree_of::<H, N>((#[trigger] q[i]).loc), t)
}

#[verifier::opaque]
pub open spec fn rsep<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, t: T<N>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> sep(tree_of::<H, N>((#[trigger] p[i]).location), t)
}

#[verifier::opaque]
pub open spec fn qsep<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() ==> sep(tree_of::<H, N>((#[trigger] q[i]).loc), tree_of::<H, N>((#[trigger] q[j]).loc))
}

#[verifier::opaque]
pub open spec fn psep<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>((#[trigger] p[j]).location))
}

#[verifier::opaque]
pub open spec fn pqsep<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, q: Seq<ACell<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() ==> sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>((#[trigger] q[j]).loc))
}

/// The key is in one of the parts.
#[verifier::opaque]
pub open spec fn qhas<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, k: Array<N>) -> bool {
    exists|i: int| 0 <= i < q.len() && lookup(tree_of::<H, N>((#[trigger] q[i]).loc), k) is Some
}

#[verifier::opaque]
pub open spec fn phas<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, k: Array<N>) -> bool {
    exists|i: int| 0 <= i < p.len() && lookup(tree_of::<H, N>((#[trigger] p[i]).location), k) is Some
}

#[verifier::opaque]
pub open spec fn qsize<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>) -> nat
    decreases q.len()
{
    if q.len() == 0 { 0 } else { size(tree_of::<H, N>(q[0].loc)) + qsize::<H, N>(q.subrange(1, q.len() as int)) }
}

#[verifier::opaque]
pub open spec fn psize<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>) -> nat
    decreases p.len()
{
    if p.len() == 0 { 0 } else { psize::<H, N>(p.drop_last()) + size(tree_of::<H, N>(p.last().location)) }
}

#[verifier::opaque]
pub open spec fn locs<const N: usize>(p: Seq<TreeRef<N>>) -> Seq<Array<N>> {
    Seq::new(p.len(), |i: int| p[i].location)
}

// ---- one more element
pub broadcast proof fn lemma_wcells_front<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] wcells_ok::<H, N>(t0, all, seq![c] + q) == (wcells_ok::<H, N>(t0, all, q) && wcell_ok::<H, N>(t0, all, c)),
{
    reveal(wcells_ok);
    let r = seq![c] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == c);
    if wcells_ok::<H, N>(t0, all, r) {
        assert forall|i: int| 0 <= i < q.len() implies wcell_ok::<H, N>(t0, all, #[trigger] q[i]) by { assert(wcell_ok::<H, N>(t0, all, r[i + 1])); }
    }
}

pub broadcast proof fn lemma_csep_front<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, c: ACell<N>, t: T<N>)
    ensures #[trigger] csep::<H, N>(seq![c] + q, t) == (csep::<H, N>(q, t) && sep(tree_of::<H, N>(c.loc), t)),
{
    reveal(csep);
    let r = seq![c] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == c);
    if csep::<H, N>(r, t) {
        assert forall|i: int| 0 <= i < q.len() implies sep(tree_of::<H, N>((#[trigger] q[i]).loc), t) by { assert(r[i + 1] == q[i]); }
    }
}

pub broadcast proof fn lemma_qsep_front<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] qsep::<H, N>(seq![c] + q) == (qsep::<H, N>(q) && csep::<H, N>(q, tree_of::<H, N>(c.loc))),
{
    reveal(csep);
    reveal(qsep);
    let r = seq![c] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == c);
    if qsep::<H, N>(r) {
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies sep(tree_of::<H, N>((#[trigger] q[i]).loc), tree_of::<H, N>((#[trigger] q[j]).loc)) by {
            assert(r[i + 1] == q[i] && r[j + 1] == q[j]);
        }
        assert forall|i: int| 0 <= i < q.len() implies sep(tree_of::<H, N>((#[trigger] q[i]).loc), tree_of::<H, N>(c.loc)) by {
            assert(r[i + 1] == q[i] && r[0] == c);
            lemma_sep_sym(tree_of::<H, N>(q[i].loc), tree_of::<H, N>(c.loc));
        }
    }
    if qsep::<H, N>(q) && csep::<H, N>(q, tree_of::<H, N>(c.loc)) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies sep(tree_of::<H, N>((#[trigger] r[i]).loc), tree_of::<H, N>((#[trigger] r[j]).loc)) by {
            assert(r[j] == q[j - 1]);
            if i > 0 { assert(r[i] == q[i - 1]); }
            lemma_sep_sym(tree_of::<H, N>(r[j].loc), tree_of::<H, N>(c.loc));
        }
    }
}

pub broadcast proof fn lemma_pqsep_front<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] pqsep::<H, N>(p, seq![c] + q) == (pqsep::<H, N>(p, q) && rsep::<H, N>(p, tree_of::<H, N>(c.loc))),
{
    reveal(rsep);
    reveal(pqsep);
    let r = seq![c] + q;
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == r[i + 1]);
    assert(r[0] == c);
    if pqsep::<H, N>(p, r) {
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>((#[trigger] q[j]).loc)) by {
            assert(r[j + 1] == q[j]);
        }
    }
}

pub broadcast proof fn lemma_pqsep_push<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, q: Seq<ACell<N>>, x: TreeRef<N>)
    ensures #[trigger] pqsep::<H, N>(p.push(x), q) == (pqsep::<H, N>(p, q) && csep::<H, N>(q, tree_of::<H, N>(x.location))),
{
    reveal(csep);
    reveal(pqsep);
    let r = p.push(x);
    assert(forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == r[i]);
    assert(r[p.len() as int] == x);
    if pqsep::<H, N>(r, q) {
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>((#[trigger] q[j]).loc)) by {
            assert(r[i] == p[i]);
        }
        assert forall|i: int| 0 <= i < q.len() implies sep(tree_of::<H, N>((#[trigger] q[i]).loc), tree_of::<H, N>(x.location)) by {
            assert(r[p.len() as int] == x);
            lemma_sep_sym(tree_of::<H, N>(q[i].loc), tree_of::<H, N>(x.location));
        }
    }
    if pqsep::<H, N>(p, q) && csep::<H, N>(q, tree_of::<H, N>(x.location)) {
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < q.len() implies sep(tree_of::<H, N>((#[trigger] r[i]).location), tree_of::<H, N>((#[trigger] q[j]).loc)) by {
            if i < p.len() { assert(r[i] == p[i]); } else { lemma_sep_sym(tree_of::<H, N>(q[j].loc), tree_of::<H, N>(x.location)); }
        }
    }
}

pub broadcast proof fn lemma_trefs_push<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, p: Seq<TreeRef<N>>, x: TreeRef<N>)
    ensures #[trigger] trefs_ok::<H, N>(t0, all, p.push(x)) == (trefs_ok::<H, N>(t0, all, p) && tref_ok::<H, N>(t0, all, x)),
{
    reveal(trefs_ok);
    let r = p.push(x);
    assert(forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == r[i]);
    assert(r[p.len() as int] == x);
    if trefs_ok::<H, N>(t0, all, r) {
        assert forall|i: int| 0 <= i < p.len() implies tref_ok::<H, N>(t0, all, #[trigger] p[i]) by { assert(r[i] == p[i]); }
    }
}

pub broadcast proof fn lemma_rsep_push<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, x: TreeRef<N>, t: T<N>)
    ensures #[trigger] rsep::<H, N>(p.push(x), t) == (rsep::<H, N>(p, t) && sep(tree_of::<H, N>(x.location), t)),
{
    reveal(rsep);
    let r = p.push(x);
    assert(forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == r[i]);
    assert(r[p.len() as int] == x);
    if rsep::<H, N>(r, t) {
        assert forall|i: int| 0 <= i < p.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), t) by { assert(r[i] == p[i]); }
    }
}

pub broadcast proof fn lemma_psep_push<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, x: TreeRef<N>)
    ensures #[trigger] psep::<H, N>(p.push(x)) == (psep::<H, N>(p) && rsep::<H, N>(p, tree_of::<H, N>(x.location))),
{
    reveal(rsep);
    reveal(psep);
    let r = p.push(x);
    assert(forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == r[i]);
    assert(r[p.len() as int] == x);
    if psep::<H, N>(r) {
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>((#[trigger] p[j]).location)) by {
            assert(r[i] == p[i] && r[j] == p[j]);
        }
        assert forall|i: int| 0 <= i < p.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), tree_of::<H, N>(x.location)) by {
            assert(r[i] == p[i] && r[p.len() as int] == x);
        }
    }
}

pub broadcast proof fn lemma_qhas_front<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, c: ACell<N>, k: Array<N>)
    ensures #[trigger] qhas::<H, N>(seq![c] + q, k) == (qhas::<H, N>(q, k) || lookup(tree_of::<H, N>(c.loc), k) is Some),
{
    reveal(qhas);
    let r = seq![c] + q;
    assert(r[0] == c);
    if qhas::<H, N>(q, k) {
        let i = choose|i: int| 0 <= i < q.len() && lookup(tree_of::<H, N>((#[trigger] q[i]).loc), k) is Some;
        assert(r[i + 1] == q[i]);
    }
    if qhas::<H, N>(r, k) {
        let i = choose|i: int| 0 <= i < r.len() && lookup(tree_of::<H, N>((#[trigger] r[i]).loc), k) is Some;
        if i > 0 { assert(q[i - 1] == r[i]); }
    }
}

pub broadcast proof fn lemma_phas_push<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, x: TreeRef<N>, k: Array<N>)
    ensures #[trigger] phas::<H, N>(p.push(x), k) == (phas::<H, N>(p, k) || lookup(tree_of::<H, N>(x.location), k) is Some),
{
    reveal(phas);
    let r = p.push(x);
    assert(r[p.len() as int] == x);
    if phas::<H, N>(p, k) {
        let i = choose|i: int| 0 <= i < p.len() && lookup(tree_of::<H, N>((#[trigger] p[i]).location), k) is Some;
        assert(r[i] == p[i]);
    }
    if phas::<H, N>(r, k) {
        let i = choose|i: int| 0 <= i < r.len() && lookup(tree_of::<H, N>((#[trigger] r[i]).location), k) is Some;
        if i < p.len() { assert(p[i] == r[i]); }
    }
}

pub broadcast proof fn lemma_qsize_front<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, c: ACell<N>)
    ensures #[trigger] qsize::<H, N>(seq![c] + q) == size(tree_of::<H, N>(c.loc)) + qsize::<H, N>(q),
{
    reveal(qsize);
    let r = seq![c] + q;
    assert(r.subrange(1, r.len() as int) =~= q);
}

pub broadcast proof fn lemma_psize_push<H: Hasher<N>, const N: usize>(p: Seq<TreeRef<N>>, x: TreeRef<N>)
    ensures #[trigger] psize::<H, N>(p.push(x)) == psize::<H, N>(p) + size(tree_of::<H, N>(x.location)),
{
    reveal(psize);
    assert(p.push(x).drop_last() =~= p);
}

pub broadcast proof fn lemma_locs_push<const N: usize>(p: Seq<TreeRef<N>>, x: TreeRef<N>)
    ensures #[trigger] locs(p.push(x)) == locs(p).push(x.location),
{
    reveal(locs);
    assert(locs(p.push(x)) =~= locs(p).push(x.location));
}

pub broadcast proof fn lemma_nothing<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, t: T<N>, k: Array<N>)
    ensures
        #![trigger trefs_ok::<H, N>(t0, all, Seq::<TreeRef<N>>::empty()), lookup(t, k)]
        trefs_ok::<H, N>(t0, all, Seq::<TreeRef<N>>::empty()),
        wcells_ok::<H, N>(t0, all, Seq::<ACell<N>>::empty()),
        csep::<H, N>(Seq::<ACell<N>>::empty(), t),
        rsep::<H, N>(Seq::<TreeRef<N>>::empty(), t),
        qsep::<H, N>(Seq::<ACell<N>>::empty()),
        psep::<H, N>(Seq::<TreeRef<N>>::empty()),
        forall|q: Seq<ACell<N>>| pqsep::<H, N>(Seq::<TreeRef<N>>::empty(), q),
        forall|p: Seq<TreeRef<N>>| pqsep::<H, N>(p, Seq::<ACell<N>>::empty()),
        !qhas::<H, N>(Seq::<ACell<N>>::empty(), k),
        !phas::<H, N>(Seq::<TreeRef<N>>::empty(), k),
        qsize::<H, N>(Seq::<ACell<N>>::empty()) == 0,
        psize::<H, N>(Seq::<TreeRef<N>>::empty()) == 0,
        locs(Seq::<TreeRef<N>>::empty()) == Seq::<Array<N>>::empty(),
{
    reveal(trefs_ok); reveal(wcells_ok); reveal(csep); reveal(rsep); reveal(qsep); reveal(psep); reveal(pqsep);
    reveal(qhas); reveal(phas); reveal(qsize); reveal(psize); reveal(locs);
    assert(locs(Seq::<TreeRef<N>>::empty()) =~= Seq::<Array<N>>::empty());
}

pub broadcast group group_divide {
    lemma_wcells_front, lemma_csep_front, lemma_qsep_front, lemma_pqsep_front, lemma_pqsep_push, lemma_trefs_push,
    lemma_rsep_push, lemma_psep_push, lemma_qhas_front, lemma_phas_push, lemma_qsize_front, lemma_psize_push, lemma_locs_push,
}

// ---- going down
pub proof fn lemma_sep_down<H: Hasher<N>, const N: usize>(q: Seq<ACell<N>>, p: Seq<TreeRef<N>>, t: T<N>, c: T<N>)
    requires wg(t), is_child(c, t),
    ensures
        csep::<H, N>(q, t) ==> csep::<H, N>(q, c),
        rsep::<H, N>(p, t) ==> rsep::<H, N>(p, c),
{
    reveal(csep);
    reveal(rsep);
    if csep::<H, N>(q, t) {
        assert forall|i: int| 0 <= i < q.len() implies sep(tree_of::<H, N>((#[trigger] q[i]).loc), c) by {
            let o = tree_of::<H, N>(q[i].loc);
            lemma_sep_sym(o, t);
            lemma_sep_child(c, t, o);
            lemma_sep_sym(o, c);
        }
    }
    if rsep::<H, N>(p, t) {
        assert forall|i: int| 0 <= i < p.len() implies sep(tree_of::<H, N>((#[trigger] p[i]).location), c) by {
            let o = tree_of::<H, N>(p[i].location);
            lemma_sep_sym(o, t);
            lemma_sep_child(c, t, o);
            lemma_sep_sym(o, c);
        }
    }
}

/// One more reference to the node.
pub open spec fn bumped<const N: usize>(m: Store<N>, x: Array<N>) -> Store<N> {
    m.insert(x, RNode { refs: (m[x].refs + 1) as u64, node: m[x].node })
}

/// A write leaves the cells elsewhere alone.
pub broadcast proof fn lemma_bump_cells<H: Hasher<N>, X: Node<N>, const N: usize>(m: Store<N>, x: Array<N>, n: RNode<N>, q: Seq<TreeCell<'_, X, N>>)
    requires
        cells_nodes(m, q),
        csep::<H, N>(acells(q), tree_of::<H, N>(x)),
        wg(tree_of::<H, N>(x)),
    ensures
        #![trigger cells_nodes(m.insert(x, n), q), csep::<H, N>(acells(q), tree_of::<H, N>(x))]
        cells_nodes(m.insert(x, n), q),
{
    reveal(cells_nodes);
    reveal(csep);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] cell_node(m.insert(x, n), q[i]) by {
        assert(cell_node(m, q[i]));
        assert(acells(q)[i].loc == q[i].location);
        assert(sep(tree_of::<H, N>(acells(q)[i].loc), tree_of::<H, N>(x)));
    }
}

/// What there is to know about a cell when it is visited.
pub open spec fn visit<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>, q: Seq<ACell<N>>, p: Seq<TreeRef<N>>) -> bool {
    let t = tree_of::<H, N>(c.loc);
    &&& is_root::<H, N>(m, c.loc)
    &&& is_tree::<H, N>(c.loc)
    &&& wg(t)
    &&& ksorted(c.keys)
    &&& c.keys.len() > 0
    &&& size(t) >= 1
    &&& c.depth + height(t) <= height(t0)
    &&& match m[c.loc].node {
        ANode::Branch { count, zero, one, split, key } => {
            let s = split as int;
            let zt = tree_of::<H, N>(zero);
            let ot = tree_of::<H, N>(one);
            &&& is_root::<H, N>(m, zero) && is_root::<H, N>(m, one)
            &&& zero != one
            &&& wg(zt) && wg(ot)
            &&& height(zt) < height(t) && height(ot) < height(t)
            &&& csep::<H, N>(q, zt) && csep::<H, N>(q, ot)
            &&& rsep::<H, N>(p, zt) && rsep::<H, N>(p, ot)
            &&& sep(zt, ot) && sep(ot, zt)
            &&& size(t) == size(zt) + size(ot)
            &&& weight(t) == weight(zt) + weight(ot) + 1
            &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> lookup(zt, k) is Some || lookup(ot, k) is Some
            &&& forall|ds: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) ==> bits_mono(ds, s) && ksorted(ds)
            &&& forall|d: int| #[trigger] min_split(c.keys, key, d) && d >= s ==> desc(c.keys, c.keys, key, s)
            &&& forall|ds: Seq<Array<N>>, r: TreeRef<N>| #[trigger] desc(c.keys, ds, key, s) && ds.len() == 0 && r.location == c.loc && tref_shape::<H, N>(r)
                ==> #[trigger] tref_ok::<H, N>(t0, all, r)
            &&& forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] parted(ds, z, o, s) ==> {
                &&& z.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: zero, keys: z, depth: c.depth + 1 })
                &&& o.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: one, keys: o, depth: c.depth + 1 })
                &&& z.len() == 0 ==> forall|r: TreeRef<N>| r.location == zero && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r)
                &&& o.len() == 0 ==> forall|r: TreeRef<N>| r.location == one && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r)
            }
        },
        ANode::Leaf { key, data } => {
            &&& size(t) == 1
            &&& key == tkey(t)
            &&& forall|k: Array<N>| #[trigger] lookup(t, k) is Some ==> k == key
            &&& !all.contains(key) ==> forall|r: TreeRef<N>| r.location == c.loc && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r)
        },
        ANode::Data { value } => false,
    }
}

pub proof fn lemma_visit_part<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>, ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>)
    requires
        wf::<H, N>(m),
        m.contains_key(c.loc),
        m[c.loc].node is Branch,
        wcell_ok::<H, N>(t0, all, c),
        desc(c.keys, ds, m[c.loc].node->Branch_key, m[c.loc].node->split as int),
        parted(ds, z, o, m[c.loc].node->split as int),
    ensures
        z.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: m[c.loc].node->zero, keys: z, depth: c.depth + 1 }),
        o.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: m[c.loc].node->one, keys: o, depth: c.depth + 1 }),
        z.len() == 0 ==> forall|r: TreeRef<N>| r.location == m[c.loc].node->zero && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r),
        o.len() == 0 ==> forall|r: TreeRef<N>| r.location == m[c.loc].node->one && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r),
        z.len() == 0 ==> forall|k: Array<N>| #[trigger] all.contains(k) ==> sep_key(k, tree_of::<H, N>(m[c.loc].node->zero)),
        o.len() == 0 ==> forall|k: Array<N>| #[trigger] all.contains(k) ==> sep_key(k, tree_of::<H, N>(m[c.loc].node->one)),
{
    reveal(wcell_ok);
    reveal(acell_ok);
    reveal(tref_ok);
    let b = m[c.loc].node;
    let s = b->split as int;
    let t = tree_of::<H, N>(c.loc);
    lemma_seen::<H, N>(m, c.loc);
    lemma_cell_branch::<H, N>(m, t0, all, c, ds, z, o);
    lemma_desc(c.keys, ds, b->Branch_key, s);
    let zt = tree_of::<H, N>(b->zero);
    let ot = tree_of::<H, N>(b->one);
    assert forall|k: Array<N>| #[trigger] all.contains(k) && !z.contains(k) implies sep_key(k, zt) by {
        if !c.keys.contains(k) || !agree(k, tkey(t), s) {
            lemma_sep_key_child(k, zt, t);
        } else {
            assert(ds.contains(k));
            lemma_concat_contains(z, o, k);
            let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
            assert(bit(o[i], s));
            assert(!bit(tkey(zt), s));
        }
    }
    assert forall|k: Array<N>| #[trigger] all.contains(k) && !o.contains(k) implies sep_key(k, ot) by {
        if !c.keys.contains(k) || !agree(k, tkey(t), s) {
            lemma_sep_key_child(k, ot, t);
        } else {
            assert(ds.contains(k));
            lemma_concat_contains(z, o, k);
            let i = choose|i: int| 0 <= i < z.len() && z[i] == k;
            assert(!bit(z[i], s));
            assert(bit(tkey(ot), s));
        }
    }
    assert forall|k: Array<N>| #[trigger] lookup(zt, k) is Some implies lookup(t0, k) == lookup(zt, k) by { lemma_side(t, k); assert(lookup(t, k) is Some); }
    assert forall|k: Array<N>| #[trigger] lookup(ot, k) is Some implies lookup(t0, k) == lookup(ot, k) by { lemma_side(t, k); assert(lookup(t, k) is Some); }
}

pub proof fn lemma_visit<H: Hasher<N>, const N: usize>(m: Store<N>, t0: T<N>, all: Seq<Array<N>>, c: ACell<N>, q: Seq<ACell<N>>, p: Seq<TreeRef<N>>)
    requires
        wf::<H, N>(m),
        m.contains_key(c.loc),
        wcell_ok::<H, N>(t0, all, c),
        csep::<H, N>(q, tree_of::<H, N>(c.loc)),
        rsep::<H, N>(p, tree_of::<H, N>(c.loc)),
    ensures
        visit::<H, N>(m, t0, all, c, q, p),
{
    let t = tree_of::<H, N>(c.loc);
    lemma_seen::<H, N>(m, c.loc);
    lemma_step::<H, N>(m, c.loc, c.loc);
    assert(is_tree::<H, N>(c.loc) && ksorted(c.keys) && c.keys.len() > 0 && c.depth + height(t) <= height(t0)) by { reveal(wcell_ok); }
    lemma_at_tree::<H, N>(m, t);
    lemma_size(t);
    match m[c.loc].node {
        ANode::Branch { count, zero, one, split, key } => {
            let s = split as int;
            let zt = tree_of::<H, N>(zero);
            let ot = tree_of::<H, N>(one);
            lemma_sep_down::<H, N>(q, p, t, zt);
            lemma_sep_down::<H, N>(q, p, t, ot);
            lemma_sep_children(t);
            assert forall|k: Array<N>| #[trigger] lookup(t, k) is Some implies lookup(zt, k) is Some || lookup(ot, k) is Some by { lemma_side(t, k); }
            assert forall|ds: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) implies bits_mono(ds, s) && ksorted(ds) by {
                lemma_desc(c.keys, ds, key, s);
                lemma_bits_mono(ds, key, s);
            }
            assert forall|d: int| #[trigger] min_split(c.keys, key, d) && d >= s implies desc(c.keys, c.keys, key, s) by {
                assert(desc_at(c.keys, c.keys, key, s, 0, c.keys.len() as int)) by {
                    assert(c.keys.subrange(0, c.keys.len() as int) =~= c.keys);
                }
            }
            assert forall|ds: Seq<Array<N>>, r: TreeRef<N>| #[trigger] desc(c.keys, ds, key, s) && ds.len() == 0 && r.location == c.loc && tref_shape::<H, N>(r)
                implies #[trigger] tref_ok::<H, N>(t0, all, r) by {
                reveal(tref_ok);
                reveal(wcell_ok);
                lemma_desc(c.keys, ds, key, s);
                assert forall|k: Array<N>| #[trigger] all.contains(k) implies sep_key(k, t) by {
                    if c.keys.contains(k) { assert(!ds.contains(k)); }
                }
            }
            assert forall|ds: Seq<Array<N>>, z: Seq<Array<N>>, o: Seq<Array<N>>| #[trigger] desc(c.keys, ds, key, s) && #[trigger] parted(ds, z, o, s) implies {
                &&& z.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: zero, keys: z, depth: c.depth + 1 })
                &&& o.len() > 0 ==> wcell_ok::<H, N>(t0, all, ACell { loc: one, keys: o, depth: c.depth + 1 })
                &&& z.len() == 0 ==> forall|r: TreeRef<N>| r.location == zero && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r)
                &&& o.len() == 0 ==> forall|r: TreeRef<N>| r.location == one && tref_shape::<H, N>(r) ==> #[trigger] tref_ok::<H, N>(t0, all, r)
            } by {
                lemma_visit_part::<H, N>(m, t0, all, c, ds, z, o);
            }
        },
        ANode::Leaf { key, data } => {
            if !all.contains(key) {
                assert forall|r: TreeRef<N>| r.location == c.loc && tref_shape::<H, N>(r) implies #[trigger] tref_ok::<H, N>(t0, all, r) by {
                    reveal(tref_ok);
                    reveal(wcell_ok);
                    assert forall|k: Array<N>| #[trigger] all.contains(k) implies sep_key(k, t) by {
                        if agree(k, tkey(t), 8 * N as int) { lemma_key_ext(k, tkey(t)); }
                    }
                }
            }
        },
        ANode::Data { value } => {},
    }
}

/// The tree is divided among the two lists.
pub open spec fn dividing<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, q: Seq<ACell<N>>, p: Seq<TreeRef<N>>) -> bool {
    &&& wcells_ok::<H, N>(t0, all, q)
    &&& trefs_ok::<H, N>(t0, all, p)
    &&& qsep::<H, N>(q)
    &&& psep::<H, N>(p)
    &&& pqsep::<H, N>(p, q)
    &&& forall|k: Array<N>| #[trigger] lookup(t0, k) is Some && !all.contains(k) ==> qhas::<H, N>(q, k) || phas::<H, N>(p, k)
    &&& qsize::<H, N>(q) + psize::<H, N>(p) <= size(t0)
}

/// The parts that remain.
pub open spec fn divided<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, p: Seq<TreeRef<N>>) -> bool {
    &&& trefs_ok::<H, N>(t0, all, p)
    &&& psep::<H, N>(p)
    &&& forall|k: Array<N>| #[trigger] lookup(t0, k) is Some && !all.contains(k) ==> phas::<H, N>(p, k)
    &&& psize::<H, N>(p) <= size(t0)
}

pub proof fn lemma_start<H: Hasher<N>, const N: usize>(t0: T<N>, c: ACell<N>)
    requires
        is_tree::<H, N>(c.loc),
        t0 == tree_of::<H, N>(c.loc),
        wg(t0),
        ksorted(c.keys),
        c.keys.len() > 0,
        c.depth == 0,
    ensures
        dividing::<H, N>(t0, c.keys, seq![c] + Seq::empty(), Seq::empty()),
        locs(Seq::<TreeRef<N>>::empty()) == Seq::<Array<N>>::empty(),
{
    broadcast use group_divide;
    assert(wcell_ok::<H, N>(t0, c.keys, c)) by { reveal(wcell_ok); }
    lemma_nothing::<H, N>(t0, c.keys, t0, c.loc);
    assert forall|k: Array<N>| #[trigger] lookup(t0, k) is Some && !c.keys.contains(k) implies qhas::<H, N>(seq![c] + Seq::empty(), k) by {}
    assert(pqsep::<H, N>(Seq::empty(), seq![c] + Seq::<ACell<N>>::empty()));
}

pub proof fn lemma_divided<H: Hasher<N>, const N: usize>(t0: T<N>, all: Seq<Array<N>>, p: Seq<TreeRef<N>>)
    requires dividing::<H, N>(t0, all, Seq::empty(), p),
    ensures divided::<H, N>(t0, all, p),
{
    assert forall|k: Array<N>| #[trigger] lookup(t0, k) is Some && !all.contains(k) implies phas::<H, N>(p, k) by {
        lemma_nothing::<H, N>(t0, all, t0, k);
    }
}
