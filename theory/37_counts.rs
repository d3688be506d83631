// ---------------------------------------------------------------- counting
/// How often `x` occurs.
#[verifier::opaque]
pub open spec fn cnt<A>(s: Seq<A>, x: A) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } }
}

pub broadcast proof fn lemma_cnt_empty<A>(s: Seq<A>, x: A)
    requires s.len() == 0,
    ensures #[trigger] cnt(s, x) == 0,
{
    reveal(cnt);
}

pub broadcast proof fn lemma_cnt_push<A>(s: Seq<A>, y: A, x: A)
    ensures #[trigger] cnt(s.push(y), x) == cnt(s, x) + if x == y { 1nat } else { 0 },
{
    reveal(cnt);
    assert(s.push(y).drop_last() =~= s);
}

pub broadcast proof fn lemma_cnt_add<A>(a: Seq<A>, b: Seq<A>, x: A)
    ensures #[trigger] cnt(a + b, x) == cnt(a, x) + cnt(b, x),
    decreases b.len(),
{
    reveal(cnt);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_cnt_add(a, b.drop_last(), x);
    }
}

pub broadcast proof fn lemma_cnt_one<A>(y: A, x: A)
    ensures #[trigger] cnt(seq![y], x) == if x == y { 1nat } else { 0 },
{
    assert(seq![y] =~= Seq::<A>::empty().push(y));
    lemma_cnt_push(Seq::<A>::empty(), y, x);
    lemma_cnt_empty(Seq::<A>::empty(), x);
}

pub broadcast proof fn lemma_cnt_front<A>(s: Seq<A>, x: A)
    requires s.len() > 0,
    ensures #[trigger] cnt(s.subrange(1, s.len() as int), x) == cnt(s, x) - if s[0] == x { 1int } else { 0 },
{
    assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int));
    lemma_cnt_add(seq![s[0]], s.subrange(1, s.len() as int), x);
    lemma_cnt_one(s[0], x);
}

pub proof fn lemma_cnt_pos<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures cnt(s, s[i]) >= 1,
    decreases s.len(),
{
    reveal(cnt);
    if i < s.len() - 1 { lemma_cnt_pos(s.drop_last(), i); }
}

pub broadcast proof fn lemma_cnt_single<A>(s: Seq<A>, x: A)
    requires s.len() == 1,
    ensures #[trigger] cnt(s, x) == if x == s[0] { 1nat } else { 0 },
{
    assert(s =~= seq![s[0]]);
    lemma_cnt_one(s[0], x);
}

pub broadcast group group_cnt {
    lemma_cnt_empty, lemma_cnt_push, lemma_cnt_add, lemma_cnt_one, lemma_cnt_front,
}

/// References held change by what is gained and lost.
pub open spec fn moved<const N: usize>(m: Store<N>, m2: Store<N>, gain: Seq<Array<N>>, loss: Seq<Array<N>>) -> bool {
    forall|x: Array<N>| #[trigger] ext(m2, x) == ext(m, x) + cnt(gain, x) - cnt(loss, x)
}

/// No reference is lost.
pub open spec fn kept<const N: usize>(m: Store<N>, m2: Store<N>, loss: Seq<Array<N>>) -> bool {
    forall|x: Array<N>| #[trigger] ext(m2, x) >= ext(m, x) - cnt(loss, x)
}

/// No reference is lost, whichever of the two was found.
pub open spec fn spared<const N: usize>(m: Store<N>, lm: Seq<Array<N>>, d: Store<N>, ld: Seq<Array<N>>, s: Store<N>) -> bool {
    forall|x: Array<N>| #![trigger ext(s, x)] ext(s, x) >= ext(m, x) - cnt(lm, x) || ext(s, x) >= ext(d, x) - cnt(ld, x)
}

/// One reference fewer to the node.
pub open spec fn lowered<const N: usize>(m: Store<N>, x: Array<N>) -> Store<N> {
    m.insert(x, RNode { refs: (m[x].refs - 1) as u64, node: m[x].node })
}

/// A leaf tree.
pub proof fn lemma_leaf_tree<H: Hasher<N>, const N: usize>(key: Array<N>, v: Seq<u8>)
    ensures
        H::hashed(data_pre(key, v)) ==> {
            &&& node_ok::<H, N>(data_loc::<H, N>(key, v), ANode::Data { value: v })
            &&& H::hashed(leaf_pre(key, data_loc::<H, N>(key, v))) ==> {
                let t = T::Leaf { key, value: v };
                let loc = H::digest(leaf_pre(key, data_loc::<H, N>(key, v)));
                &&& valid::<H, N>(t)
                &&& hash::<H, N>(t) == loc
                &&& tree_of::<H, N>(loc) == t
                &&& is_tree::<H, N>(loc)
                &&& node_ok::<H, N>(loc, ANode::Leaf { key, data: data_loc::<H, N>(key, v) })
                &&& loc != data_loc::<H, N>(key, v)
            }
        },
{
    let loc = data_loc::<H, N>(key, v);
    if H::hashed(data_pre(key, v)) {
        assert(names_data::<H, N>(key, v, loc));
        assert(exists|key: Array<N>| #[trigger] names_data::<H, N>(key, v, loc));
        let node = ANode::<N>::Data { value: v };
        assert(node matches ANode::Data { value } && value == v);
        assert(node_ok::<H, N>(loc, node));
        if H::hashed(leaf_pre(key, loc)) {
            let t = T::Leaf { key, value: v };
            lemma_tree_of::<H, N>(t);
            if hash::<H, N>(t) == loc { lemma_data_not_tree::<H, N>(key, v, t); }
            assert(top::<H, N>(t, ANode::Leaf { key, data: loc }));
            assert(node_ok::<H, N>(hash::<H, N>(t), ANode::Leaf { key, data: loc }));
        }
    }
}

/// What is held and what refers to a node.
pub broadcast proof fn lemma_indeg_ext<const N: usize>(m: Store<N>, x: Array<N>)
    ensures #[trigger] indeg(m, x) == refs_of(m, x) - ext(m, x),
{
}

pub open spec fn leaf_loc<H: Hasher<N>, const N: usize>(key: Array<N>, v: Seq<u8>) -> Array<N> {
    hash::<H, N>(T::Leaf { key, value: v })
}
