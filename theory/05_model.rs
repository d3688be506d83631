// ---------------------------------------------------------------- what the types of the crate stand for
pub type Array<const N: usize> = [u8; N];

/// A stored node: content and reference count.
pub struct RNode<const N: usize> {
    pub refs: u64,
    pub node: ANode<N>,
}

/// The content of a node.
pub enum ANode<const N: usize> {
    Branch { count: u64, zero: Array<N>, one: Array<N>, split: usize, key: Array<N> },
    Leaf { key: Array<N>, data: Array<N> },
    Data { value: Seq<u8> },
}

pub open spec fn vnode<B: Branch<N>, L: Leaf<N>, D: Data, const N: usize>(v: NodeVariant<B, L, D, N>) -> ANode<N> {
    match v {
        NodeVariant::Branch(b) => ANode::Branch {
            count: b.v_count(), zero: b.v_zero(), one: b.v_one(), split: b.v_split(), key: b.v_key(),
        },
        NodeVariant::Leaf(l) => ANode::Leaf { key: l.v_key(), data: l.v_data() },
        NodeVariant::Data(d) => ANode::Data { value: d.v_value() },
    }
}

pub open spec fn rnode<M: Node<N>, const N: usize>(n: M) -> RNode<N> {
    RNode { refs: n.v_refs(), node: n.v_node() }
}

global size_of usize == 8;
