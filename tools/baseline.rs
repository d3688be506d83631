// @@item constants.rs:2
pub const KEY_LEN: usize = 32;
// @@item constants.rs:4
pub const KEY_LEN_BITS: usize = KEY_LEN * 8 - 1;
// @@item constants.rs:6
pub const MULTIPLY_DE_BRUIJN_BIT_POSITION: [u8; 8] = [0, 5, 1, 6, 4, 3, 2, 7];
// @@item hash_tree.rs:20
pub type Tree<const N: usize, Value = Vec<u8>> = MerkleBIT<HashTree_Cfg<N, Value>, N>;
// @@item hash_tree.rs:24
pub struct HashTree<const N: usize = 32, Value: Encode + Decode = Vec<u8>> {
    pub tree: Tree<N>,
    pub _value: PhantomData<Value>,
}
// @@item hash_tree.rs:24
pub struct HashTree_Cfg<const N: usize = 32, Value: Encode + Decode = Vec<u8>> {
    pub _c: std::marker::PhantomData<(Value,)>,
}
// @@item hash_tree.rs:31
impl<const N: usize, Value: Encode + Decode> MerkleTree<N> for HashTree_Cfg<N, Value> {
    type Database = HashTreeDB<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Value;
}
// @@item hash_tree.rs:41
impl<const N: usize> HashTree<N> {
    pub fn new(depth: usize) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("HashTree::new");
        vx_hook!("HashTree::new@0");
        let path = vx_path("");
        let tree = MerkleBIT::new(path, depth)?;
        Ok(Self { tree, _value: PhantomData })
    }
    pub fn open(
        path: &VxPath,
        depth: usize,
    ) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("HashTree::open");
        vx_hook!("HashTree::open@0");
        let tree = MerkleBIT::new(path, depth)?;
        Ok(Self { tree, _value: PhantomData })
    }
    pub fn get(
        &self,
        root_hash: &Array<N>,
        keys: &mut [Array<N>],
    ) -> vx_ret!(
        BinaryMerkleTreeResult < HashMap < Array < N >, Option < < HashTree_Cfg < N > as
        MerkleTree < N > > ::Value > > >
    ) {
        vx_spec!("HashTree::get");
        self.tree.get(root_hash, keys)
    }
    pub fn insert(
        &mut self,
        previous_root: Option<&Array<N>>,
        keys: &mut [Array<N>],
        values: &[<HashTree_Cfg<N> as MerkleTree<N>>::Value],
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("HashTree::insert");
        self.tree.insert(previous_root, keys, values)
    }
    pub fn remove(
        &mut self,
        root_hash: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("HashTree::remove");
        self.tree.remove(root_hash)
    }
    pub fn generate_inclusion_proof(
        &self,
        root: &Array<N>,
        key: Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Vec < (Array < N >, bool) > >) {
        vx_spec!("HashTree::generate_inclusion_proof");
        self.tree.generate_inclusion_proof(root, key)
    }
    pub fn verify_inclusion_proof(
        root: &Array<N>,
        key: Array<N>,
        value: &<HashTree_Cfg<N> as MerkleTree<N>>::Value,
        proof: &[(Array<N>, bool)],
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("HashTree::verify_inclusion_proof");
        Tree::verify_inclusion_proof(root, key, value, proof)
    }
    pub fn get_one(
        &self,
        root: &Array<N>,
        key: &Array<N>,
    ) -> vx_ret!(
        BinaryMerkleTreeResult < Option < < HashTree_Cfg < N > as MerkleTree < N > >
        ::Value > >
    ) {
        vx_spec!("HashTree::get_one");
        self.tree.get_one(root, key)
    }
    pub fn insert_one(
        &mut self,
        previous_root: Option<&Array<N>>,
        key: &Array<N>,
        value: &<HashTree_Cfg<N> as MerkleTree<N>>::Value,
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("HashTree::insert_one");
        self.tree.insert_one(previous_root, key, value)
    }
    pub fn decompose(self) -> vx_ret!((HashTreeDB < N >, usize)) {
        vx_spec!("HashTree::decompose");
        self.tree.decompose()
    }
}
// @@item merkle_bit.rs:24
pub type BinaryMerkleTreeResult<T> = Result<T, Exception>;
// @@item merkle_bit.rs:27
pub trait MerkleTree<const N: usize>: Sized {
    type Database: Database<N, Self::Node>;
    type Branch: Branch<N>;
    type Leaf: Leaf<N>;
    type Data: Data;
    type Node: Node<N, Branch = Self::Branch, Leaf = Self::Leaf, Data = Self::Data>;
    type Hasher: Hasher<N>;
    type Value: Decode + Encode;
}
// @@item merkle_bit.rs:48
pub struct MerkleBIT<M: MerkleTree<N>, const N: usize> {
    pub db: M::Database,
    pub depth: usize,
}
// @@item merkle_bit.rs:55
impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
    pub fn new(path: &VxPath, depth: usize) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("MerkleBIT::new");
        let db = Database::open(path)?;
        Ok(Self { db, depth })
    }
    pub fn from_db(
        db: M::Database,
        depth: usize,
    ) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("MerkleBIT::from_db");
        Ok(Self { db, depth })
    }
    pub fn get(
        &self,
        root_hash: &Array<N>,
        keys: &mut [Array<N>],
    ) -> vx_ret!(
        BinaryMerkleTreeResult < HashMap < Array < N >, Option < M::Value > > >
    ) {
        vx_spec!("MerkleBIT::get");
        vx_hook!("MerkleBIT::get@0");
        if keys.is_empty() {
            return Ok(HashMap::new());
        }
        let mut leaf_map = generate_leaf_map(keys);
        keys.vx_sort();
        let root_node = if let Some(n) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, *root_hash)? {
            n
        } else {
            return Ok(leaf_map);
        };
        let mut cell_queue = vx_deque_cap(keys.len());
        let root_cell = TreeCell::new::<
            M::Branch,
            M::Leaf,
            M::Data,
        >(*root_hash, keys, root_node, 0);
        cell_queue.push_front(root_cell);
        vx_hook!("MerkleBIT::get@1");
        while !cell_queue.is_empty() {
            vx_loop!("MerkleBIT::get#1");
            let tree_cell = match cell_queue.pop_front() {
                Some(vx_item) => vx_item,
                None => vx_unreached(),
            };
            vx_hook!("MerkleBIT::get@2");
            if tree_cell.depth > self.depth {
                return Err(Exception::new("Depth of merkle tree exceeded"));
            }
            let node = tree_cell.node;
            match node.get_variant() {
                NodeVariant::Branch(branch) => {
                    let (_, zero, one, branch_split_index, branch_key) = branch
                        .decompose();
                    let min_split_index = calc_min_split_index(
                        tree_cell.keys,
                        &branch_key,
                    )?;
                    let descendants = check_descendants(
                        tree_cell.keys,
                        branch_split_index,
                        &branch_key,
                        min_split_index,
                    )?;
                    if descendants.is_empty() {
                        continue;
                    }
                    let (zeros, ones) = split_pairs(descendants, branch_split_index)?;
                    self.push_cell_if_node(&mut cell_queue, tree_cell.depth, one, ones)?;
                    self.push_cell_if_node(
                        &mut cell_queue,
                        tree_cell.depth,
                        zero,
                        zeros,
                    )?;
                }
                NodeVariant::Leaf(n) => {
                    if let Some(d) = vx_db_get_node::<
                        M::Hasher,
                        M::Node,
                        M::Database,
                        N,
                    >(&self.db, *n.get_data())? {
                        if let NodeVariant::Data(data) = d.get_variant() {
                            let value = M::Value::decode(data.get_value())?;
                            if let Ok(index) = vx_binary_search(keys, n.get_key()) {
                                leaf_map.insert(keys[index], Some(value));
                            }
                        } else {
                            return Err(
                                Exception::new(
                                    "Corrupt merkle tree: Found non data node after leaf",
                                ),
                            );
                        }
                    } else {
                        return Err(
                            Exception::new(
                                "Corrupt merkle tree: Failed to get leaf node from DB",
                            ),
                        );
                    }
                }
                NodeVariant::Data(_) => {
                    return Err(
                        Exception::new(
                            "Corrupt merkle tree: Found data node while traversing tree",
                        ),
                    );
                }
            }
        }
        Ok(leaf_map)
    }
    pub fn push_cell_if_node<'keys>(
        &self,
        cell_queue: &mut VecDeque<TreeCell<'keys, M::Node, N>>,
        depth: usize,
        location: Array<N>,
        locations: &'keys [Array<N>],
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::push_cell_if_node");
        vx_hook!("MerkleBIT::push_cell_if_node@0");
        if let Some(node) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, location)? {
            if !locations.is_empty() {
                let new_cell = TreeCell::new::<
                    M::Branch,
                    M::Leaf,
                    M::Data,
                >(location, locations, node, depth + 1);
                cell_queue.push_front(new_cell);
            }
        }
        vx_hook!("MerkleBIT::push_cell_if_node@1");
        Ok(())
    }
    pub fn insert(
        &mut self,
        previous_root: Option<&Array<N>>,
        keys: &mut [Array<N>],
        values: &[M::Value],
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("MerkleBIT::insert");
        vx_hook!("MerkleBIT::insert@0");
        if keys.len() != values.len() {
            return Err(Exception::new("Keys and values have different lengths"));
        }
        if keys.is_empty() || values.is_empty() {
            return Err(Exception::new("Keys or values are empty"));
        }
        let mut value_map = HashMap::new();
        {
            let mut vx_i1: usize = 0;
            vx_hook!("MerkleBIT::insert@1");
            while vx_i1 < keys.len() && vx_i1 < values.len() {
                vx_loop!("MerkleBIT::insert#1");
                let key = keys[vx_i1];
                let value = &values[vx_i1];
                vx_i1 += 1;
                vx_hook!("MerkleBIT::insert@2");
                value_map.insert(key, value);
                vx_hook!("MerkleBIT::insert@3");
            }
        }
        keys.vx_sort();
        vx_hook!("MerkleBIT::insert@4");
        let nodes = self.insert_leaves(keys, &value_map)?;
        let mut tree_refs = vx_vec_cap(keys.len());
        let mut key_map = HashMap::new();
        {
            let mut vx_i2: usize = 0;
            vx_hook!("MerkleBIT::insert@5");
            while vx_i2 < nodes.len() && vx_i2 < keys.len() {
                vx_loop!("MerkleBIT::insert#2");
                let loc = nodes[vx_i2];
                let key = keys[vx_i2];
                vx_i2 += 1;
                vx_hook!("MerkleBIT::insert@6");
                key_map.insert(key, loc);
                let tree_ref = TreeRef::new(key, loc, 1, 1);
                tree_refs.push(tree_ref);
                vx_hook!("MerkleBIT::insert@7");
            }
            vx_hook!("MerkleBIT::insert@8");
        }
        if let Some(root) = previous_root {
            vx_hook!("MerkleBIT::insert@9");
            let mut proof_nodes = self.generate_treerefs(root, keys, &key_map)?;
            vx_hook!("MerkleBIT::insert@10");
            tree_refs.append(&mut proof_nodes);
        }
        let new_root = self.create_tree(tree_refs)?;
        Ok(new_root)
    }
    pub fn generate_treerefs(
        &mut self,
        root: &Array<N>,
        keys: &mut [Array<N>],
        key_map: &HashMap<Array<N>, Array<N>>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Vec < TreeRef < N > > >) {
        vx_spec!("MerkleBIT::generate_treerefs");
        let mut proof_nodes = vx_vec_cap(keys.len());
        let root_node = if let Some(m) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, *root)? {
            m
        } else {
            return Err(Exception::new("Could not find root"));
        };
        let mut cell_queue = vx_deque_cap(keys.len());
        let root_cell: TreeCell<M::Node, N> = TreeCell::new::<
            M::Branch,
            M::Leaf,
            M::Data,
        >(*root, keys, root_node, 0);
        cell_queue.push_front(root_cell);
        self.traverse_tree(key_map, &mut proof_nodes, &mut cell_queue)?;
        Ok(proof_nodes)
    }
    pub fn traverse_tree(
        &mut self,
        key_map: &HashMap<Array<N>, Array<N>>,
        proof_nodes: &mut Vec<TreeRef<N>>,
        cell_queue: &mut VecDeque<TreeCell<M::Node, N>>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::traverse_tree");
        vx_hook!("MerkleBIT::traverse_tree@0");
        vx_hook!("MerkleBIT::traverse_tree@1");
        while !cell_queue.is_empty() {
            vx_loop!("MerkleBIT::traverse_tree#1");
            let tree_cell = match cell_queue.pop_front() {
                Some(vx_item) => vx_item,
                None => vx_unreached(),
            };
            vx_hook!("MerkleBIT::traverse_tree@2");
            if tree_cell.depth > self.depth {
                return Err(Exception::new("Depth of merkle tree exceeded"));
            }
            let node = tree_cell.node;
            let depth = tree_cell.depth;
            let location = tree_cell.location;
            let mut refs = node.get_references();
            let branch = match node.get_variant() {
                NodeVariant::Branch(n) => n,
                NodeVariant::Leaf(n) => {
                    let key = n.get_key();
                    if key_map.contains_key(key) {
                        continue;
                    }
                    self.insert_leaf(&location)?;
                    let tree_ref = TreeRef::new(*key, location, 1, 1);
                    proof_nodes.push(tree_ref);
                    continue;
                }
                NodeVariant::Data(_) => {
                    return Err(
                        Exception::new(
                            "Corrupt merkle tree: Found data node while traversing tree",
                        ),
                    );
                }
            };
            let (
                branch_count,
                branch_zero,
                branch_one,
                branch_split_index,
                branch_key,
            ) = branch.decompose();
            let min_split_index = calc_min_split_index(tree_cell.keys, &branch_key)?;
            let mut descendants = tree_cell.keys;
            if min_split_index < branch_split_index {
                descendants = check_descendants(
                    tree_cell.keys,
                    branch_split_index,
                    &branch_key,
                    min_split_index,
                )?;
                if descendants.is_empty() {
                    let mut new_branch = M::Branch::new();
                    new_branch.set_count(branch_count);
                    new_branch.set_zero(branch_zero);
                    new_branch.set_one(branch_one);
                    new_branch.set_split_index(branch_split_index);
                    new_branch.set_key(branch_key);
                    let tree_ref = TreeRef::new(
                        branch_key,
                        tree_cell.location,
                        branch_count,
                        1,
                    );
                    refs += 1;
                    let mut new_node = M::Node::new(NodeVariant::Branch(new_branch));
                    new_node.set_references(refs);
                    vx_db_insert::<
                        M::Hasher,
                        M::Node,
                        M::Database,
                        N,
                    >(&mut self.db, tree_ref.location, new_node)?;
                    proof_nodes.push(tree_ref);
                    continue;
                }
            }
            let (zeros, ones) = split_pairs(descendants, branch_split_index)?;
            {
                match self.split_nodes(depth, branch_one, ones)? {
                    SplitNodeType::Ref(tree_ref) => proof_nodes.push(tree_ref),
                    SplitNodeType::Cell(cell) => cell_queue.push_front(cell),
                }
            }
            {
                match self.split_nodes(depth, branch_zero, zeros)? {
                    SplitNodeType::Ref(tree_ref) => proof_nodes.push(tree_ref),
                    SplitNodeType::Cell(cell) => cell_queue.push_front(cell),
                }
            }
        }
        vx_hook!("MerkleBIT::traverse_tree@3");
        Ok(())
    }
    pub fn insert_leaf(
        &mut self,
        location: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::insert_leaf");
        vx_hook!("MerkleBIT::insert_leaf@0");
        if let Some(mut l) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, *location)? {
            let leaf_refs = l.get_references() + 1;
            l.set_references(leaf_refs);
            vx_db_insert::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&mut self.db, *location, l)?;
            return Ok(());
        }
        Err(Exception::new("Corrupt merkle tree: Failed to update leaf references"))
    }
    pub fn split_nodes<'node_list>(
        &mut self,
        depth: usize,
        branch: Array<N>,
        node_list: &'node_list [Array<N>],
    ) -> vx_ret!(Result < SplitNodeType < 'node_list, M::Node, N >, Exception >) {
        vx_spec!("MerkleBIT::split_nodes");
        vx_hook!("MerkleBIT::split_nodes@0");
        if let Some(node) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, branch)? {
            return if node_list.is_empty() {
                let other_key;
                let count;
                let refs = node.get_references() + 1;
                let mut new_node;
                match node.get_variant() {
                    NodeVariant::Branch(b) => {
                        count = b.get_count();
                        other_key = *b.get_key();
                        new_node = M::Node::new(NodeVariant::Branch(b));
                    }
                    NodeVariant::Leaf(l) => {
                        count = 1;
                        other_key = *l.get_key();
                        new_node = M::Node::new(NodeVariant::Leaf(l));
                    }
                    NodeVariant::Data(_) => {
                        return Err(
                            Exception::new(
                                "Corrupt merkle tree: Found data node while traversing tree",
                            ),
                        );
                    }
                }
                new_node.set_references(refs);
                vx_db_insert::<
                    M::Hasher,
                    M::Node,
                    M::Database,
                    N,
                >(&mut self.db, branch, new_node)?;
                let tree_ref = TreeRef::new(other_key, branch, count, 1);
                Ok(SplitNodeType::Ref(tree_ref))
            } else {
                let new_cell = TreeCell::new::<
                    M::Branch,
                    M::Leaf,
                    M::Data,
                >(branch, node_list, node, depth + 1);
                Ok(SplitNodeType::Cell(new_cell))
            };
        }
        Err(Exception::new("Failed to find node in database."))
    }
    pub fn insert_leaves(
        &mut self,
        keys: &[Array<N>],
        values: &HashMap<Array<N>, &M::Value>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Vec < Array < N > > >) {
        vx_spec!("MerkleBIT::insert_leaves");
        vx_hook!("MerkleBIT::insert_leaves@0");
        let mut nodes = vx_vec_cap(keys.len());
        {
            let mut vx_i1: usize = 0;
            while vx_i1 < keys.len() {
                vx_loop!("MerkleBIT::insert_leaves#1");
                let k = &keys[vx_i1];
                vx_i1 += 1;
                vx_hook!("MerkleBIT::insert_leaves@1");
                let key = k.as_ref();
                let mut data = M::Data::new();
                data.set_value(&((*vx_hm_index(values, k)).encode()?));
                let mut data_hasher = M::Hasher::new(key.len());
                data_hasher.update(vx_lit_64());
                data_hasher.update(key);
                data_hasher.update(data.get_value());
                let data_node_location = data_hasher.finalize();
                let mut data_node = M::Node::new(NodeVariant::Data(data));
                data_node.set_references(1);
                let mut leaf = M::Leaf::new();
                leaf.set_data(data_node_location);
                leaf.set_key(*k);
                let mut leaf_hasher = M::Hasher::new(key.len());
                leaf_hasher.update(vx_lit_6c());
                leaf_hasher.update(key.as_ref());
                leaf_hasher.update(leaf.get_data().as_ref());
                let leaf_node_location = leaf_hasher.finalize();
                let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
                leaf_node.set_references(1);
                if let Some(n) = vx_db_get_node::<
                    M::Hasher,
                    M::Node,
                    M::Database,
                    N,
                >(&self.db, leaf_node_location)? {
                    let references = n.get_references() + 1;
                    leaf_node.set_references(references);
                } else {
                    if let Some(n) = vx_db_get_node::<
                        M::Hasher,
                        M::Node,
                        M::Database,
                        N,
                    >(&self.db, data_node_location)? {
                        let references = n.get_references() + 1;
                        data_node.set_references(references);
                    }
                    vx_db_insert::<
                        M::Hasher,
                        M::Node,
                        M::Database,
                        N,
                    >(&mut self.db, data_node_location, data_node)?;
                }
                vx_db_insert::<
                    M::Hasher,
                    M::Node,
                    M::Database,
                    N,
                >(&mut self.db, leaf_node_location, leaf_node)?;
                nodes.push(leaf_node_location);
                vx_hook!("MerkleBIT::insert_leaves@2");
            }
            vx_hook!("MerkleBIT::insert_leaves@3");
        }
        Ok(nodes)
    }
    pub fn create_tree(
        &mut self,
        arg_tree_refs: Vec<TreeRef<N>>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("MerkleBIT::create_tree");
        vx_hook!("MerkleBIT::create_tree@0");
        let mut tree_refs = arg_tree_refs;
        if tree_refs.is_empty() {
            return Err(Exception::new("tree_refs should not be empty!"));
        }
        vx_db_batch_write::<M::Hasher, M::Node, M::Database, N>(&mut self.db)?;
        if tree_refs.len() == 1 {
            let node = tree_refs.remove(0);
            return Ok(node.location);
        }
        tree_refs.vx_sort();
        vx_hook!("MerkleBIT::create_tree@1");
        let mut tree_ref_queue = HashMap::new();
        let unique_split_bits = generate_tree_ref_queue(
            &mut tree_refs,
            &mut tree_ref_queue,
        )?;
        vx_hook!("MerkleBIT::create_tree@2");
        let mut indices = vx_collect(unique_split_bits);
        vx_hook!("MerkleBIT::create_tree@3");
        indices.vx_sort();
        let mut root = None;
        {
            let mut vx_i1: usize = indices.len();
            vx_hook!("MerkleBIT::create_tree@4");
            while vx_i1 > 0 {
                vx_loop!("MerkleBIT::create_tree#1");
                vx_i1 -= 1;
                let i = indices[vx_i1];
                vx_hook!("MerkleBIT::create_tree@5");
                if let Some(level) = tree_ref_queue.remove(&i) {
                    root = self
                        .merge_nodes(
                            &mut tree_refs,
                            level,
                            vx_gh!(m0),
                            vx_gh!(r0),
                            vx_gh!(dd),
                        )?;
                } else {
                    return Err(Exception::new("Level should not be empty."));
                }
            }
            vx_hook!("MerkleBIT::create_tree@6");
        }
        match root {
            Some(vx_x) => Ok(vx_x),
            None => Err(Exception::new("Failed to get root.")),
        }
    }
    pub fn merge_nodes(
        &mut self,
        tree_refs: &mut [TreeRef<N>],
        level: Vec<(usize, usize, usize)>,
        vx_ghost(m0): Ghost<Store<N>>,
        vx_ghost(r0): Ghost<Seq<TreeRef<N>>>,
        vx_ghost(d): Ghost<int>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Option < Array < N > > >) {
        vx_spec!("MerkleBIT::merge_nodes");
        vx_hook!("MerkleBIT::merge_nodes@0");
        let mut root = [0; N];
        {
            let mut vx_i1: usize = 0;
            while vx_i1 < level.len() {
                vx_loop!("MerkleBIT::merge_nodes#1");
                let (split_index, tree_ref_pointer, next_tree_ref_pointer) = level[vx_i1];
                vx_i1 += 1;
                vx_hook!("MerkleBIT::merge_nodes@1");
                let mut branch = M::Branch::new();
                let tree_ref_key = tree_refs[tree_ref_pointer].key;
                let tree_ref_location = tree_refs[tree_ref_pointer].location;
                let tree_ref_count = tree_refs[tree_ref_pointer].node_count;
                let mut lookahead_count;
                let mut lookahead_tree_ref_pointer: usize;
                {
                    let mut count_ = tree_refs[next_tree_ref_pointer].count;
                    if count_ > 1 {
                        lookahead_tree_ref_pointer = tree_ref_pointer
                            + usize::try_from(count_)?;
                        lookahead_count = tree_refs[lookahead_tree_ref_pointer].count;
                        while lookahead_count > count_ {
                            vx_loop!("MerkleBIT::merge_nodes#2");
                            count_ = lookahead_count;
                            lookahead_tree_ref_pointer = tree_ref_pointer
                                + usize::try_from(count_)?;
                            lookahead_count = tree_refs[lookahead_tree_ref_pointer]
                                .count;
                        }
                    } else {
                        lookahead_count = count_;
                        lookahead_tree_ref_pointer = next_tree_ref_pointer;
                    }
                }
                let next_tree_ref_location = tree_refs[lookahead_tree_ref_pointer]
                    .location;
                let count = tree_ref_count
                    + tree_refs[lookahead_tree_ref_pointer].node_count;
                let branch_node_location;
                {
                    let mut branch_hasher = M::Hasher::new(root.len());
                    branch_hasher.update(vx_lit_62());
                    branch_hasher.update(&(*vx_all(&tree_ref_location)));
                    branch_hasher.update(&(*vx_all(&next_tree_ref_location)));
                    branch_node_location = branch_hasher.finalize();
                    branch.set_zero(tree_ref_location);
                    branch.set_one(next_tree_ref_location);
                    branch.set_count(count);
                    branch.set_split_index(split_index);
                    branch.set_key(tree_ref_key);
                }
                let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
                branch_node.set_references(1);
                vx_hook!("MerkleBIT::merge_nodes@2");
                if let Some(n) = vx_db_get_node::<
                    M::Hasher,
                    M::Node,
                    M::Database,
                    N,
                >(&self.db, branch_node_location)? {
                    let references = n.get_references() + 1;
                    branch_node.set_references(references);
                    vx_hook!("MerkleBIT::merge_nodes@3");
                    self.release_reference(&tree_ref_location)?;
                    self.release_reference(&next_tree_ref_location)?;
                }
                vx_db_insert::<
                    M::Hasher,
                    M::Node,
                    M::Database,
                    N,
                >(&mut self.db, branch_node_location, branch_node)?;
                {
                    tree_refs[lookahead_tree_ref_pointer].key = tree_ref_key;
                    tree_refs[lookahead_tree_ref_pointer].location = branch_node_location;
                    tree_refs[lookahead_tree_ref_pointer].count = lookahead_count
                        + tree_refs[tree_ref_pointer].count;
                    tree_refs[lookahead_tree_ref_pointer].node_count = count;
                    tree_refs[tree_ref_pointer] = tree_refs[lookahead_tree_ref_pointer];
                }
                root = branch_node_location;
                vx_hook!("MerkleBIT::merge_nodes@4");
            }
            vx_hook!("MerkleBIT::merge_nodes@5");
        }
        vx_db_batch_write::<M::Hasher, M::Node, M::Database, N>(&mut self.db)?;
        Ok(Some(root))
    }
    pub fn release_reference(
        &mut self,
        location: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::release_reference");
        vx_hook!("MerkleBIT::release_reference@0");
        if let Some(mut node) = vx_db_get_node::<
            M::Hasher,
            M::Node,
            M::Database,
            N,
        >(&self.db, *location)? {
            let references = node.get_references().saturating_sub(1);
            node.set_references(references);
            vx_db_insert::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&mut self.db, *location, node)?;
            return Ok(());
        }
        Err(Exception::new("Corrupt merkle tree: Failed to release a reference"))
    }
    pub fn remove(
        &mut self,
        root_hash: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::remove");
        vx_hook!("MerkleBIT::remove@0");
        vx_db_batch_write::<M::Hasher, M::Node, M::Database, N>(&mut self.db)?;
        let mut nodes = vx_deque_cap(128);
        nodes.push_front(*root_hash);
        vx_hook!("MerkleBIT::remove@1");
        while !nodes.is_empty() {
            vx_loop!("MerkleBIT::remove#1");
            let node_location;
            vx_hook!("MerkleBIT::remove@2");
            if let Some(location) = nodes.pop_front() {
                node_location = location;
            } else {
                return Err(Exception::new("Nodes should not be empty."));
            }
            let node = if let Some(n) = vx_db_get_node::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&self.db, node_location)? {
                n
            } else {
                continue;
            };
            let mut refs = node.get_references();
            refs = refs.saturating_sub(1);
            let mut new_node;
            match node.get_variant() {
                NodeVariant::Branch(b) => {
                    if refs == 0 {
                        let zero = *b.get_zero();
                        let one = *b.get_one();
                        nodes.push_back(zero);
                        nodes.push_back(one);
                        vx_db_remove::<
                            M::Hasher,
                            M::Node,
                            M::Database,
                            N,
                        >(&mut self.db, &node_location)?;
                        continue;
                    }
                    new_node = M::Node::new(NodeVariant::Branch(b));
                }
                NodeVariant::Leaf(l) => {
                    if refs == 0 {
                        let data = *l.get_data();
                        nodes.push_back(data);
                        vx_db_remove::<
                            M::Hasher,
                            M::Node,
                            M::Database,
                            N,
                        >(&mut self.db, &node_location)?;
                        continue;
                    }
                    new_node = M::Node::new(NodeVariant::Leaf(l));
                }
                NodeVariant::Data(d) => {
                    if refs == 0 {
                        vx_db_remove::<
                            M::Hasher,
                            M::Node,
                            M::Database,
                            N,
                        >(&mut self.db, &node_location)?;
                        continue;
                    }
                    new_node = M::Node::new(NodeVariant::Data(d));
                }
            }
            new_node.set_references(refs);
            vx_db_insert::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&mut self.db, node_location, new_node)?;
        }
        vx_hook!("MerkleBIT::remove@3");
        vx_db_batch_write::<M::Hasher, M::Node, M::Database, N>(&mut self.db)?;
        Ok(())
    }
    pub fn generate_inclusion_proof(
        &self,
        root: &Array<N>,
        key: Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Vec < (Array < N >, bool) > >) {
        vx_spec!("MerkleBIT::generate_inclusion_proof");
        vx_hook!("MerkleBIT::generate_inclusion_proof@0");
        let mut nodes = vx_deque_cap(3);
        nodes.push_front(*root);
        let mut proof = Vec::new();
        let mut found_leaf = false;
        let mut depth = 0;
        vx_hook!("MerkleBIT::generate_inclusion_proof@1");
        while !nodes.is_empty() {
            vx_loop!("MerkleBIT::generate_inclusion_proof#1");
            let location = match nodes.pop_front() {
                Some(vx_item) => vx_item,
                None => vx_unreached(),
            };
            vx_hook!("MerkleBIT::generate_inclusion_proof@2");
            if depth > self.depth {
                return Err(Exception::new("Depth limit exceeded"));
            }
            depth += 1;
            if let Some(node) = vx_db_get_node::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&self.db, location)? {
                match node.get_variant() {
                    NodeVariant::Branch(b) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        let index = b.get_split_index();
                        let b_key = b.get_key();
                        let min_split_index = calc_min_split_index(&[key], b_key)?;
                        let keys = &[key];
                        let descendants = check_descendants(
                            keys,
                            index,
                            b_key,
                            min_split_index,
                        )?;
                        if descendants.is_empty() {
                            return Err(Exception::new("Key not found in tree"));
                        }
                        if choose_zero(key, index)? {
                            proof.push((*b.get_one(), true));
                            nodes.push_back(*b.get_zero());
                        } else {
                            proof.push((*b.get_zero(), false));
                            nodes.push_back(*b.get_one());
                        }
                    }
                    NodeVariant::Leaf(l) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        if *l.get_key() != key {
                            return Err(Exception::new("Key not found in tree"));
                        }
                        let mut leaf_hasher = M::Hasher::new(location.len());
                        leaf_hasher.update(vx_lit_6c());
                        leaf_hasher.update(&(*vx_all(&l.get_key())));
                        leaf_hasher.update(&(*vx_all(&l.get_data())));
                        let leaf_node_location = leaf_hasher.finalize();
                        proof.push((leaf_node_location, false));
                        nodes.push_back(*l.get_data());
                        found_leaf = true;
                    }
                    NodeVariant::Data(d) => {
                        if !found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        let mut data_hasher = M::Hasher::new(location.len());
                        data_hasher.update(vx_lit_64());
                        data_hasher.update(&(*vx_all(&key)));
                        data_hasher.update(d.get_value());
                        let data_node_location = data_hasher.finalize();
                        proof.push((data_node_location, false));
                    }
                }
            } else {
                return Err(Exception::new("Failed to find node"));
            }
        }
        proof.reverse();
        Ok(proof)
    }
    pub fn verify_inclusion_proof(
        root: &Array<N>,
        key: Array<N>,
        value: &M::Value,
        proof: &[(Array<N>, bool)],
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("MerkleBIT::verify_inclusion_proof");
        vx_hook!("MerkleBIT::verify_inclusion_proof@0");
        if proof.len() < 2 {
            return Err(Exception::new("Proof is too short to be valid"));
        }
        let key_len = root.len();
        let mut data_hasher = M::Hasher::new(key_len);
        data_hasher.update(vx_lit_64());
        data_hasher.update(&(*vx_all(&key)));
        data_hasher.update(&value.encode()?);
        let data_hash = data_hasher.finalize();
        if data_hash != proof[0].0 {
            return Err(Exception::new("Proof is invalid"));
        }
        let mut leaf_hasher = M::Hasher::new(key_len);
        leaf_hasher.update(vx_lit_6c());
        leaf_hasher.update(&(*vx_all(&key)));
        leaf_hasher.update(&(*vx_all(&data_hash)));
        let leaf_hash = leaf_hasher.finalize();
        if leaf_hash != proof[1].0 {
            return Err(Exception::new("Proof is invalid"));
        }
        let mut current_hash = leaf_hash;
        {
            let mut vx_i1: usize = 2;
            while vx_i1 < proof.len() {
                vx_loop!("MerkleBIT::verify_inclusion_proof#1");
                let item = &proof[vx_i1];
                vx_i1 += 1;
                vx_hook!("MerkleBIT::verify_inclusion_proof@1");
                let mut branch_hasher = M::Hasher::new(key_len);
                branch_hasher.update(vx_lit_62());
                if item.1 {
                    branch_hasher.update(&(*vx_all(&current_hash)));
                    branch_hasher.update(&(*vx_all(&item.0)));
                } else {
                    branch_hasher.update(&(*vx_all(&item.0)));
                    branch_hasher.update(&(*vx_all(&current_hash)));
                }
                let branch_hash = branch_hasher.finalize();
                current_hash = branch_hash;
            }
        }
        if *root != current_hash {
            return Err(Exception::new("Proof is invalid"));
        }
        Ok(())
    }
    pub fn get_one(
        &self,
        root: &Array<N>,
        key: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Option < M::Value > >) {
        vx_spec!("MerkleBIT::get_one");
        vx_hook!("MerkleBIT::get_one@0");
        let mut nodes = vx_deque_cap(3);
        nodes.push_front(*root);
        let mut found_leaf = false;
        let mut depth = 0;
        vx_hook!("MerkleBIT::get_one@1");
        while !nodes.is_empty() {
            vx_loop!("MerkleBIT::get_one#1");
            let location = match nodes.pop_front() {
                Some(vx_item) => vx_item,
                None => vx_unreached(),
            };
            vx_hook!("MerkleBIT::get_one@2");
            if depth > self.depth {
                return Err(Exception::new("Depth limit exceeded"));
            }
            depth += 1;
            if let Some(node) = vx_db_get_node::<
                M::Hasher,
                M::Node,
                M::Database,
                N,
            >(&self.db, location)? {
                match node.get_variant() {
                    NodeVariant::Branch(b) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        let index = b.get_split_index();
                        let b_key = b.get_key();
                        let min_split_index = calc_min_split_index(&[*key], b_key)?;
                        let keys = &[*key];
                        let descendants = check_descendants(
                            keys,
                            index,
                            b_key,
                            min_split_index,
                        )?;
                        if descendants.is_empty() {
                            return Ok(None);
                        }
                        if choose_zero(*key, index)? {
                            nodes.push_back(*b.get_zero());
                        } else {
                            nodes.push_back(*b.get_one());
                        }
                    }
                    NodeVariant::Leaf(l) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        if l.get_key() != key {
                            return Ok(None);
                        }
                        found_leaf = true;
                        nodes.push_back(*l.get_data());
                    }
                    NodeVariant::Data(d) => {
                        if !found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }
                        let buffer = d.get_value();
                        let value = M::Value::decode(buffer)?;
                        return Ok(Some(value));
                    }
                }
            }
        }
        Ok(None)
    }
    pub fn insert_one(
        &mut self,
        previous_root: Option<&Array<N>>,
        key: &Array<N>,
        value: &M::Value,
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("MerkleBIT::insert_one");
        vx_hook!("MerkleBIT::insert_one@0");
        let mut value_map = HashMap::new();
        value_map.insert(*key, value);
        vx_hook!("MerkleBIT::insert_one@1");
        let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
        let mut tree_refs = vx_vec_cap(1);
        let mut key_map = HashMap::new();
        key_map.insert(*key, leaf_location);
        let tree_ref = TreeRef::new(*key, leaf_location, 1, 1);
        tree_refs.push(tree_ref);
        if let Some(root) = previous_root {
            vx_hook!("MerkleBIT::insert_one@2");
            let mut proof_nodes = self.generate_treerefs(root, &mut [*key], &key_map)?;
            vx_hook!("MerkleBIT::insert_one@3");
            tree_refs.append(&mut proof_nodes);
        }
        vx_hook!("MerkleBIT::insert_one@4");
        let new_root = self.create_tree(tree_refs)?;
        Ok(new_root)
    }
    pub fn decompose(self) -> vx_ret!((M::Database, usize)) {
        vx_spec!("MerkleBIT::decompose");
        (self.db, self.depth)
    }
}
// @@item merkle_bit.rs:934
pub enum SplitNodeType<'keys, NodeType: Node<N>, const N: usize> {
    Ref(TreeRef<N>),
    Cell(TreeCell<'keys, NodeType, N>),
}
// @@item traits.rs:16
pub trait Hasher<const N: usize>: Sized {
    vx_item!("trait Hasher");
    fn new(size: usize) -> vx_ret!(Self) {
        vx_spec!("trait Hasher::new");
        vx_nobody!();
    }
    fn update(&mut self, data: &[u8]) {
        vx_spec!("trait Hasher::update");
        vx_nobody!();
    }
    fn finalize(self) -> vx_ret!(Array < N >) {
        vx_spec!("trait Hasher::finalize");
        vx_nobody!();
    }
}
// @@item traits.rs:51
pub trait Branch<const N: usize>: Sized {
    vx_item!("trait Branch");
    fn new() -> Self;
    fn get_count(&self) -> vx_ret!(u64) {
        vx_spec!("trait Branch::get_count");
        vx_nobody!();
    }
    fn get_zero(&self) -> vx_ret!(& Array < N >) {
        vx_spec!("trait Branch::get_zero");
        vx_nobody!();
    }
    fn get_one(&self) -> vx_ret!(& Array < N >) {
        vx_spec!("trait Branch::get_one");
        vx_nobody!();
    }
    fn get_split_index(&self) -> vx_ret!(usize) {
        vx_spec!("trait Branch::get_split_index");
        vx_nobody!();
    }
    fn get_key(&self) -> vx_ret!(& Array < N >) {
        vx_spec!("trait Branch::get_key");
        vx_nobody!();
    }
    fn set_count(&mut self, count: u64) {
        vx_spec!("trait Branch::set_count");
        vx_nobody!();
    }
    fn set_zero(&mut self, zero: Array<N>) {
        vx_spec!("trait Branch::set_zero");
        vx_nobody!();
    }
    fn set_one(&mut self, one: Array<N>) {
        vx_spec!("trait Branch::set_one");
        vx_nobody!();
    }
    fn set_split_index(&mut self, index: usize) {
        vx_spec!("trait Branch::set_split_index");
        vx_nobody!();
    }
    fn set_key(&mut self, key: Array<N>) {
        vx_spec!("trait Branch::set_key");
        vx_nobody!();
    }
    fn decompose(self) -> vx_ret!((u64, Array < N >, Array < N >, usize, Array < N >)) {
        vx_spec!("trait Branch::decompose");
        vx_nobody!();
    }
}
// @@item traits.rs:79
pub trait Leaf<const N: usize>: Sized {
    vx_item!("trait Leaf");
    fn new() -> Self;
    fn get_key(&self) -> vx_ret!(& Array < N >) {
        vx_spec!("trait Leaf::get_key");
        vx_nobody!();
    }
    fn get_data(&self) -> vx_ret!(& Array < N >) {
        vx_spec!("trait Leaf::get_data");
        vx_nobody!();
    }
    fn set_key(&mut self, key: Array<N>) {
        vx_spec!("trait Leaf::set_key");
        vx_nobody!();
    }
    fn set_data(&mut self, data: Array<N>) {
        vx_spec!("trait Leaf::set_data");
        vx_nobody!();
    }
    fn decompose(self) -> vx_ret!((Array < N >, Array < N >)) {
        vx_spec!("trait Leaf::decompose");
        vx_nobody!();
    }
}
// @@item traits.rs:95
pub trait Data: Sized {
    vx_item!("trait Data");
    fn new() -> Self;
    fn get_value(&self) -> vx_ret!(& [u8]) {
        vx_spec!("trait Data::get_value");
        vx_nobody!();
    }
    fn set_value(&mut self, value: &[u8]) {
        vx_spec!("trait Data::set_value");
        vx_nobody!();
    }
}
// @@item traits.rs:105
pub trait Node<const N: usize>: Sized {
    vx_item!("trait Node");
    type Branch: Branch<N>;
    type Leaf: Leaf<N>;
    type Data: Data;
    fn new(
        node_variant: NodeVariant<Self::Branch, Self::Leaf, Self::Data, N>,
    ) -> vx_ret!(Self) {
        vx_spec!("trait Node::new");
        vx_nobody!();
    }
    fn get_references(&self) -> vx_ret!(u64) {
        vx_spec!("trait Node::get_references");
        vx_nobody!();
    }
    fn get_variant(
        self,
    ) -> vx_ret!(NodeVariant < Self::Branch, Self::Leaf, Self::Data, N >) {
        vx_spec!("trait Node::get_variant");
        vx_nobody!();
    }
    fn set_references(&mut self, references: u64) {
        vx_spec!("trait Node::set_references");
        vx_nobody!();
    }
    fn set_branch(&mut self, branch: Self::Branch) {
        vx_spec!("trait Node::set_branch");
        vx_nobody!();
    }
    fn set_leaf(&mut self, leaf: Self::Leaf) {
        vx_spec!("trait Node::set_leaf");
        vx_nobody!();
    }
    fn set_data(&mut self, data: Self::Data) {
        vx_spec!("trait Node::set_data");
        vx_nobody!();
    }
}
// @@item traits.rs:129
pub enum NodeVariant<
    BranchType: Branch<N>,
    LeafType: Leaf<N>,
    DataType: Data,
    const N: usize,
> {
    Branch(BranchType),
    Leaf(LeafType),
    Data(DataType),
}
// @@item traits.rs:129
impl<
    BranchType: Branch<N> + Clone,
    LeafType: Leaf<N> + Clone,
    DataType: Data + Clone,
    const N: usize,
> Clone for NodeVariant<BranchType, LeafType, DataType, N> {
    fn clone(&self) -> vx_ret!(Self) {
        vx_spec!("Clone for NodeVariant::clone");
        match self {
            NodeVariant::Branch(x) => NodeVariant::Branch(x.clone()),
            NodeVariant::Leaf(x) => NodeVariant::Leaf(x.clone()),
            NodeVariant::Data(x) => NodeVariant::Data(x.clone()),
        }
    }
}
// @@item traits.rs:142
pub trait Database<const N: usize, M: Node<N>>: Sized {
    vx_item!("trait Database");
    type EntryType;
    fn open(path: &VxPath) -> vx_ret!(Result < Self, Exception >)
    where
        Self: Sized,
    {
        vx_spec!("trait Database::open");
        vx_nobody!();
    }
    fn get_node(&self, key: Array<N>) -> vx_ret!(Result < Option < M >, Exception >) {
        vx_spec!("trait Database::get_node");
        vx_nobody!();
    }
    fn insert(&mut self, key: Array<N>, node: M) -> vx_ret!(Result < (), Exception >) {
        vx_spec!("trait Database::insert");
        vx_nobody!();
    }
    fn remove(&mut self, key: &Array<N>) -> vx_ret!(Result < (), Exception >) {
        vx_spec!("trait Database::remove");
        vx_nobody!();
    }
    fn batch_write(&mut self) -> vx_ret!(Result < (), Exception >) {
        vx_spec!("trait Database::batch_write");
        vx_nobody!();
    }
}
// @@item traits.rs:170
pub trait Encode: Sized {
    vx_item!("trait Encode");
    fn encode(&self) -> vx_ret!(Result < Vec < u8 >, Exception >) {
        vx_spec!("trait Encode::encode");
        vx_nobody!();
    }
}
// @@item traits.rs:177
impl Encode for Vec<u8> {
    vx_item!("impl Encode for Vec");
    fn encode(&self) -> Result<Self, Exception> {
        vx_hook!("Encode for Vec::encode@0");
        Ok(self.clone())
    }
}
// @@item traits.rs:187
pub trait Decode: Sized {
    vx_item!("trait Decode");
    fn decode(buffer: &[u8]) -> vx_ret!(Result < Self, Exception >)
    where
        Self: Sized,
    {
        vx_spec!("trait Decode::decode");
        vx_nobody!();
    }
}
// @@item traits.rs:196
impl Decode for Vec<u8> {
    vx_item!("impl Decode for Vec");
    fn decode(buffer: &[u8]) -> Result<Self, Exception> {
        Ok(buffer.to_vec())
    }
}
// @@item traits.rs:205
pub struct Exception {
    pub details: String,
}
// @@item traits.rs:211
impl Exception {
    #[verifier::external_body]
    pub fn new(details: &str) -> vx_ret!(Self) {
        vx_spec!("Exception::new");
        unimplemented!()
    }
}
// @@item traits.rs:236
impl From<Infallible> for Exception {
    #[verifier::external_body]
    fn from(_inf: Infallible) -> Self {
        Self::new("Infallible")
    }
}
// @@item traits.rs:243
impl From<TryFromIntError> for Exception {
    #[verifier::external_body]
    fn from(err: TryFromIntError) -> Self {
        Self::new(&err.to_string())
    }
}
// @@item tree/tree_branch.rs:29
#[derive(Clone, Copy)]
pub struct TreeBranch<const N: usize> {
    pub count: u64,
    pub zero: Array<N>,
    pub one: Array<N>,
    pub split_index: usize,
    pub key: Array<N>,
}
// @@item tree/tree_branch.rs:45
impl<const N: usize> Branch<N> for TreeBranch<N> {
    vx_item!("impl Branch for TreeBranch");
    fn new() -> Self {
        Self {
            count: 0,
            zero: [0; N],
            one: [0; N],
            split_index: 0,
            key: [0; N],
        }
    }
    fn get_count(&self) -> u64 {
        self.count
    }
    fn get_zero(&self) -> &Array<N> {
        &self.zero
    }
    fn get_one(&self) -> &Array<N> {
        &self.one
    }
    fn get_split_index(&self) -> usize {
        self.split_index
    }
    fn get_key(&self) -> &Array<N> {
        &self.key
    }
    fn set_count(&mut self, count: u64) {
        self.count = count;
    }
    fn set_zero(&mut self, zero: Array<N>) {
        self.zero = zero;
    }
    fn set_one(&mut self, one: Array<N>) {
        self.one = one;
    }
    fn set_split_index(&mut self, index: usize) {
        self.split_index = index;
    }
    fn set_key(&mut self, key: Array<N>) {
        self.key = key;
    }
    fn decompose(self) -> (u64, Array<N>, Array<N>, usize, Array<N>) {
        (self.count, self.zero, self.one, self.split_index, self.key)
    }
}
// @@item tree/tree_data.rs:25
pub struct TreeData {
    pub value: Vec<u8>,
}
// @@item tree/tree_data.rs:25
impl Clone for TreeData {
    fn clone(&self) -> vx_ret!(Self) {
        vx_spec!("Clone for TreeData::clone");
        TreeData {
            value: self.value.clone(),
        }
    }
}
// @@item tree/tree_data.rs:25
impl TreeData {
    pub fn default() -> Self {
        TreeData { value: Vec::new() }
    }
}
// @@item tree/tree_data.rs:32
impl Data for TreeData {
    vx_item!("impl Data for TreeData");
    fn new() -> Self {
        Self::default()
    }
    fn get_value(&self) -> &[u8] {
        &self.value
    }
    fn set_value(&mut self, value: &[u8]) {
        self.value = value.to_vec();
    }
}
// @@item tree/tree_leaf.rs:26
#[derive(Clone, Copy)]
pub struct TreeLeaf<const N: usize> {
    pub key: Array<N>,
    pub data: Array<N>,
}
// @@item tree/tree_leaf.rs:35
impl<const N: usize> TreeLeaf<N> {
    pub fn default() -> Self {
        Self { key: [0; N], data: [0; N] }
    }
}
// @@item tree/tree_leaf.rs:55
impl<const N: usize> Leaf<N> for TreeLeaf<N> {
    vx_item!("impl Leaf for TreeLeaf");
    fn new() -> Self {
        Self::default()
    }
    fn get_key(&self) -> &Array<N> {
        &self.key
    }
    fn get_data(&self) -> &Array<N> {
        &self.data
    }
    fn set_key(&mut self, key: Array<N>) {
        self.key = key;
    }
    fn set_data(&mut self, data: Array<N>) {
        self.data = data;
    }
    fn decompose(self) -> (Array<N>, Array<N>) {
        (self.key, self.data)
    }
}
// @@item tree/tree_node.rs:28
pub struct TreeNode<const N: usize> {
    pub references: u64,
    pub node: NodeVariant<TreeBranch<N>, TreeLeaf<N>, TreeData, N>,
}
// @@item tree/tree_node.rs:28
impl<const N: usize> Clone for TreeNode<N> {
    fn clone(&self) -> vx_ret!(Self) {
        vx_spec!("Clone for TreeNode::clone");
        TreeNode {
            references: self.references.clone(),
            node: self.node.clone(),
        }
    }
}
// @@item tree/tree_node.rs:38
impl<const N: usize> Node<N> for TreeNode<N> {
    vx_item!("impl Node for TreeNode");
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    fn new(node_variant: NodeVariant<TreeBranch<N>, TreeLeaf<N>, TreeData, N>) -> Self {
        Self {
            references: 0,
            node: node_variant,
        }
    }
    fn get_references(&self) -> u64 {
        self.references
    }
    fn get_variant(self) -> NodeVariant<TreeBranch<N>, TreeLeaf<N>, TreeData, N> {
        self.node
    }
    fn set_references(&mut self, references: u64) {
        self.references = references;
    }
    fn set_branch(&mut self, branch: TreeBranch<N>) {
        self.node = NodeVariant::Branch(branch);
    }
    fn set_leaf(&mut self, leaf: TreeLeaf<N>) {
        self.node = NodeVariant::Leaf(leaf);
    }
    fn set_data(&mut self, data: TreeData) {
        self.node = NodeVariant::Data(data);
    }
}
// @@item tree_db/hashmap.rs:9
pub struct HashDB<const N: usize> {
    pub map: HashMap<Array<N>, TreeNode<N>>,
}
// @@item tree_db/hashmap.rs:14
impl<const N: usize> HashDB<N> {
    pub fn new(map: HashMap<Array<N>, TreeNode<N>>) -> vx_ret!(Self) {
        vx_spec!("HashDB::new");
        Self { map }
    }
    pub fn decompose(self) -> vx_ret!(HashMap < Array < N >, TreeNode < N > >) {
        vx_spec!("HashDB::decompose");
        self.map
    }
}
// @@item tree_db/hashmap.rs:30
impl<const N: usize> Database<N, TreeNode<N>> for HashDB<N> {
    vx_item!("impl Database for HashDB");
    type EntryType = (Array<N>, Vec<u8>);
    fn open(_path: &VxPath) -> Result<Self, Exception> {
        vx_hook!("Database for HashDB::open@0");
        Ok(Self::new(HashMap::new()))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        vx_hook!("Database for HashDB::get_node@0");
        match self.map.get(&key) {
            Some(m) => {
                let node = m.clone();
                Ok(Some(node))
            }
            None => Ok(None),
        }
    }
    fn insert(&mut self, key: Array<N>, value: TreeNode<N>) -> Result<(), Exception> {
        vx_hook!("Database for HashDB::insert@0");
        self.map.insert(key, value);
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        vx_hook!("Database for HashDB::remove@0");
        self.map.remove(key);
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        Ok(())
    }
}
// @@item tree_db/rocksdb.rs:10
impl From<RocksError> for Exception {
    #[verifier::external_body]
    fn from(error: RocksError) -> Self {
        Self::new(&error.to_string())
    }
}
// @@item tree_db/rocksdb.rs:17
pub struct RocksDB<const N: usize> {
    pub db: DB,
    pub pending_inserts: Option<WriteBatch>,
}
// @@item tree_db/rocksdb.rs:22
impl<const N: usize> RocksDB<N> {
    pub fn new(db: DB) -> vx_ret!(Self) {
        vx_spec!("RocksDB::new");
        vx_hook!("RocksDB::new@0");
        Self {
            db,
            pending_inserts: Some(WriteBatch::default()),
        }
    }
    pub fn decompose(self) -> vx_ret!(DB) {
        vx_spec!("RocksDB::decompose");
        self.db
    }
}
// @@item tree_db/rocksdb.rs:37
impl<const N: usize> Database<N, TreeNode<N>> for RocksDB<N> {
    vx_item!("impl Database for RocksDB");
    type EntryType = (usize, usize);
    fn open(path: &VxPath) -> Result<Self, Exception> {
        vx_hook!("Database for RocksDB::open@0");
        Ok(Self::new(DB::open_default(path)?))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        vx_hook!("Database for RocksDB::get_node@0");
        if let Some(buffer) = self.db.get(&key)? {
            Ok(Some(TreeNode::decode(buffer.as_ref())?))
        } else {
            Ok(None)
        }
    }
    fn insert(&mut self, key: Array<N>, value: TreeNode<N>) -> Result<(), Exception> {
        vx_hook!("Database for RocksDB::insert@0");
        let serialized = value.encode()?;
        if let Some(wb) = &mut self.pending_inserts {
            wb.put(key, serialized);
        } else {
            let mut wb = WriteBatch::default();
            wb.put(key, serialized);
            self.pending_inserts = Some(wb);
        }
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        vx_hook!("Database for RocksDB::remove@0");
        Ok(self.db.delete(key)?)
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        vx_hook!("Database for RocksDB::batch_write@0");
        if let Some(wb) = self.pending_inserts.replace(WriteBatch::default()) {
            self.db.write(wb)?;
        }
        self.pending_inserts = None;
        Ok(())
    }
}
// @@item tree_db/mod.rs:11
pub type HashTreeDB<const N: usize> = HashDB<N>;
// @@item tree_hasher/default.rs:6
impl<const N: usize> Hasher<N> for DefaultHasher {
    vx_item!("impl Hasher for DefaultHasher");
    fn new(_size: usize) -> Self {
        Self::new()
    }
    fn update(&mut self, data: &[u8]) {
        Self::write(self, data);
    }
    fn finalize(self) -> Array<N> {
        vx_hook!("Hasher for DefaultHasher::finalize@0");
        let value = vx_le_bytes(Self::finish(&self));
        let mut v = [0; N];
        if N >= 8 {
            v[..8].copy_from_slice(&value);
        } else {
            v[..N].copy_from_slice(&value[..N]);
        }
        v
    }
}
// @@item tree_hasher/mod.rs:36
pub type TreeHasher = DefaultHasher;
// @@item utils/tree_cell.rs:6
pub struct TreeCell<'keys, NodeType, const N: usize> {
    pub location: Array<N>,
    pub keys: &'keys [Array<N>],
    pub node: NodeType,
    pub depth: usize,
}
// @@item utils/tree_cell.rs:17
impl<'keys, NodeType, const N: usize> TreeCell<'keys, NodeType, N> {
    pub fn new<BranchType: Branch<N>, LeafType: Leaf<N>, DataType: Data>(
        location: Array<N>,
        keys: &'keys [Array<N>],
        node: NodeType,
        depth: usize,
    ) -> vx_ret!(Self) {
        vx_spec!("TreeCell::new");
        Self {
            location,
            keys,
            node,
            depth,
        }
    }
}
// @@item utils/tree_ref.rs:5
#[derive(Clone, Copy)]
pub struct TreeRef<const N: usize> {
    pub key: Array<N>,
    pub location: Array<N>,
    pub node_count: u64,
    pub count: u32,
}
// @@item utils/tree_ref.rs:20
impl<const N: usize> TreeRef<N> {
    pub fn new(
        key: Array<N>,
        location: Array<N>,
        node_count: u64,
        count: u32,
    ) -> vx_ret!(Self) {
        vx_spec!("TreeRef::new");
        Self {
            key,
            location,
            node_count,
            count,
        }
    }
}
// @@item utils/tree_ref.rs:34
impl<const N: usize> TreeRef<N> {
    pub fn partial_cmp(&self, other: &Self) -> vx_ret!(Option < Ordering >) {
        vx_spec!("TreeRef::partial_cmp");
        vx_hook!("TreeRef::partial_cmp@0");
        self.key.partial_cmp(&other.key)
    }
}
// @@item utils/tree_ref.rs:41
impl<const N: usize> TreeRef<N> {
    pub fn cmp(&self, other_ref: &Self) -> vx_ret!(Ordering) {
        vx_spec!("TreeRef::cmp");
        vx_hook!("TreeRef::cmp@0");
        self.key.cmp(&other_ref.key)
    }
}
// @@item utils/tree_utils.rs:27
pub fn choose_zero<const N: usize>(
    key: Array<N>,
    bit: usize,
) -> vx_ret!(Result < bool, Exception >) {
    vx_spec!("choose_zero");
    vx_hook!("choose_zero@0");
    let index = bit >> 3_usize;
    let shift = bit % 8;
    if let Some(v) = key.get(index) {
        let extracted_bit = usize::try_from(*v)? >> (7 - shift) & 1;
        return Ok(extracted_bit == 0);
    }
    Err(Exception::new("Designated bit exceeds key length"))
}
// @@item utils/tree_utils.rs:42
pub fn split_pairs<const N: usize>(
    sorted_pairs: &[Array<N>],
    bit: usize,
) -> vx_ret!(Result < (& [Array < N >], & [Array < N >]), Exception >) {
    vx_spec!("split_pairs");
    if sorted_pairs.is_empty() {
        return Ok((&[], &[]));
    }
    if let Some(vx_r_last) = sorted_pairs.last() {
        let last = *vx_r_last;
        if choose_zero(last, bit)? {
            return Ok((sorted_pairs, &[]));
        }
    }
    if let Some(vx_r_first) = sorted_pairs.first() {
        let first = *vx_r_first;
        if !choose_zero(first, bit)? {
            return Ok((&[], sorted_pairs));
        }
    }
    let pp = sorted_pairs
        .partition_point(|vx_r_v| -> vx_cret!() {
            vx_closure!("split_pairs|1");
            let v = *vx_r_v;
            { if let Ok(b) = choose_zero(v, bit) { b } else { false } }
        });
    Ok(sorted_pairs.split_at(pp))
}
// @@item utils/tree_utils.rs:77
pub fn check_descendants<'keys, const N: usize>(
    keys: &'keys [Array<N>],
    branch_split_index: usize,
    branch_key: &Array<N>,
    min_split_index: usize,
) -> vx_ret!(Result < & 'keys[Array < N >], Exception >) {
    vx_spec!("check_descendants");
    vx_hook!("check_descendants@0");
    let mut start = 0;
    let mut end = 0;
    let mut found_start = false;
    {
        let mut vx_i1: usize = 0;
        while vx_i1 < keys.len() {
            vx_loop!("check_descendants#1");
            let i = vx_i1;
            let k = &keys[vx_i1];
            vx_i1 += 1;
            let key = k.as_ref();
            let mut descendant = true;
            {
                let mut vx_i2: usize = (min_split_index >> 3_usize);
                let vx_n2: usize = ((branch_split_index + 7) >> 3_usize);
                vx_hook!("check_descendants@1");
                while vx_i2 < vx_n2 {
                    vx_loop!("check_descendants#2");
                    let byte = vx_i2;
                    vx_i2 += 1;
                    vx_hook!("check_descendants@2");
                    if branch_key[byte] == key[byte] {
                        continue;
                    }
                    let xor_key: u8 = branch_key[byte] ^ key[byte];
                    let split_bit = (byte << 3_usize) + 7
                        - usize::try_from(fast_log_2(xor_key))?;
                    if split_bit < branch_split_index {
                        descendant = false;
                        break;
                    }
                }
                vx_hook!("check_descendants@3");
            }
            if descendant && !found_start {
                start = i;
                found_start = true;
            }
            if !descendant && found_start {
                end = i;
                break;
            }
            if descendant && i == keys.len() - 1 && found_start {
                end = i + 1;
                break;
            }
        }
        vx_hook!("check_descendants@4");
    }
    Ok(&keys[start..end])
}
// @@item utils/tree_utils.rs:121
pub fn calc_min_split_index<const N: usize>(
    keys: &[Array<N>],
    branch_key: &Array<N>,
) -> vx_ret!(Result < usize, Exception >) {
    vx_spec!("calc_min_split_index");
    vx_hook!("calc_min_split_index@0");
    let mut min_key = if let Some(key) = keys.first() {
        key
    } else {
        return Err(Exception::new("Failed to get min key from list of keys."));
    };
    let mut max_key = if let Some(key) = keys.last() {
        key
    } else {
        return Err(Exception::new("Failed to get max key from list of keys."));
    };
    if vx_lt(&branch_key, &min_key) {
        min_key = branch_key;
    } else if vx_gt(&branch_key, &max_key) {
        max_key = branch_key;
    }
    let mut split_bit = N * 8 - 1;
    {
        let mut vx_i1: usize = 0;
        vx_hook!("calc_min_split_index@1");
        while vx_i1 < min_key.len() {
            vx_loop!("calc_min_split_index#1");
            let i = vx_i1;
            let min_key_byte = min_key[vx_i1];
            vx_i1 += 1;
            vx_hook!("calc_min_split_index@2");
            if min_key_byte == max_key[i] {
                continue;
            }
            let xor_key: u8 = min_key_byte ^ max_key[i];
            split_bit = (i << 3_usize) + 7_usize - usize::try_from(fast_log_2(xor_key))?;
            break;
        }
        vx_hook!("calc_min_split_index@3");
    }
    Ok(split_bit)
}
// @@item utils/tree_utils.rs:158
pub fn generate_leaf_map<ValueType, const N: usize>(
    keys: &[Array<N>],
) -> vx_ret!(HashMap < Array < N >, Option < ValueType > >) {
    vx_spec!("generate_leaf_map");
    vx_hook!("generate_leaf_map@0");
    let mut leaf_map = HashMap::new();
    {
        let mut vx_i1: usize = 0;
        while vx_i1 < keys.len() {
            vx_loop!("generate_leaf_map#1");
            let key = keys[vx_i1];
            vx_i1 += 1;
            vx_hook!("generate_leaf_map@1");
            leaf_map.insert(key, None);
        }
        vx_hook!("generate_leaf_map@2");
    }
    leaf_map
}
// @@item utils/tree_utils.rs:171
pub fn fast_log_2(num: u8) -> vx_ret!(u8) {
    vx_spec!("fast_log_2");
    vx_hook!("fast_log_2@0");
    let mut log = num;
    log |= log >> 1_u8;
    log |= log >> 2_u8;
    log |= log >> 4_u8;
    MULTIPLY_DE_BRUIJN_BIT_POSITION[((0x1d_usize * log as usize) as u8 >> 5_u8) as usize]
}
// @@item utils/tree_utils.rs:183
pub fn generate_tree_ref_queue<S: std::hash::BuildHasher, const N: usize>(
    tree_refs: &mut Vec<TreeRef<N>>,
    tree_ref_queue: &mut HashMap<usize, Vec<(usize, usize, usize)>, S>,
) -> vx_ret!(BinaryMerkleTreeResult < HashSet < usize > >) {
    vx_spec!("generate_tree_ref_queue");
    vx_hook!("generate_tree_ref_queue@0");
    let mut unique_split_bits = HashSet::new();
    {
        let mut vx_i1: usize = 0;
        let vx_n1: usize = tree_refs.len() - 1;
        while vx_i1 < vx_n1 {
            vx_loop!("generate_tree_ref_queue#1");
            let i = vx_i1;
            vx_i1 += 1;
            vx_hook!("generate_tree_ref_queue@1");
            let left_key = tree_refs[i].key.as_ref();
            let right_key = tree_refs[i + 1].key.as_ref();
            let key_len = left_key.len();
            {
                let mut vx_i2: usize = 0;
                let vx_n2: usize = key_len;
                while vx_i2 < vx_n2 {
                    vx_loop!("generate_tree_ref_queue#2");
                    let j = vx_i2;
                    vx_i2 += 1;
                    vx_hook!("generate_tree_ref_queue@2");
                    if j == key_len - 1_usize && left_key[j] == right_key[j] {
                        return Err(
                            Exception::new(
                                "Attempted to insert item with duplicate keys",
                            ),
                        );
                    }
                    if left_key[j] == right_key[j] {
                        continue;
                    }
                    let xor_key: u8 = left_key[j] ^ right_key[j];
                    let split_bit = (j * 8_usize) + 7_usize
                        - usize::try_from(fast_log_2(xor_key))?;
                    unique_split_bits.insert(split_bit);
                    let new_item = (split_bit, i, i + 1_usize);
                    if let Some(mut vx_entry) = vx_hm_take(
                        &mut *tree_ref_queue,
                        &split_bit,
                    ) {
                        {
                            (vx_entry).push(new_item);
                        }
                        tree_ref_queue.insert(split_bit, vx_entry);
                    } else {
                        {
                            tree_ref_queue.insert(split_bit, vec![new_item]);
                        };
                    };
                    break;
                }
            }
        }
    }
    Ok(unique_split_bits)
}
// @@item rocks_tree.rs:22
pub type Tree_rocks_tree<const N: usize, Value> = MerkleBIT<RocksTree_Cfg<N, Value>, N>;
// @@item rocks_tree.rs:24
pub struct RocksTree<const N: usize = 32, ValueType: Encode + Decode = Vec<u8>> {
    pub tree: Tree_rocks_tree<N, ValueType>,
}
// @@item rocks_tree.rs:24
pub struct RocksTree_Cfg<const N: usize = 32, ValueType: Encode + Decode = Vec<u8>> {
    pub _c: std::marker::PhantomData<(ValueType,)>,
}
// @@item rocks_tree.rs:28
impl<const N: usize, Value: Encode + Decode> MerkleTree<N> for RocksTree_Cfg<N, Value> {
    type Database = RocksDB<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Value;
}
// @@item rocks_tree.rs:38
impl<const N: usize, ValueType: Encode + Decode> RocksTree<N, ValueType> {
    pub fn open(
        path: &VxPath,
        depth: usize,
    ) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("RocksTree::open");
        let db = RocksDB::open(path)?;
        let tree = MerkleBIT::from_db(db, depth)?;
        Ok(Self { tree })
    }
    pub fn from_db(
        db: RocksDB<N>,
        depth: usize,
    ) -> vx_ret!(BinaryMerkleTreeResult < Self >) {
        vx_spec!("RocksTree::from_db");
        let tree = MerkleBIT::from_db(db, depth)?;
        Ok(Self { tree })
    }
    pub fn get(
        &self,
        root_hash: &Array<N>,
        keys: &mut [Array<N>],
    ) -> vx_ret!(
        BinaryMerkleTreeResult < HashMap < Array < N >, Option < ValueType > > >
    ) {
        vx_spec!("RocksTree::get");
        self.tree.get(root_hash, keys)
    }
    pub fn get_one(
        &self,
        root: &Array<N>,
        key: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Option < ValueType > >) {
        vx_spec!("RocksTree::get_one");
        self.tree.get_one(&root, &key)
    }
    pub fn insert(
        &mut self,
        previous_root: Option<&Array<N>>,
        keys: &mut [Array<N>],
        values: &[ValueType],
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("RocksTree::insert");
        self.tree.insert(previous_root, keys, values)
    }
    pub fn insert_one(
        &mut self,
        previous_root: Option<&Array<N>>,
        key: &Array<N>,
        value: &ValueType,
    ) -> vx_ret!(BinaryMerkleTreeResult < Array < N > >) {
        vx_spec!("RocksTree::insert_one");
        self.tree.insert_one(previous_root, key, value)
    }
    pub fn remove(
        &mut self,
        root_hash: &Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("RocksTree::remove");
        self.tree.remove(root_hash)
    }
    pub fn generate_inclusion_proof(
        &self,
        root: &Array<N>,
        key: Array<N>,
    ) -> vx_ret!(BinaryMerkleTreeResult < Vec < (Array < N >, bool) > >) {
        vx_spec!("RocksTree::generate_inclusion_proof");
        self.tree.generate_inclusion_proof(root, key)
    }
    pub fn verify_inclusion_proof(
        root: &Array<N>,
        key: Array<N>,
        value: &ValueType,
        proof: &Vec<(Array<N>, bool)>,
    ) -> vx_ret!(BinaryMerkleTreeResult < () >) {
        vx_spec!("RocksTree::verify_inclusion_proof");
        Tree_rocks_tree::verify_inclusion_proof(root, key, value, proof)
    }
    pub fn decompose(self) -> vx_ret!((RocksDB < N >, usize)) {
        vx_spec!("RocksTree::decompose");
        self.tree.decompose()
    }
}
