//! The systems under test: the real crate, on an instrumented database and an injective hasher, and the
//! crate's own in-memory tree.
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Data, Database, Decode, Encode, Exception, Hasher, Leaf, Node, NodeVariant};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::Array;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::rc::Rc;

pub type K = Vec<u8>;

pub fn arr<const N: usize>(b: &[u8]) -> Array<N> {
    let mut a = [0u8; N];
    a.copy_from_slice(b);
    a.into()
}

// ---------------------------------------------------------------- an injective hash
thread_local! {
    static TABLE: RefCell<(HashMap<Vec<u8>, u64>, Vec<Vec<u8>>)> = RefCell::new((HashMap::new(), Vec::new()));
}

pub struct Exhausted;

pub fn reset_table() {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        t.0.clear();
        t.1.clear();
    });
}

/// every string hashed so far with its location
pub fn hashed(n: usize) -> Vec<(Vec<u8>, K)> {
    TABLE.with(|t| t.borrow().1.iter().enumerate().map(|(i, s)| (s.clone(), spread(i as u64, n))).collect())
}

pub fn preimages(n: usize) -> HashMap<K, Vec<u8>> {
    hashed(n).into_iter().map(|(s, l)| (l, s)).collect()
}

fn spread(id: u64, n: usize) -> K {
    let mut v = vec![0u8; n];
    match n {
        1 => v[0] = (id as u8).wrapping_mul(167).wrapping_add(91),
        2 => v.copy_from_slice(&(id as u16).wrapping_mul(40503).wrapping_add(0x5a5a).to_be_bytes()),
        3 => {
            let x = id.wrapping_mul(0x9e_3779).wrapping_add(0x5a5a5a);
            v.copy_from_slice(&x.to_be_bytes()[5..]);
        }
        _ => {
            let x = (id as u32).wrapping_mul(0x9e37_79b1).wrapping_add(0x1234_5678);
            for (i, b) in v.iter_mut().enumerate() {
                *b = x.to_be_bytes()[i % 4] ^ ((i / 4) as u8).wrapping_mul(0x3d);
            }
        }
    }
    v
}

pub fn intern(s: &[u8], n: usize) -> K {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        let id = if let Some(i) = t.0.get(s) {
            *i
        } else {
            let i = t.1.len() as u64;
            if n < 4 && i >= 1u64 << (8 * n) {
                drop(t);
                std::panic::panic_any(Exhausted);
            }
            t.0.insert(s.to_vec(), i);
            t.1.push(s.to_vec());
            i
        };
        spread(id, n)
    })
}

pub struct Ih(Vec<u8>);
impl<const N: usize> Hasher<N> for Ih {
    fn new(_s: usize) -> Self {
        Ih(Vec::new())
    }
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
    fn finalize(self) -> Array<N> {
        arr::<N>(&intern(&self.0, N))
    }
}

// ---------------------------------------------------------------- an instrumented database
#[derive(Clone, Default)]
pub struct Db<const N: usize> {
    pub map: BTreeMap<K, TreeNode<N>>,
    pub pending: Vec<(K, TreeNode<N>)>,
    /// writes become visible with `batch_write` only
    pub batch: bool,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub stay_down: bool,
    pub down: bool,
    pub limit: usize,
    pub writes: usize,
}

pub struct Hang;

impl<const N: usize> Db<N> {
    fn tick(&mut self) -> Result<(), Exception> {
        self.calls += 1;
        if self.limit > 0 && self.calls > self.limit {
            std::panic::panic_any(Hang);
        }
        if self.down || self.fail_at == Some(self.calls) {
            self.fail_at = None;
            self.down = self.stay_down;
            return Err(Exception::new("database failure"));
        }
        Ok(())
    }
    pub fn flushed(&self) -> BTreeMap<K, TreeNode<N>> {
        let mut m = self.map.clone();
        for (k, n) in &self.pending {
            m.insert(k.clone(), n.clone());
        }
        m
    }
}

pub struct Fdb<const N: usize>(pub Rc<RefCell<Db<N>>>);

impl<const N: usize> Database<N, TreeNode<N>> for Fdb<N> {
    type EntryType = ();
    fn open(_p: &Path) -> Result<Self, Exception> {
        Ok(Fdb(Rc::new(RefCell::new(Db::default()))))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        let mut d = self.0.borrow_mut();
        d.tick()?;
        Ok(d.map.get(key.as_ref() as &[u8]).cloned())
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        let mut d = self.0.borrow_mut();
        d.tick()?;
        d.writes += 1;
        let k = (key.as_ref() as &[u8]).to_vec();
        if d.batch {
            d.pending.push((k, node));
        } else {
            d.map.insert(k, node);
        }
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        let mut d = self.0.borrow_mut();
        d.tick()?;
        d.writes += 1;
        d.map.remove(key.as_ref() as &[u8]);
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        let mut d = self.0.borrow_mut();
        d.tick()?;
        let p = std::mem::take(&mut d.pending);
        for (k, n) in p {
            d.map.insert(k, n);
        }
        Ok(())
    }
}

pub struct My<const N: usize>;
impl<const N: usize> MerkleTree<N> for My<N> {
    type Database = Fdb<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = Ih;
    type Value = Vec<u8>;
}

/// What a call came to.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
    Hang,
    /// out of locations: the history ends here
    Exhausted,
}

impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn bad(&self) -> bool {
        matches!(self, Out::Panic(_) | Out::Hang)
    }
    pub fn say(&self) -> String {
        match self {
            Out::Ok(_) => "Ok".into(),
            Out::Err(e) => format!("Err({e})"),
            Out::Panic(e) => format!("panic: {e}"),
            Out::Hang => "does not terminate (too many database calls)".into(),
            Out::Exhausted => "out of locations".into(),
        }
    }
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, Exception>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => {
            if p.is::<Exhausted>() {
                return Out::Exhausted;
            }
            if p.is::<Hang>() {
                return Out::Hang;
            }
            let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            Out::Panic(s.unwrap_or_default())
        }
    }
}

/// The operations, on either tree.
pub enum Sut<const N: usize> {
    Bit(Rc<RefCell<Db<N>>>),
    Hash(HashTree<N>),
}

pub type Content = BTreeMap<K, Out<Option<Vec<u8>>>>;

impl<const N: usize> Sut<N> {
    pub fn new(wrapper: bool, batch: bool) -> Self {
        if wrapper {
            Sut::Hash(HashTree::<N>::new(10_000).unwrap())
        } else {
            Sut::Bit(Rc::new(RefCell::new(Db { batch, limit: 5_000_000, ..Db::default() })))
        }
    }
    pub fn db(&self) -> Option<Rc<RefCell<Db<N>>>> {
        match self {
            Sut::Bit(r) => Some(r.clone()),
            Sut::Hash(_) => None,
        }
    }
    pub fn copy(&self) -> Option<Self> {
        match self {
            Sut::Bit(r) => Some(Sut::Bit(Rc::new(RefCell::new(r.borrow().clone())))),
            Sut::Hash(_) => None,
        }
    }
    fn bit(r: &Rc<RefCell<Db<N>>>, depth: usize) -> MerkleBIT<My<N>, N> {
        r.borrow_mut().calls = 0;
        MerkleBIT::from_db(Fdb(r.clone()), depth).unwrap()
    }
    pub fn insert(&mut self, depth: usize, prev: Option<&K>, keys: &[K], vals: &[Vec<u8>]) -> Out<K> {
        let p = prev.map(|p| arr::<N>(p));
        let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr::<N>(k)).collect();
        match self {
            Sut::Bit(r) => {
                let mut t = Self::bit(r, depth);
                guard(|| t.insert(p.as_ref(), &mut ks, vals).map(|a| a.as_ref().to_vec()))
            }
            Sut::Hash(t) => guard(|| t.insert(p.as_ref(), &mut ks, vals).map(|a| a.as_ref().to_vec())),
        }
    }
    pub fn insert_one(&mut self, depth: usize, prev: Option<&K>, key: &K, val: &Vec<u8>) -> Out<K> {
        let p = prev.map(|p| arr::<N>(p));
        let k = arr::<N>(key);
        match self {
            Sut::Bit(r) => {
                let mut t = Self::bit(r, depth);
                guard(|| t.insert_one(p.as_ref(), &k, val).map(|a| a.as_ref().to_vec()))
            }
            Sut::Hash(t) => guard(|| t.insert_one(p.as_ref(), &k, val).map(|a| a.as_ref().to_vec())),
        }
    }
    pub fn remove(&mut self, root: &K) -> Out<()> {
        let k = arr::<N>(root);
        match self {
            Sut::Bit(r) => {
                let mut t = Self::bit(r, 10_000);
                guard(|| t.remove(&k))
            }
            Sut::Hash(t) => guard(|| t.remove(&k)),
        }
    }
    pub fn get_one(&self, depth: usize, root: &K, key: &K) -> Out<Option<Vec<u8>>> {
        let (a, b) = (arr::<N>(root), arr::<N>(key));
        match self {
            Sut::Bit(r) => {
                let t = Self::bit(r, depth);
                guard(|| t.get_one(&a, &b))
            }
            Sut::Hash(t) => guard(|| t.get_one(&a, &b)),
        }
    }
    pub fn get(&self, depth: usize, root: &K, keys: &[K]) -> Out<BTreeMap<K, Option<Vec<u8>>>> {
        let a = arr::<N>(root);
        let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr::<N>(k)).collect();
        let conv = |m: Vec<(Array<N>, Option<Vec<u8>>)>| m.into_iter().map(|(k, v)| (k.as_ref().to_vec(), v)).collect();
        match self {
            Sut::Bit(r) => {
                let t = Self::bit(r, depth);
                guard(|| t.get(&a, &mut ks).map(|m| conv(m.into_iter().collect())))
            }
            Sut::Hash(t) => guard(|| t.get(&a, &mut ks).map(|m| conv(m.into_iter().collect()))),
        }
    }
    pub fn prove(&self, depth: usize, root: &K, key: &K) -> Out<Vec<(K, bool)>> {
        let (a, b) = (arr::<N>(root), arr::<N>(key));
        let conv = |p: Vec<(Array<N>, bool)>| p.into_iter().map(|(l, o)| (l.as_ref().to_vec(), o)).collect();
        match self {
            Sut::Bit(r) => {
                let t = Self::bit(r, depth);
                guard(|| t.generate_inclusion_proof(&a, b).map(conv))
            }
            Sut::Hash(t) => guard(|| t.generate_inclusion_proof(&a, b).map(conv)),
        }
    }
    pub fn verify(&self, root: &K, key: &K, val: &Vec<u8>, proof: &[(K, bool)]) -> Out<()> {
        let (a, b) = (arr::<N>(root), arr::<N>(key));
        let p: Vec<(Array<N>, bool)> = proof.iter().map(|(l, o)| (arr::<N>(l), *o)).collect();
        match self {
            Sut::Bit(_) => guard(|| MerkleBIT::<My<N>, N>::verify_inclusion_proof(&a, b, val, &p)),
            Sut::Hash(_) => guard(|| HashTree::<N>::verify_inclusion_proof(&a, b, val, &p)),
        }
    }
    /// what can be read under the root
    pub fn observe(&self, root: &K, universe: &[K]) -> Content {
        universe.iter().map(|k| (k.clone(), self.get_one(usize::MAX, root, k))).collect()
    }
}

/// A node in plain terms.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pn {
    Branch { count: u64, zero: K, one: K, split: usize, key: K },
    Leaf { key: K, data: K },
    Data { value: Vec<u8> },
}

pub fn plain<const N: usize>(n: &TreeNode<N>) -> (u64, Pn) {
    let refs = n.get_references();
    let pn = match n.clone().get_variant() {
        NodeVariant::Branch(b) => {
            use starling::traits::Branch;
            Pn::Branch {
                count: b.get_count(),
                zero: b.get_zero().as_ref().to_vec(),
                one: b.get_one().as_ref().to_vec(),
                split: b.get_split_index(),
                key: b.get_key().as_ref().to_vec(),
            }
        }
        NodeVariant::Leaf(l) => Pn::Leaf { key: l.get_key().as_ref().to_vec(), data: l.get_data().as_ref().to_vec() },
        NodeVariant::Data(d) => Pn::Data { value: d.get_value().to_vec() },
        _ => unreachable!(),
    };
    (refs, pn)
}

pub type Store = BTreeMap<K, (u64, Pn)>;

pub fn plain_store<const N: usize>(m: &BTreeMap<K, TreeNode<N>>) -> Store {
    m.iter().map(|(k, n)| (k.clone(), plain(n))).collect()
}

pub fn kids(n: &Pn) -> Vec<K> {
    match n {
        Pn::Branch { zero, one, .. } => vec![zero.clone(), one.clone()],
        Pn::Leaf { data, .. } => vec![data.clone()],
        Pn::Data { .. } => vec![],
    }
}

#[allow(dead_code)]
fn _assert<V: Encode + Decode>() {}
