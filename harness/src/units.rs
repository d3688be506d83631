//! The helpers and the node types on their own.
use crate::hist::{bit, Rng, Stats};
use crate::world::{arr, K};
use starling::traits::{Branch, Data, Database, Leaf, Node, NodeVariant};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_db::HashTreeDB;
use starling::utils::tree_ref::TreeRef;
use starling::utils::tree_utils::*;
use starling::Array;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn sh(k: &[u8]) -> String {
    k.iter().map(|b| format!("{b:02x}")).collect()
}
fn shs(k: &[K]) -> String {
    k.iter().map(|k| sh(k)).collect::<Vec<_>>().join(",")
}
fn agree(a: &[u8], b: &[u8], n: usize) -> bool {
    (0..n).all(|i| bit(a, i) == bit(b, i))
}

pub fn case(prop: &str, seed: u64, st: &mut Stats) -> Result<(), String> {
    let mut r = Rng(seed);
    let n = *r.pick(&[1usize, 1, 2, 2, 3, 4, 5, 8, 9, 16, 32, 33, 40, 64]);
    st.evaluations += 1;
    let f = || -> Result<(), String> {
        match prop {
            "C18" => crate::hist::dispatch!(n, helpers, &mut r),
            "C21" => crate::hist::dispatch!(n, hasher, &mut r),
            _ => crate::hist::dispatch!(n, types, &mut r),
        }
    };
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => {
            st.nontrivial += 1;
            st.checks += 1;
            x
        }
        Err(p) => Err(format!("panic: {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())))),
    }
}

fn near(r: &mut Rng, base: &K, from: usize) -> K {
    let mut k = base.clone();
    let bits = 8 * k.len();
    if from >= bits {
        return k;
    }
    let flips = r.below(3);
    for _ in 0..=flips {
        let p = from + r.below(bits - from);
        k[p / 8] ^= 0x80 >> (p % 8);
    }
    k
}

fn helpers<const N: usize>(r: &mut Rng) -> Result<(), String> {
    let bits = 8 * N;
    // logarithm
    let x = 1 + r.below(255) as u8;
    if fast_log_2(x) as u32 != 7 - x.leading_zeros() {
        return Err(format!("fast_log_2({x}) = {}", fast_log_2(x)));
    }
    // branch choice
    let base: K = (0..N).map(|_| r.next() as u8).collect();
    for p in [r.below(bits), r.below(bits), 0, bits - 1, bits, bits + 1, bits + r.below(100), usize::MAX, usize::MAX - r.below(70)] {
        match (choose_zero(arr::<N>(&base), p), p < bits) {
            (Ok(z), true) if z != bit(&base, p) => {}
            (Err(_), false) => {}
            (o, _) => return Err(format!("choose_zero({}, {p}) = {:?}", sh(&base), o.ok())),
        }
    }
    // lists that agree up to a bit
    let from = r.below(bits);
    let m = r.below(9);
    let mut ks: Vec<K> = (0..m).map(|_| near(r, &base, from)).collect();
    if r.chance(30) {
        ks.push(base.clone());
    }
    ks.sort();
    if r.chance(70) {
        ks.dedup();
    }
    let aks: Vec<Array<N>> = ks.iter().map(|k| arr::<N>(k)).collect();
    {
        let (z, o) = split_pairs(&aks, from).map_err(|e| format!("split_pairs({}, {from}): {e}", shs(&ks)))?;
        let zs: Vec<K> = ks.iter().filter(|k| !bit(k, from)).cloned().collect();
        let os: Vec<K> = ks.iter().filter(|k| bit(k, from)).cloned().collect();
        let (gz, go): (Vec<K>, Vec<K>) = (z.iter().map(|a| a.as_ref().to_vec()).collect(), o.iter().map(|a| a.as_ref().to_vec()).collect());
        if gz != zs || go != os {
            return Err(format!("split_pairs({}, {from}) = ({}) ({})", shs(&ks), shs(&gz), shs(&go)));
        }
    }
    // divergence
    let from2 = r.below(bits);
    let bk = if r.chance(20) { base.clone() } else { near(r, &base, from2) };
    let abk = arr::<N>(&bk);
    if ks.is_empty() {
        if calc_min_split_index(&aks, &abk).is_ok() {
            return Err("calc_min_split_index of no keys".into());
        }
    } else {
        let want = (0..bits).find(|&i| ks.iter().any(|k| bit(k, i) != bit(&bk, i))).unwrap_or(bits - 1);
        match calc_min_split_index(&aks, &abk) {
            Ok(g) if g == want => {
                // descendants
                for s in [want, r.below(bits), (want + r.below(20)).min(bits - 1)] {
                    if s < want {
                        continue;
                    }
                    for min in [want, r.below(want + 1)] {
                        let w: Vec<K> = ks.iter().filter(|k| agree(k, &bk, s)).cloned().collect();
                        match check_descendants(&aks, s, &abk, min) {
                            Ok(d) if d.iter().map(|a| a.as_ref().to_vec()).collect::<Vec<K>>() == w => {}
                            Ok(d) => return Err(format!("check_descendants({}, {s}, {}, {min}) = {}", shs(&ks), sh(&bk), shs(&d.iter().map(|a| a.as_ref().to_vec()).collect::<Vec<_>>()))),
                            Err(e) => return Err(format!("check_descendants({}, {s}, {}, {min}): {e}", shs(&ks), sh(&bk))),
                        }
                    }
                }
            }
            g => return Err(format!("calc_min_split_index({}, {}) = {:?}, first difference at {want}", shs(&ks), sh(&bk), g.ok())),
        }
    }
    // the merge queue
    if !ks.is_empty() {
        let mut refs: Vec<TreeRef<N>> = ks.iter().map(|k| TreeRef::new(arr::<N>(k), arr::<N>(&base), 1, 1)).collect();
        let mut q = HashMap::new();
        let dup = ks.windows(2).any(|w| w[0] == w[1]);
        let out = generate_tree_ref_queue(&mut refs, &mut q);
        match out {
            Err(_) if dup => {}
            Ok(set) if !dup => {
                let mut want: BTreeMap<usize, Vec<(usize, usize, usize)>> = BTreeMap::new();
                for i in 0..ks.len() - 1 {
                    let b = (0..bits).find(|&j| bit(&ks[i], j) != bit(&ks[i + 1], j)).unwrap();
                    want.entry(b).or_default().push((b, i, i + 1));
                }
                let got: BTreeMap<_, _> = q.into_iter().collect();
                let mut s: Vec<usize> = set.into_iter().collect();
                s.sort();
                if got != want || s != want.keys().copied().collect::<Vec<_>>() {
                    return Err(format!("generate_tree_ref_queue({}) = {got:?}", shs(&ks)));
                }
                if refs.len() != ks.len() || refs.iter().zip(&ks).any(|(a, b)| a.key.as_ref() as &[u8] != &b[..]) {
                    return Err("generate_tree_ref_queue changed the list".into());
                }
            }
            o => return Err(format!("generate_tree_ref_queue({}): {}", shs(&ks), if o.is_ok() { "accepts a repeated key" } else { "rejects distinct keys" })),
        }
    }
    // leaf map
    let lm: BTreeMap<K, Option<Vec<u8>>> = generate_leaf_map::<Vec<u8>, N>(&aks).into_iter().map(|(k, v)| (k.as_ref().to_vec(), v)).collect();
    let mut d = ks.clone();
    d.dedup();
    if lm.keys().cloned().collect::<Vec<_>>() != d || lm.values().any(|v| v.is_some()) {
        return Err(format!("generate_leaf_map({})", shs(&ks)));
    }
    Ok(())
}

fn rk<const N: usize>(r: &mut Rng) -> K {
    (0..N).map(|_| if r.chance(30) { 0 } else { r.next() as u8 }).collect()
}

fn num(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => u64::MAX - r.below(3) as u64,
        1 => (1u64 << r.below(64)).wrapping_sub(r.below(2) as u64),
        2 => r.next(),
        _ => r.below(300) as u64,
    }
}

fn types<const N: usize>(r: &mut Rng) -> Result<(), String> {
    // a branch and its shadow
    let mut b = TreeBranch::<N>::new();
    let mut s: (u64, K, K, usize, K) = (0, vec![0; N], vec![0; N], 0, vec![0; N]);
    s.0 = b.get_count();
    s.1 = b.get_zero().as_ref().to_vec();
    s.2 = b.get_one().as_ref().to_vec();
    s.3 = b.get_split_index();
    s.4 = b.get_key().as_ref().to_vec();
    for _ in 0..6 {
        let what = r.below(5);
        match what {
            0 => {
                s.0 = num(r);
                b.set_count(s.0)
            }
            1 => {
                s.1 = rk::<N>(r);
                b.set_zero(arr::<N>(&s.1))
            }
            2 => {
                s.2 = rk::<N>(r);
                b.set_one(arr::<N>(&s.2))
            }
            3 => {
                s.3 = num(r) as usize;
                b.set_split_index(s.3)
            }
            _ => {
                s.4 = rk::<N>(r);
                b.set_key(arr::<N>(&s.4))
            }
        }
        let d = b.clone().decompose();
        let g = (b.get_count(), b.get_zero().as_ref().to_vec(), b.get_one().as_ref().to_vec(), b.get_split_index(), b.get_key().as_ref().to_vec());
        let d = (d.0, d.1.as_ref().to_vec(), d.2.as_ref().to_vec(), d.3, d.4.as_ref().to_vec());
        if g != s || d != s {
            return Err(format!("branch: wrote {s:?}, reads {g:?}, decomposes into {d:?}"));
        }
    }
    let mut l = TreeLeaf::<N>::new();
    let mut ls = (l.get_key().as_ref().to_vec(), l.get_data().as_ref().to_vec());
    for _ in 0..4 {
        if r.chance(50) {
            ls.0 = rk::<N>(r);
            l.set_key(arr::<N>(&ls.0))
        } else {
            ls.1 = rk::<N>(r);
            l.set_data(arr::<N>(&ls.1))
        }
        let g = (l.get_key().as_ref().to_vec(), l.get_data().as_ref().to_vec());
        let d = l.clone().decompose();
        let d = (d.0.as_ref().to_vec(), d.1.as_ref().to_vec());
        if g != ls || d != ls {
            return Err(format!("leaf: wrote {ls:?}, reads {g:?}, decomposes into {d:?}"));
        }
    }
    let mut da = TreeData::new();
    let mut ds: Vec<u8> = vec![];
    for _ in 0..3 {
        ds = (0..r.below(70)).map(|_| r.next() as u8).collect();
        da.set_value(&ds);
        if da.get_value() != &ds[..] {
            return Err(format!("data: wrote {ds:?}, reads {:?}", da.get_value()));
        }
    }
    let mk = |w: usize| match w {
        0 => NodeVariant::Branch(b.clone()),
        1 => NodeVariant::Leaf(l.clone()),
        _ => NodeVariant::Data(da.clone()),
    };
    let mut w = r.below(3);
    let mut node = TreeNode::<N>::new(mk(w));
    let mut refs = node.get_references();
    for _ in 0..5 {
        match r.below(4) {
            0 => {
                refs = num(r);
                node.set_references(refs)
            }
            1 => {
                w = 0;
                node.set_branch(b.clone())
            }
            2 => {
                w = 1;
                node.set_leaf(l.clone())
            }
            _ => {
                w = 2;
                node.set_data(da.clone())
            }
        }
        if node.get_references() != refs {
            return Err(format!("node: wrote references {refs}, reads {}", node.get_references()));
        }
        if node.clone().get_variant() != mk(w) {
            return Err("node: the content read is not the content written".into());
        }
    }
    // the database
    let mut db = HashTreeDB::<N>::open(Path::new("")).map_err(|e| e.to_string())?;
    let mut m: BTreeMap<K, TreeNode<N>> = BTreeMap::new();
    let pool: Vec<K> = (0..4).map(|_| rk::<N>(r)).collect();
    for _ in 0..20 {
        let k = r.pick(&pool).clone();
        match r.below(4) {
            0 | 1 => {
                let mut x = TreeNode::<N>::new(mk(r.below(3)));
                x.set_references(num(r));
                db.insert(arr::<N>(&k), x.clone()).map_err(|e| e.to_string())?;
                m.insert(k, x);
            }
            2 => {
                db.remove(&arr::<N>(&k)).map_err(|e| e.to_string())?;
                m.remove(&k);
            }
            _ => db.batch_write().map_err(|e| e.to_string())?,
        }
        for k in &pool {
            let g = db.get_node(arr::<N>(k)).map_err(|e| e.to_string())?;
            if g.as_ref() != m.get(k) {
                return Err(format!("database: {} holds {:?}, reads {g:?}", sh(k), m.get(k)));
            }
        }
    }
    let inner = db.decompose();
    if inner.len() != m.len() {
        return Err("database: the map has other entries than were written".into());
    }
    Ok(())
}

/// The adapter of the default hasher: the hash of all it was fed, lowest byte first, cut or zero-padded.
fn hasher<const N: usize>(r: &mut Rng) -> Result<(), String> {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher as Std;
    let parts: Vec<K> = (0..r.below(6))
        .map(|_| {
            let m = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 256, 1000]);
            (0..m).map(|_| r.next() as u8).collect()
        })
        .collect();
    let mut o = DefaultHasher::new();
    Std::write(&mut o, &parts.concat());
    let sum = Std::finish(&o);
    let want: Vec<u8> = (0..N).map(|i| if i < 8 { (sum >> (8 * i)) as u8 } else { 0 }).collect();
    for again in 0..2 {
        let mut h = <DefaultHasher as starling::traits::Hasher<N>>::new(N);
        for p in &parts {
            starling::traits::Hasher::<N>::update(&mut h, p);
        }
        let got = starling::traits::Hasher::<N>::finalize(h);
        if got.as_ref() != want.as_slice() {
            return Err(format!("width {N}: fed {} the hasher gives {}, not {} (time {again})", shs(&parts), sh(got.as_ref()), sh(&want)));
        }
    }
    Ok(())
}
