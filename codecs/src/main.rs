//! Nodes through the codec of one configuration: `codecs find SEED CASES FILE` / `codecs replay FILE`.
use starling::traits::{Branch, Data, Decode, Encode, Leaf, Node, NodeVariant};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::Array;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn number(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => i64::MAX as u64,
            4 => i64::MAX as u64 + 1,
            5 => u32::MAX as u64,
            6 => u32::MAX as u64 + 1,
            7 => i32::MAX as u64 + 1,
            8 => self.next() % 300,
            9 => 1 << self.below(64),
            10 => (1 << self.below(64)) - 1,
            _ => self.next() >> self.below(64),
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let kind = self.below(8);
        let c = self.next() as u8;
        // the same byte up to some place, or from there on
        let cut = self.below(n + 1);
        let fill = [0u8, 0xff][self.below(2)];
        (0..n)
            .map(|i| match kind {
                0 => c,
                1 => [0, 1, 127, 128, 191, 192, 223, 224, 239, 240, 247, 248, 254, 255, b'"', b'\\', b'\n', b'\'', b'{', 0xff][self.below(20)],
                2 => i as u8,
                3 if i >= cut => fill,
                4 if i < cut => fill,
                5 if i >= 2.min(cut) => fill,
                _ => self.next() as u8,
            })
            .collect()
    }
    fn array<const N: usize>(&mut self) -> Array<N> {
        let b = self.bytes(N);
        let mut a = Array::default();
        for i in 0..N {
            a[i] = b[i];
        }
        a
    }
}

/// KNOWN_FINDINGS.txt: serde_pickle does not read numbers this big; anything else about them is still reported.
fn too_big(numbers: &[u64]) -> bool {
    cfg!(feature = "pickle") && numbers.iter().any(|n| *n > i64::MAX as u64)
}

fn equal<T: Encode + Decode + PartialEq + std::fmt::Debug>(what: &str, x: &T, numbers: &[u64]) -> Result<(), String> {
    let show = |s: String| s.chars().take(1500).collect::<String>();
    let b = x.encode().map_err(|e| format!("{what} {}: encode: {e}", show(format!("{x:02x?}"))))?;
    let y = match T::decode(&b) {
        Ok(y) => y,
        Err(_) if too_big(numbers) => return Ok(()),
        Err(e) => return Err(format!("{what} {}: decode: {e}", show(format!("{x:02x?}")))),
    };
    if *x != y {
        return Err(format!("{what} {} is decoded as {}", show(format!("{x:02x?}")), show(format!("{y:02x?}"))));
    }
    Ok(())
}

fn case<const N: usize>(r: &mut Rng) -> Result<(), String> {
    let mut b = <TreeBranch<N> as Branch<N>>::new();
    let (count, split) = (r.number(), r.number());
    Branch::<N>::set_count(&mut b, count);
    Branch::<N>::set_zero(&mut b, r.array());
    Branch::<N>::set_one(&mut b, r.array());
    Branch::<N>::set_split_index(&mut b, split as usize);
    Branch::<N>::set_key(&mut b, r.array());
    let mut l = <TreeLeaf<N> as Leaf<N>>::new();
    Leaf::<N>::set_key(&mut l, r.array());
    Leaf::<N>::set_data(&mut l, r.array());
    let mut d = <TreeData as Data>::new();
    let lens = [0usize, 1, 2, 3, 7, 15, 16, 23, 24, 25, 31, 32, 33, 100, 127, 128, 255, 256, 257, 1000, 70000];
    let big = r.below(40) == 0;
    let m = lens[r.below(lens.len() - !big as usize)];
    Data::set_value(&mut d, &r.bytes(m));
    let w = format!("width {N}: ");
    equal(&(w.clone() + "branch"), &b, &[count, split])?;
    equal(&(w.clone() + "leaf"), &l, &[])?;
    equal(&(w.clone() + "data"), &d, &[])?;
    for v in [NodeVariant::Branch(b), NodeVariant::Leaf(l), NodeVariant::Data(d)] {
        let branch = matches!(v, NodeVariant::Branch(_));
        let mut n = <TreeNode<N> as Node<N>>::new(v);
        let refs = r.number();
        Node::<N>::set_references(&mut n, refs);
        let all = if branch { vec![refs, count, split] } else { vec![refs] };
        equal(&(w.clone() + "node"), &n, &all)?;
    }
    Ok(())
}

fn one(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let f = move || match r.below(16) {
        0 => case::<1>(&mut r),
        1 => case::<2>(&mut r),
        2 => case::<3>(&mut r),
        3 => case::<8>(&mut r),
        4 => case::<9>(&mut r),
        5 => case::<16>(&mut r),
        6 => case::<20>(&mut r),
        7 | 8 => case::<32>(&mut r),
        9 => case::<31>(&mut r),
        10 => case::<33>(&mut r),
        11 => case::<40>(&mut r),
        12 => case::<64>(&mut r),
        13 => case::<65>(&mut r),
        14 => case::<128>(&mut r),
        _ => case::<300>(&mut r),
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "probe" {
        let mut b = <TreeBranch<8> as Branch<8>>::new();
        Branch::<8>::set_count(&mut b, 1 << 63);
        let e = b.encode().map_err(|e| e.to_string());
        match e.and_then(|e| TreeBranch::<8>::decode(&e).map_err(|e| e.to_string())) {
            Ok(d) if d == b => println!("holds"),
            Ok(d) => {
                println!("FAILS: {d:?}");
                std::process::exit(1);
            }
            Err(e) => {
                println!("FAILS: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let seed = t.lines().find_map(|l| l.strip_prefix("case ")).unwrap().trim().parse().unwrap();
        match one(seed) {
            Ok(()) => println!("holds"),
            Err(m) => {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let (seed, cases): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    for i in 0..cases {
        let s = Rng(seed ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d)).next();
        if let Err(m) = one(s) {
            std::fs::write(&a[4], format!("property C11\nwhat {m}\ncase {s}\n")).unwrap();
            println!("FOUND {m}");
            std::process::exit(1);
        }
    }
    println!("STATS evaluations={cases}");
}
