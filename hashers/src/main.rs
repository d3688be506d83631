//! The hash adapter of one configuration against the hash it adapts: `hashers find SEED CASES FILE` / `hashers replay FILE`.
use starling::traits::Hasher;
use starling::tree_hasher::TreeHasher;

/// The hash of the pieces, as long as wanted or as long as it is.
#[cfg(any(feature = "fxhash", feature = "seahash"))]
fn sum(mut h: impl std::hash::Hasher, parts: &[Vec<u8>]) -> Vec<u8> {
    for p in parts {
        h.write(p);
    }
    h.finish().to_le_bytes().to_vec()
}
#[cfg(feature = "fxhash")]
fn oracle(parts: &[Vec<u8>], _n: usize) -> Vec<u8> {
    sum(fxhash::FxHasher::default(), parts)
}
#[cfg(feature = "seahash")]
fn oracle(parts: &[Vec<u8>], _n: usize) -> Vec<u8> {
    sum(seahash::SeaHasher::new(), &[parts.concat()])
}
#[cfg(feature = "sha2")]
fn oracle(parts: &[Vec<u8>], _n: usize) -> Vec<u8> {
    openssl::sha::sha256(&parts.concat()).to_vec()
}
#[cfg(any(feature = "sha3", feature = "keccak"))]
fn oracle(parts: &[Vec<u8>], n: usize) -> Vec<u8> {
    use tiny_keccak::Hasher;
    #[cfg(feature = "sha3")]
    let mut h = tiny_keccak::Sha3::v256();
    #[cfg(feature = "keccak")]
    let mut h = tiny_keccak::Keccak::v256();
    h.update(&parts.concat());
    let mut out = vec![0; n];
    h.finalize(&mut out);
    out
}
#[cfg(feature = "blake2-rfc")]
fn oracle(parts: &[Vec<u8>], n: usize) -> Vec<u8> {
    blake2_rfc::blake2b::blake2b(n, &[], &parts.concat()).as_bytes().to_vec()
}
#[cfg(feature = "digest")]
fn oracle(parts: &[Vec<u8>], _n: usize) -> Vec<u8> {
    use md5::Digest;
    md5::Md5::digest(parts.concat()).to_vec()
}
#[cfg(not(any(feature = "fxhash", feature = "seahash", feature = "sha2", feature = "sha3", feature = "keccak", feature = "blake2-rfc", feature = "digest")))]
compile_error!("choose a scheme");

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

fn case<const N: usize>(r: &mut Rng) -> Result<(), String> {
    let lens = [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 136, 200, 1000, 70_000];
    let parts: Vec<Vec<u8>> = (0..r.below(6))
        .map(|_| {
            let m = lens[r.below(lens.len())];
            let kind = r.below(4);
            let (cut, fill) = (r.below(m + 1), [0u8, 0xff][r.below(2)]);
            (0..m)
                .map(|i| match kind {
                    0 if i >= cut => fill,
                    1 if i < cut => fill,
                    _ => r.next() as u8,
                })
                .collect()
        })
        .collect();
    let mut want = oracle(&parts, N);
    want.resize(N, 0);
    for _ in 0..2 {
        let mut h = <TreeHasher as Hasher<N>>::new(N);
        for p in &parts {
            Hasher::<N>::update(&mut h, p);
        }
        let got = Hasher::<N>::finalize(h);
        if got.as_ref() != want.as_slice() {
            return Err(format!("width {N}, fed {parts:02x?}: the adapter gives {:02x?}, not {want:02x?}", got.as_ref() as &[u8]));
        }
    }
    Ok(())
}

fn one(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let f = move || match r.below(14) {
        0 => case::<1>(&mut r),
        1 => case::<2>(&mut r),
        2 => case::<4>(&mut r),
        3 => case::<7>(&mut r),
        4 => case::<8>(&mut r),
        5 => case::<9>(&mut r),
        6 => case::<16>(&mut r),
        7 => case::<17>(&mut r),
        8 => case::<20>(&mut r),
        9 => case::<32>(&mut r),
        10 => case::<33>(&mut r),
        11 => case::<40>(&mut r),
        12 => case::<63>(&mut r),
        _ => case::<64>(&mut r),
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let seed = t.lines().find_map(|l| l.strip_prefix("case ")).unwrap().trim().parse().unwrap();
        match one(seed) {
            Ok(()) => println!("holds"),
            Err(m) => {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let (seed, cases): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    for i in 0..cases {
        let s = Rng(seed ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d)).next();
        if let Err(m) = one(s) {
            std::fs::write(&a[4], format!("property C21\nwhat {m}\ncase {s}\n")).unwrap();
            println!("FOUND {m}");
            std::process::exit(1);
        }
    }
    println!("STATS evaluations={cases}");
}
