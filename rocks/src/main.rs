//! Restarts, crashes and failing calls of the persistent tree: `rocks find SEED CASES SECONDS FILE` / `rocks replay FILE`.
//! A history of inserts and removals over held roots; then one more operation with every one of its database calls
//! struck in turn (a crash before the call, or the call failing), and further operations after it. All along, every
//! held root must read as an independent model says.
use rocksdb::sim::{self, Fault};
use starling::rocks_tree::RocksTree;
use starling::Array;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

type Value = Vec<u8>;
type Content<const N: usize> = BTreeMap<Array<N>, Value>;

/// A root and how often an insert returned it that was not removed since.
#[derive(Clone)]
struct Held<const N: usize> {
    root: Array<N>,
    content: Content<N>,
    times: usize,
}

#[derive(Clone, Debug)]
enum Op<const N: usize> {
    Insert(Option<Array<N>>, Vec<(Array<N>, Value)>),
    One(Option<Array<N>>, Array<N>, Value),
    Remove(Array<N>),
    Restart,
}

fn path() -> &'static Path {
    Path::new("db")
}

struct Run<const N: usize> {
    tree: Option<RocksTree<N>>,
    held: Vec<Held<N>>,
    pool: Vec<Array<N>>,
    log: Vec<String>,
}

enum End<const N: usize> {
    Done,
    Failed,
    Crashed,
}

impl<const N: usize> Run<N> {
    fn start(&mut self) -> Result<(), String> {
        self.tree = None;
        sim::pull_the_plug(false);
        self.tree = Some(RocksTree::open(path(), 1 << 20).map_err(|e| format!("cannot be opened: {e}"))?);
        Ok(())
    }
    /// every held root reads as it should
    fn check(&self) -> Result<(), String> {
        let t = self.tree.as_ref().unwrap();
        for h in &self.held {
            let mut keys = self.pool.clone();
            let got = catch_unwind(AssertUnwindSafe(|| t.get(&h.root, &mut keys)))
                .map_err(|_| format!("reading {:02x?} panics", &h.root[..]))?
                .map_err(|e| format!("reading {:02x?}: {e}", &h.root[..]))?;
            for k in &self.pool {
                let g = got.get(k).cloned().flatten();
                if g != h.content.get(k).cloned() {
                    return Err(format!("under {:02x?} the key {:02x?} reads {g:?}, not {:?}", &h.root[..], &k[..], h.content.get(k)));
                }
            }
        }
        Ok(())
    }
    fn choose(&self, r: &mut Rng) -> Op<N> {
        let prev = |r: &mut Rng| if self.held.is_empty() || r.below(3) == 0 { None } else { Some(self.held[r.below(self.held.len())].root) };
        let value = |r: &mut Rng| if r.below(4) > 0 { vec![] } else { vec![r.below(2) as u8; r.below(3)] };
        match r.below(10) {
            0..=3 => {
                let p = prev(r);
                let mut keys: Vec<Array<N>> = self.pool.clone();
                for i in (1..keys.len()).rev() {
                    keys.swap(i, r.below(i + 1));
                }
                keys.truncate(1 + r.below(keys.len()));
                Op::Insert(p, keys.into_iter().map(|k| (k, value(r))).collect())
            }
            4..=5 => Op::One(prev(r), self.pool[r.below(self.pool.len())], value(r)),
            6..=8 if !self.held.is_empty() => Op::Remove(self.held[r.below(self.held.len())].root),
            _ => Op::Restart,
        }
    }
    /// carries it out and takes note of what is held afterwards
    fn act(&mut self, op: &Op<N>) -> Result<End<N>, String> {
        self.log.push(format!("{}{op:02x?}", if sim::armed() { "struck: " } else { "" }));
        if let Op::Remove(root) = op {
            // given up whatever becomes of the operation
            let i = self.held.iter().position(|h| h.root == *root).unwrap();
            self.held[i].times -= 1;
            if self.held[i].times == 0 {
                self.held.remove(i);
            }
        }
        let mut content = match op {
            Op::Insert(Some(p), _) | Op::One(Some(p), _, _) => self.held.iter().find(|h| h.root == *p).unwrap().content.clone(),
            _ => Content::new(),
        };
        let mut tree = self.tree.take().unwrap();
        let out = catch_unwind(AssertUnwindSafe(|| match op {
            Op::Insert(p, kv) => {
                let mut kv = kv.clone();
                kv.sort();
                let mut keys: Vec<Array<N>> = kv.iter().map(|x| x.0).collect();
                let values: Vec<Value> = kv.iter().map(|x| x.1.clone()).collect();
                tree.insert(p.as_ref(), &mut keys, &values).map(Some)
            }
            Op::One(p, k, v) => tree.insert_one(p.as_ref(), k, v).map(Some),
            Op::Remove(root) => tree.remove(root).map(|()| None),
            Op::Restart => Ok(None),
        }));
        match out {
            Err(p) if p.is::<sim::Crashed>() => {
                drop(tree);
                Ok(End::Crashed)
            }
            Err(_) => Err("panic".into()),
            Ok(Err(_)) => {
                self.tree = Some(tree);
                Ok(End::Failed)
            }
            Ok(Ok(new)) => {
                match op {
                    Op::Insert(_, kv) => content.extend(kv.iter().cloned()),
                    Op::One(_, k, v) => drop(content.insert(*k, v.clone())),
                    Op::Restart => {
                        drop(tree);
                        self.start()?;
                        return Ok(End::Done);
                    }
                    Op::Remove(_) => (),
                }
                if let Some(root) = new {
                    match self.held.iter_mut().find(|h| h.root == root) {
                        Some(h) => h.times += 1,
                        None => self.held.push(Held { root, content, times: 1 }),
                    }
                }
                self.tree = Some(tree);
                Ok(End::Done)
            }
        }
    }
    /// further operations; whatever they do, what is held stays readable, after a sudden end too
    fn go_on(&mut self, r: &mut Rng, n: usize, again: &Op<N>) -> Result<(), String> {
        for i in 0..n {
            // the same as the one that was struck, at times
            let op = match again {
                Op::Insert(None, _) | Op::One(None, _, _) if i > 0 && r.below(2) == 0 => again.clone(),
                Op::Insert(Some(p), _) | Op::One(Some(p), _, _) if r.below(2) == 0 && self.held.iter().any(|h| h.root == *p) => again.clone(),
                _ => self.choose(r),
            };
            self.act(&op)?;
            self.check()?;
        }
        // give up all but one
        while self.held.len() > 1 {
            let op = Op::Remove(self.held[r.below(self.held.len())].root);
            self.act(&op)?;
            self.check()?;
        }
        self.log.push("crash and restart".into());
        sim::pull_the_plug(true);
        self.start()?;
        self.check()
    }
}

fn case<const N: usize>(r: &mut Rng, evals: &mut u64) -> Result<(), String> {
    sim::arm(None);
    sim::pull_the_plug(false);
    sim::set_disk(path(), rocksdb::Map::new());
    let n = 2 + r.below(6);
    let mut pool: Vec<Array<N>> = vec![];
    while pool.len() < n {
        let mut k = if pool.is_empty() || r.below(4) == 0 { Array::default() } else { pool[r.below(pool.len())] };
        for _ in 0..1 + r.below(2) {
            let bit = r.below(8 * N);
            k[bit / 8] ^= 128 >> (bit % 8);
        }
        if !pool.contains(&k) {
            pool.push(k);
        }
    }
    pool.sort();
    let mut run: Run<N> = Run { tree: None, held: vec![], pool, log: vec![] };
    run.start()?;
    let told = |run: &Run<N>, m: String| format!("width {N}: {}; then {m}", run.log.join("; "));
    for _ in 0..r.below(6) {
        let op = run.choose(r);
        run.act(&op).map_err(|m| told(&run, m))?;
        run.check().map_err(|m| told(&run, m))?;
    }
    // one more, struck at each of its calls
    let mut op = run.choose(r);
    while let Op::Restart = op {
        op = run.choose(r);
    }
    run.tree = None;
    let disk = sim::disk(path());
    for kind in [Fault::Crash, Fault::Fails] {
        for call in 0..200 {
            let mut again = Run { tree: None, held: run.held.clone(), pool: run.pool.clone(), log: run.log.clone() };
            sim::set_disk(path(), disk.clone());
            again.start().map_err(|m| told(&again, m))?;
            again.log.push(format!("{kind:?} at call {call}"));
            sim::arm(Some((call, kind)));
            let end = again.act(&op);
            let over = sim::armed();
            sim::arm(None);
            if over {
                // not reached: a sudden end after the operation
                sim::pull_the_plug(true);
            }
            *evals += 1;
            match end.map_err(|m| told(&again, m))? {
                End::Crashed => again.start().map_err(|m| told(&again, m))?,
                _ if over || again.tree.is_none() => again.start().map_err(|m| told(&again, m))?,
                _ => (),
            }
            again.check().map_err(|m| told(&again, m))?;
            let mut after = r.clone();
            after.0 ^= call;
            let more = after.below(5);
            again.go_on(&mut after, more, &op).map_err(|m| told(&again, m))?;
            if over {
                break;
            }
        }
    }
    Ok(())
}

fn one(seed: u64, evals: &mut u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let f = move || match r.below(3) {
        0 => case::<8>(&mut r, evals),
        1 => case::<16>(&mut r, evals),
        _ => case::<32>(&mut r, evals),
    };
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
}

fn main() {
    if std::env::var_os("LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let a: Vec<String> = std::env::args().collect();
    let mut evals = 0;
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let seed = t.lines().find_map(|l| l.strip_prefix("case ")).unwrap().trim().parse().unwrap();
        match one(seed, &mut evals) {
            Ok(()) => println!("holds"),
            Err(m) => {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let (seed, cases, secs): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let t0 = std::time::Instant::now();
    for i in 0..cases {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let s = Rng(seed ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d)).next();
        if let Err(m) = one(s, &mut evals) {
            std::fs::write(&a[5], format!("property C15\nwhat {m}\ncase {s}\n")).unwrap();
            println!("FOUND {m}");
            std::process::exit(1);
        }
    }
    println!("STATS evaluations={evals}");
}
