//! Histories of operations and what each property says about them.
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    /// insert `pairs` on top of the root `prev`; the root it returns is called `id`
    Insert { id: usize, prev: Option<usize>, pairs: Vec<(K, Vec<u8>)>, one: bool, fail: Option<(usize, bool)> },
    /// an insert that has to be rejected; `unknown`: on top of a root that does not exist
    Bad { prev: Option<usize>, unknown: bool, keys: Vec<K>, vals: Vec<Vec<u8>> },
    Remove { id: usize, fail: Option<(usize, bool)> },
    /// start again with an empty store
    Fresh,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hist {
    pub n: usize,
    pub wrapper: bool,
    pub batch: bool,
    /// the depth limit is the height of the tree (and not far away)
    pub tight: bool,
    pub seed: u64,
    pub ops: Vec<Op>,
    pub extra: Vec<K>,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub ops: u64,
    pub checks: u64,
}

#[derive(Clone)]
struct Root {
    loc: K,
    seen: Content,
    held: bool,
    height: usize,
}

fn hex(k: &[u8]) -> String {
    if k.is_empty() { "''".into() } else { k.iter().map(|b| format!("{b:02x}")).collect() }
}
fn show(o: &Out<Option<Vec<u8>>>) -> String {
    match o {
        Out::Ok(Some(v)) => format!("value {}", hex(v)),
        Out::Ok(None) => "absent".into(),
        o => o.say(),
    }
}
fn cmp(a: &Content, b: &Content, what: &str) -> Result<(), String> {
    for (k, v) in a {
        if b.get(k) != Some(v) {
            return Err(format!("{what}: key {} read {}, expected {}", hex(k), show(&b[k]), show(v)));
        }
    }
    Ok(())
}
pub fn bit(k: &[u8], i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
fn present(c: &Content) -> BTreeMap<K, Vec<u8>> {
    c.iter().filter_map(|(k, v)| if let Out::Ok(Some(v)) = v { Some((k.clone(), v.clone())) } else { None }).collect()
}
/// number of branches above each key, from the keys alone
pub fn depths(keys: &[K]) -> BTreeMap<K, usize> {
    fn go(keys: &[K], d: usize, out: &mut BTreeMap<K, usize>) {
        if keys.len() == 1 {
            out.insert(keys[0].clone(), d);
            return;
        }
        let n = keys[0].len() * 8;
        let s = (0..n).find(|&i| keys.iter().any(|k| bit(k, i) != bit(&keys[0], i)));
        let Some(s) = s else { return };
        let (o, z): (Vec<K>, Vec<K>) = keys.iter().cloned().partition(|k| bit(k, s));
        go(&z, d + 1, out);
        go(&o, d + 1, out);
    }
    let mut out = BTreeMap::new();
    if !keys.is_empty() {
        go(keys, 0, &mut out);
    }
    out
}

/// what a store must look like
pub fn check_refs(st: &Store, held: &BTreeMap<K, u64>) -> Result<(), String> {
    let mut want: BTreeMap<&K, u64> = BTreeMap::new();
    let all: Vec<Vec<K>> = st.values().map(|(_, n)| kids(n)).collect();
    for ks in &all {
        let mut ks: Vec<&K> = ks.iter().collect();
        ks.dedup();
        for k in ks {
            if !st.contains_key(k) {
                return Err(format!("a stored node refers to {} which is not stored", hex(k)));
            }
            *want.entry(k).or_default() += 1;
        }
    }
    for (k, c) in held {
        if *c > 0 && !st.contains_key(k) {
            return Err(format!("the root {} is not stored", hex(k)));
        }
        *want.entry(k).or_default() += c;
    }
    for (k, (r, _)) in st {
        let w = want.get(k).copied().unwrap_or(0);
        if *r != w {
            return Err(format!("node {} has reference count {r}, but is referenced {w} times", hex(k)));
        }
    }
    Ok(())
}

fn below<'a>(st: &'a Store, loc: &K, out: &mut Vec<(K, K)>, fuel: &mut usize) -> Result<(), String> {
    if *fuel == 0 {
        return Err("the stored nodes form a cycle".into());
    }
    *fuel -= 1;
    match st.get(loc) {
        None => Err(format!("node {} is missing", hex(loc))),
        Some((_, Pn::Leaf { key, .. })) => {
            out.push((key.clone(), loc.clone()));
            Ok(())
        }
        Some((_, Pn::Data { .. })) => Err(format!("data node {} in the place of a subtree", hex(loc))),
        Some((_, Pn::Branch { zero, one, .. })) => {
            below(st, zero, out, fuel)?;
            below(st, one, out, fuel)
        }
    }
}

pub fn check_branches(st: &Store) -> Result<(), String> {
    for (loc, (_, n)) in st {
        if let Pn::Branch { count, zero, one, split, key } = n {
            let (mut z, mut o) = (vec![], vec![]);
            let mut fuel = 300_000;
            below(st, zero, &mut z, &mut fuel)?;
            below(st, one, &mut o, &mut fuel)?;
            let all: Vec<&K> = z.iter().chain(o.iter()).map(|x| &x.0).collect();
            let uniq: BTreeSet<&K> = all.iter().copied().collect();
            let min = uniq.iter().next().unwrap();
            if *count != uniq.len() as u64 {
                return Err(format!("branch {} records count {count}, but has {} keys below it", hex(loc), uniq.len()));
            }
            if key != *min {
                return Err(format!("branch {} records key {}, its smallest key is {}", hex(loc), hex(key), hex(min)));
            }
            let first = (0..key.len() * 8).find(|&i| all.iter().any(|k| bit(k, i) != bit(all[0], i)));
            if first != Some(*split) {
                return Err(format!("branch {} records split index {split}, its keys first differ at {first:?}", hex(loc)));
            }
            if z.iter().any(|k| bit(&k.0, *split)) || o.iter().any(|k| !bit(&k.0, *split)) {
                return Err(format!("branch {}: a key is on the wrong side of bit {split}", hex(loc)));
            }
        }
    }
    Ok(())
}

/// `pre`: what was hashed to a location, `h`: the hash of a string
pub fn check_addresses(st: &Store, pre: Option<&std::collections::HashMap<K, Vec<u8>>>, h: &dyn Fn(&[u8]) -> K) -> Result<(), String> {
    let mut tags: BTreeMap<&'static str, Vec<u8>> = BTreeMap::new();
    let mut owner: BTreeMap<K, K> = BTreeMap::new();
    for (_, (_, n)) in st {
        if let Pn::Leaf { key, data } = n {
            owner.insert(data.clone(), key.clone());
        }
    }
    for (loc, (_, n)) in st {
        let (kind, dflt, rest) = match n {
            Pn::Branch { zero, one, .. } => ("branch", b"b", [zero.clone(), one.clone()].concat()),
            Pn::Leaf { key, data } => ("leaf", b"l", [key.clone(), data.clone()].concat()),
            Pn::Data { value } => match owner.get(loc) {
                Some(k) => ("data", b"d", [k.clone(), value.clone()].concat()),
                None => continue,
            },
        };
        if let Some(pre) = pre {
            let Some(p) = pre.get(loc) else { return Err(format!("{kind} node {} is not stored under a hash", hex(loc))) };
            if !p.ends_with(&rest) || p.len() == rest.len() {
                return Err(format!("{kind} node {} is stored under the hash of {}, its content is {}", hex(loc), hex(p), hex(&rest)));
            }
            let tag = p[..p.len() - rest.len()].to_vec();
            if let Some(t) = tags.get(kind) {
                if *t != tag {
                    return Err(format!("{kind} nodes are tagged {} and {}", hex(t), hex(&tag)));
                }
            }
            tags.insert(kind, tag);
        } else {
            let want = h(&[dflt.to_vec(), rest.clone()].concat());
            if want != *loc {
                return Err(format!("{kind} node {} is not stored under the hash of its content {}", hex(loc), hex(&rest)));
            }
        }
    }
    let distinct: BTreeSet<&Vec<u8>> = tags.values().collect();
    if distinct.len() != tags.len() {
        return Err("two kinds of nodes have the same tag".into());
    }
    Ok(())
}

pub struct Fail {
    pub step: usize,
    pub msg: String,
}

pub fn universe(h: &Hist) -> Vec<K> {
    let mut u: BTreeSet<K> = h.extra.iter().cloned().collect();
    for o in &h.ops {
        match o {
            Op::Insert { pairs, .. } => u.extend(pairs.iter().map(|p| p.0.clone())),
            Op::Bad { keys, .. } => u.extend(keys.iter().cloned()),
            _ => {}
        }
    }
    u.into_iter().collect()
}

macro_rules! dispatch {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*), 8 => $f::<8>($($a),*), 9 => $f::<9>($($a),*), 16 => $f::<16>($($a),*),
            32 => $f::<32>($($a),*), 33 => $f::<33>($($a),*), 40 => $f::<40>($($a),*), 64 => $f::<64>($($a),*),
            n => panic!("no key width {n}"),
        }
    };
}
pub(crate) use dispatch;

pub fn run(h: &Hist, prop: &str, st: &mut Stats) -> Result<(), Fail> {
    reset_table();
    dispatch!(h.n, run_n, h, prop, st)
}

fn run_n<const N: usize>(h: &Hist, prop: &str, st: &mut Stats) -> Result<(), Fail> {
    let uni = universe(h);
    let mut rng = Rng(h.seed);
    let mut sut: Sut<N> = Sut::new(h.wrapper, h.batch);
    let mut twin: Option<Sut<N>> = if prop == "C09" { Some(Sut::new(h.wrapper, h.batch)) } else { None };
    let mut roots: BTreeMap<usize, Root> = BTreeMap::new();
    let mut by_content: BTreeMap<BTreeMap<K, Vec<u8>>, K> = BTreeMap::new();
    let mut by_root: BTreeMap<K, BTreeMap<K, Vec<u8>>> = BTreeMap::new();
    let mut clean = true; // no operation has failed in this store
    let is = |p: &str| prop == p;
    st.evaluations += 1;
    let mut interesting = 0;
    for (step, op) in h.ops.iter().enumerate() {
        st.ops += 1;
        let fail = |msg: String| Err(Fail { step, msg });
        macro_rules! judge {
            ($e:expr) => {{
                st.checks += 1;
                if let Err(m) = $e {
                    return fail(m);
                }
            }};
        }
        let before: Option<Store> = match (&sut, prop) {
            // writes left over by a failed operation would be taken for those of this one
            (Sut::Bit(r), "C03" | "C20") if r.borrow().pending.is_empty() => Some(plain_store(&r.borrow().map)),
            _ => None,
        };
        match op {
            Op::Fresh => {
                sut = Sut::new(h.wrapper, h.batch);
                twin = twin.map(|_| Sut::new(h.wrapper, h.batch));
                roots.clear();
                clean = true;
            }
            Op::Insert { id, prev, pairs, one, fail: fault } => {
                let pr = match prev {
                    None => None,
                    Some(p) => match roots.get(p) {
                        Some(r) if r.held => Some(r.clone()),
                        _ => continue,
                    },
                };
                let keys: Vec<K> = pairs.iter().map(|p| p.0.clone()).collect();
                let vals: Vec<Vec<u8>> = pairs.iter().map(|p| p.1.clone()).collect();
                let depth = if h.tight { pr.as_ref().map_or(0, |r| r.height) } else { 10_000 };
                if let Some(db) = sut.db() {
                    let mut d = db.borrow_mut();
                    d.fail_at = fault.map(|f| f.0);
                    d.stay_down = fault.map_or(false, |f| f.1);
                }
                let ploc = pr.as_ref().map(|r| r.loc.clone());
                let out = if *one && pairs.len() == 1 {
                    sut.insert_one(depth, ploc.as_ref(), &keys[0], &vals[0])
                } else {
                    sut.insert(depth, ploc.as_ref(), &keys, &vals)
                };
                let faulted = clear_fault(&sut, fault.is_some());
                if out == Out::Exhausted {
                    return Ok(());
                }
                if is("C10") {
                    if out.bad() || (!faulted && !out.is_ok()) {
                        return fail(format!("insert of {} distinct keys: {}", pairs.len(), out.say()));
                    }
                }
                if let Some(t) = twin.as_mut() {
                    // the same insert through the other operation
                    if pairs.len() == 1 && !faulted {
                        let o2 = if *one { t.insert(depth, ploc.as_ref(), &keys, &vals) } else { t.insert_one(depth, ploc.as_ref(), &keys[0], &vals[0]) };
                        if o2 == Out::Exhausted {
                            return Ok(());
                        }
                        st.checks += 1;
                        if o2.clone().ok() != out.clone().ok() {
                            return fail(format!("inserting one key {} the single and the batch operation give {:?} and {:?}", hex(&keys[0]), out, o2));
                        }
                        if let (Sut::Bit(a), Sut::Bit(b)) = (&sut, &*t) {
                            let (a, b) = (plain_store(&a.borrow().flushed()), plain_store(&b.borrow().flushed()));
                            if a != b {
                                return fail(format!("inserting one key {} the single and the batch operation leave different stores", hex(&keys[0])));
                            }
                        }
                    } else {
                        let o2 = t.insert(depth, ploc.as_ref(), &keys, &vals);
                        if o2 == Out::Exhausted || o2 != out {
                            return Ok(());
                        }
                    }
                }
                if is("C03") {
                    for (i, r) in roots.iter().filter(|r| r.1.held) {
                        judge!(cmp(&r.seen, &sut.observe(&r.loc, &uni), &format!("content of root #{i} after an insert ({})", out.say())));
                    }
                    if let (Some(b), Sut::Bit(r)) = (&before, &sut) {
                        let now = plain_store(&r.borrow().map);
                        for (k, (_, n)) in b {
                            match now.get(k) {
                                None => return fail(format!("the insert deleted node {}", hex(k))),
                                Some((_, m)) if m != n => return fail(format!("the insert changed node {}: {n:?} became {m:?}", hex(k))),
                                _ => {}
                            }
                        }
                    }
                }
                if is("C04") && !out.is_ok() {
                    // a failed insert must not release anything
                    for (i, r) in roots.iter().filter(|r| r.1.held) {
                        judge!(cmp(&r.seen, &sut.observe(&r.loc, &uni), &format!("content of root #{i}")));
                    }
                }
                let loc = match out {
                    Out::Ok(l) => l,
                    Out::Err(_) => {
                        clean = false;
                        continue;
                    }
                    _ => return Ok(()),
                };
                interesting += 1;
                let seen = sut.observe(&loc, &uni);
                if is("C01") {
                    let g = sut.get(usize::MAX, &loc, &keys);
                    for (k, v) in pairs {
                        st.checks += 1;
                        if seen[k] != Out::Ok(Some(v.clone())) {
                            return fail(format!("inserted {} -> {}, then read {}", hex(k), hex(v), show(&seen[k])));
                        }
                        match &g {
                            Out::Ok(m) if m.get(k) == Some(&Some(v.clone())) => {}
                            Out::Ok(m) => return fail(format!("inserted {} -> {}, batch get gives {:?}", hex(k), hex(v), m.get(k))),
                            o => return fail(format!("batch get of the inserted keys: {}", o.say())),
                        }
                    }
                }
                if is("C02") {
                    let mut want: Content = match &pr {
                        Some(r) => r.seen.clone(),
                        None => uni.iter().map(|k| (k.clone(), Out::Ok(None))).collect(),
                    };
                    for (k, v) in pairs {
                        want.insert(k.clone(), Out::Ok(Some(v.clone())));
                    }
                    judge!(cmp(&want, &seen, "content of the new root"));
                    if let Sut::Bit(r) = &sut {
                        // keys beyond the universe
                        let now = plain_store(&r.borrow().map);
                        let mut ks = vec![];
                        let mut fuel = 300_000;
                        judge!(below(&now, &loc, &mut ks, &mut fuel));
                        let want = present(&want);
                        if ks.len() != want.len() {
                            return fail(format!("the tree has {} leaves, its content {} keys", ks.len(), want.len()));
                        }
                    }
                }
                let cont = present(&seen);
                if is("C05") {
                    st.checks += 1;
                    if let Some(l) = by_content.get(&cont) {
                        if *l != loc {
                            return fail(format!("a content of {} keys has root {} and root {}", cont.len(), hex(l), hex(&loc)));
                        }
                    }
                    by_content.insert(cont.clone(), loc.clone());
                }
                if is("C12") {
                    st.checks += 1;
                    let mut want = pr.as_ref().map(|r| present(&r.seen)).unwrap_or_default();
                    want.extend(pairs.iter().cloned());
                    if let Some(c) = by_root.get(&loc) {
                        if *c != want {
                            return fail(format!("root {} stands for two contents, of {} and {} keys", hex(&loc), c.len(), want.len()));
                        }
                    }
                    by_root.insert(loc.clone(), want);
                }
                let ks: Vec<K> = cont.keys().cloned().collect();
                let height = depths(&ks).values().copied().max().unwrap_or(0);
                roots.insert(*id, Root { loc: loc.clone(), seen, held: true, height });
                let r = roots[id].clone();
                match prop {
                    "C06" => judge!(check_get(&sut, &r, &uni, &mut rng)),
                    "C07" => judge!(check_proofs(&sut, &r, &uni)),
                    "C08" => judge!(check_forgery(&sut, &r, &roots, &uni, &mut rng)),
                    "C10" => judge!(check_no_panic(&sut, &r, &uni, &mut rng, h.tight)),
                    "C14" => judge!(check_depth(&sut, &r, &uni)),
                    _ => {}
                }
            }
            Op::Bad { prev, unknown, keys, vals } => {
                let mut ploc = match prev {
                    None => None,
                    Some(p) => match roots.get(p) {
                        Some(r) if r.held => Some(r.loc.clone()),
                        _ => continue,
                    },
                };
                if *unknown {
                    let mut l = ploc.unwrap_or_else(|| vec![0; N]);
                    let taken = match &sut {
                        Sut::Bit(r) => r.borrow().flushed().into_keys().collect(),
                        Sut::Hash(_) => BTreeSet::new(),
                    };
                    let mut t = 0;
                    loop {
                        let i = rng.below(N);
                        l[i] = l[i].wrapping_add(1 + rng.below(255) as u8);
                        t += 1;
                        if !taken.contains(&l) || t > 600 {
                            break;
                        }
                    }
                    if taken.contains(&l) {
                        continue;
                    }
                    ploc = Some(l);
                } else {
                    let u: BTreeSet<&K> = keys.iter().collect();
                    if u.len() == keys.len() && keys.len() == vals.len() && !keys.is_empty() {
                        continue;
                    }
                }
                let copy = sut.copy();
                let out = sut.insert(10_000, ploc.as_ref(), keys, vals);
                if out == Out::Exhausted {
                    return Ok(());
                }
                if *unknown && matches!(sut, Sut::Bit(_)) && ploc.as_ref().map_or(false, |l| preimages(N).contains_key(l)) {
                    // the insert itself has just created a node at the location taken for unknown
                    return Ok(());
                }
                if is("C10") && out.bad() {
                    return fail(format!("a rejected insert: {}", out.say()));
                }
                if is("C20") {
                    st.checks += 1;
                    interesting += 1;
                    if out.is_ok() {
                        return fail("an insert that has to be rejected returned a root".into());
                    }
                    for (i, r) in roots.iter().filter(|r| r.1.held) {
                        judge!(cmp(&r.seen, &sut.observe(&r.loc, &uni), &format!("content of root #{i} after a rejected insert")));
                    }
                    if let (Some(b), Sut::Bit(r)) = (&before, &sut) {
                        let now = plain_store(&r.borrow().map);
                        for (k, (rf, n)) in b {
                            match now.get(k) {
                                None => return fail(format!("the rejected insert deleted node {}", hex(k))),
                                Some((_, m)) if m != n => return fail(format!("the rejected insert changed node {}", hex(k))),
                                Some((r2, _)) if r2 < rf => return fail(format!("the rejected insert took references from node {}", hex(k))),
                                _ => {}
                            }
                        }
                    }
                    // removing afterwards
                    if let Some(mut c) = sut.copy() {
                        judge!(remove_all(&mut c, &roots, &uni, &mut rng));
                    }
                }
                let _ = copy;
                match out {
                    Out::Err(_) => clean = false,
                    _ => return Ok(()),
                }
                if is("C03") {
                    for (i, r) in roots.iter().filter(|r| r.1.held) {
                        judge!(cmp(&r.seen, &sut.observe(&r.loc, &uni), &format!("content of root #{i} after a rejected insert")));
                    }
                }
            }
            Op::Remove { id, fail: fault } => {
                let Some(r) = roots.get(id).cloned() else { continue };
                if !r.held {
                    continue;
                }
                if let Some(db) = sut.db() {
                    let mut d = db.borrow_mut();
                    d.fail_at = fault.map(|f| f.0);
                    d.stay_down = fault.map_or(false, |f| f.1);
                }
                let out = sut.remove(&r.loc);
                let faulted = clear_fault(&sut, fault.is_some());
                roots.get_mut(id).unwrap().held = false;
                if is("C10") && (out.bad() || (!faulted && !out.is_ok())) {
                    return fail(format!("remove of a held root: {}", out.say()));
                }
                if let Some(t) = twin.as_mut() {
                    let _ = t.remove(&r.loc);
                }
                if is("C04") {
                    for (i, o) in roots.iter().filter(|r| r.1.held) {
                        judge!(cmp(&o.seen, &sut.observe(&o.loc, &uni), &format!("content of root #{i} after removing root #{id} ({})", out.say())));
                    }
                    interesting += 1;
                }
                match out {
                    Out::Ok(()) => {}
                    Out::Err(_) => clean = false,
                    _ => return Ok(()),
                }
            }
        }
        // the store as a whole
        if let Sut::Bit(r) = &sut {
            if matches!(prop, "C13" | "C16" | "C17") {
                let now = plain_store(&r.borrow().flushed());
                match prop {
                    "C13" if clean => {
                        let mut held: BTreeMap<K, u64> = BTreeMap::new();
                        for r in roots.values().filter(|r| r.held) {
                            *held.entry(r.loc.clone()).or_default() += 1;
                        }
                        judge!(check_refs(&now, &held));
                        if held.is_empty() && !now.is_empty() {
                            return fail(format!("{} nodes are left after the last root was removed", now.len()));
                        }
                    }
                    "C16" => judge!(check_branches(&now)),
                    "C17" => judge!(check_addresses(&now, Some(&preimages(N)), &|s| intern(s, N))),
                    _ => {}
                }
            }
        }
    }
    if let Sut::Hash(t) = sut {
        if matches!(prop, "C13" | "C16" | "C17" | "C19") {
            let now = plain_store::<N>(&t.decompose().0.decompose().into_iter().map(|(k, n)| (k.as_ref().to_vec(), n)).collect());
            st.checks += 1;
            let step = h.ops.len();
            let res = match prop {
                "C13" if clean => {
                    let mut held: BTreeMap<K, u64> = BTreeMap::new();
                    for r in roots.values().filter(|r| r.held) {
                        *held.entry(r.loc.clone()).or_default() += 1;
                    }
                    check_refs(&now, &held)
                }
                "C16" => check_branches(&now),
                "C17" => check_addresses(&now, None, &|s| tree_hash::<N>(s)),
                _ => Ok(()),
            };
            if let Err(msg) = res {
                return Err(Fail { step, msg });
            }
        }
    }
    if interesting >= 2 {
        st.nontrivial += 1;
    }
    Ok(())
}

pub fn tree_hash<const N: usize>(s: &[u8]) -> K {
    use starling::traits::Hasher;
    let mut h = <starling::tree_hasher::TreeHasher as Hasher<N>>::new(N);
    Hasher::<N>::update(&mut h, s);
    let a: starling::Array<N> = Hasher::<N>::finalize(h);
    a.as_ref().to_vec()
}

fn clear_fault<const N: usize>(sut: &Sut<N>, armed: bool) -> bool {
    match sut {
        Sut::Bit(r) => {
            let mut d = r.borrow_mut();
            let hit = armed && (d.fail_at.is_none() || d.down);
            d.fail_at = None;
            d.down = false;
            d.stay_down = false;
            hit
        }
        Sut::Hash(_) => false,
    }
}

fn remove_all<const N: usize>(c: &mut Sut<N>, roots: &BTreeMap<usize, Root>, uni: &[K], rng: &mut Rng) -> Result<(), String> {
    let mut ids: Vec<usize> = roots.iter().filter(|r| r.1.held).map(|r| *r.0).collect();
    rng.shuffle(&mut ids);
    for (n, i) in ids.iter().enumerate() {
        let o = c.remove(&roots[i].loc);
        if !o.is_ok() {
            return Err(format!("removing root #{i} after a rejected insert: {}", o.say()));
        }
        for j in &ids[n + 1..] {
            cmp(&roots[j].seen, &c.observe(&roots[j].loc, uni), &format!("content of root #{j} after a rejected insert and removing root #{i}"))?;
        }
    }
    Ok(())
}

fn check_get<const N: usize>(sut: &Sut<N>, r: &Root, uni: &[K], rng: &mut Rng) -> Result<(), String> {
    let store = |s: &Sut<N>| s.db().map(|d| (plain_store(&d.borrow().map), d.borrow().writes));
    let before = store(sut);
    let mut lists: Vec<Vec<K>> = vec![uni.to_vec(), vec![]];
    for _ in 0..12 {
        let len = 1 + rng.below(uni.len().min(9));
        let mut l: Vec<K> = (0..len).map(|_| rng.pick(uni).clone()).collect();
        if rng.chance(50) {
            l.sort();
            l.dedup();
        }
        lists.push(l);
    }
    let mut unknown = r.loc.clone();
    unknown[0] ^= 0x55;
    let known = before.as_ref().map_or(false, |b| b.0.contains_key(&unknown));
    for l in &lists {
        match sut.get(usize::MAX, &r.loc, l) {
            Out::Ok(m) => {
                let ks: BTreeSet<&K> = l.iter().collect();
                if m.len() != ks.len() || !ks.iter().all(|k| m.contains_key(*k)) {
                    return Err(format!("batch get of {:?} returned the keys {:?}", l.iter().map(|k| hex(k)).collect::<Vec<_>>(), m.keys().map(|k| hex(k)).collect::<Vec<_>>()));
                }
                for (k, v) in &m {
                    if r.seen[k] != Out::Ok(v.clone()) {
                        return Err(format!("batch get of {:?}: key {} gives {:?}, the single lookup {}", l.iter().map(|k| hex(k)).collect::<Vec<_>>(), hex(k), v.as_ref().map(|v| hex(v)), show(&r.seen[k])));
                    }
                }
            }
            o => return Err(format!("batch get of {:?}: {}", l.iter().map(|k| hex(k)).collect::<Vec<_>>(), o.say())),
        }
        if !known {
            match sut.get(usize::MAX, &unknown, l) {
                Out::Ok(m) if m.values().all(|v| v.is_none()) && m.len() == l.iter().collect::<BTreeSet<_>>().len() => {}
                o => return Err(format!("batch get under an unknown root: {}", o.say())),
            }
        }
    }
    if !known {
        for k in uni.iter().take(5) {
            if sut.get_one(usize::MAX, &unknown, k) != Out::Ok(None) {
                return Err("lookup under an unknown root is not absent".into());
            }
        }
    }
    if store(sut) != before {
        return Err("a lookup changed the store".into());
    }
    Ok(())
}

fn check_proofs<const N: usize>(sut: &Sut<N>, r: &Root, uni: &[K]) -> Result<(), String> {
    for k in uni {
        let p = sut.prove(usize::MAX, &r.loc, k);
        match &r.seen[k] {
            Out::Ok(Some(v)) => {
                let Out::Ok(p) = p else { return Err(format!("proof for the present key {}: {}", hex(k), p.say())) };
                let o = sut.verify(&r.loc, k, v, &p);
                if !o.is_ok() {
                    return Err(format!("the proof for key {} does not verify: {}", hex(k), o.say()));
                }
            }
            Out::Ok(None) => {
                if p.is_ok() {
                    return Err(format!("a proof was generated for the absent key {}", hex(k)));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn check_forgery<const N: usize>(sut: &Sut<N>, r: &Root, roots: &BTreeMap<usize, Root>, uni: &[K], rng: &mut Rng) -> Result<(), String> {
    let cont = present(&r.seen);
    let mut proofs: Vec<(K, Vec<u8>, Vec<(K, bool)>)> = vec![];
    for o in roots.values() {
        for (k, v) in present(&o.seen).into_iter().take(6) {
            if let Out::Ok(p) = sut.prove(usize::MAX, &o.loc, &k) {
                proofs.push((k, v, p));
            }
        }
    }
    let locs: Vec<K> = match sut {
        Sut::Bit(d) => d.borrow().map.keys().cloned().collect(),
        Sut::Hash(_) => proofs.iter().flat_map(|p| p.2.iter().map(|x| x.0.clone())).collect(),
    };
    let vals: Vec<Vec<u8>> = proofs.iter().map(|p| p.1.clone()).chain([vec![], vec![7, 7], r.loc.clone()]).collect();
    let keys: Vec<K> = uni.iter().cloned().chain(locs.iter().take(10).cloned()).collect();
    let hash = |s: &[u8]| -> K { if matches!(sut, Sut::Bit(_)) { intern(s, N) } else { tree_hash::<N>(s) } };
    let attempt = |k: &K, v: &Vec<u8>, p: &[(K, bool)]| -> Result<(), String> {
        if sut.verify(&r.loc, k, v, p).is_ok() && cont.get(k) != Some(v) {
            return Err(format!(
                "a proof of {} steps verifies for key {} and value {}, which the root {} does not map to that: {:?}",
                p.len(), hex(k), hex(v), hex(&r.loc), p.iter().map(|x| (hex(&x.0), x.1)).collect::<Vec<_>>()
            ));
        }
        Ok(())
    };
    if proofs.is_empty() {
        return Ok(());
    }
    for (k, v, p) in proofs.iter().take(20) {
        for k2 in &keys {
            attempt(k2, v, p)?;
        }
        for v2 in &vals {
            attempt(k, v2, p)?;
        }
        for l in 0..p.len() {
            attempt(rng.pick(&keys), rng.pick(&vals), &p[..l])?;
            attempt(rng.pick(&keys), rng.pick(&vals), &p[l..])?;
        }
    }
    for _ in 0..150 {
        let (k, v, p) = rng.pick(&proofs).clone();
        let mut p = p;
        let (mut k, mut v) = (k, v);
        if rng.chance(60) {
            k = rng.pick(&keys).clone();
        }
        if rng.chance(60) {
            v = rng.pick(&vals).clone();
        }
        if rng.chance(20) && !v.is_empty() {
            let cut = rng.below(v.len());
            v.truncate(cut);
        }
        // a proof that starts consistently
        if N >= 2 && rng.chance(50) {
            let d = hash(&[b"d".to_vec(), k.clone(), v.clone()].concat());
            let l = hash(&[b"l".to_vec(), k.clone(), d.clone()].concat());
            if p.len() >= 2 {
                if rng.chance(80) {
                    p[0].0 = d;
                }
                if rng.chance(80) {
                    p[1].0 = l;
                }
            }
        }
        for _ in 0..rng.below(3) {
            if p.is_empty() {
                break;
            }
            let i = rng.below(p.len());
            match rng.below(7) {
                0 => p[i].1 = !p[i].1,
                1 => p[i].0 = rng.pick(&locs).clone(),
                2 => {
                    p.remove(i);
                }
                3 => {
                    let x = p[i].clone();
                    p.insert(i, x);
                }
                4 => p.truncate(i),
                5 => p.push((r.loc.clone(), rng.chance(50))),
                _ => {
                    let b = rng.below(N);
                    p[i].0[b] ^= 1 << rng.below(8);
                }
            }
        }
        attempt(&k, &v, &p)?;
    }
    Ok(())
}

fn check_no_panic<const N: usize>(sut: &Sut<N>, r: &Root, uni: &[K], rng: &mut Rng, tight: bool) -> Result<(), String> {
    let depth = if tight { r.height + 1 } else { *rng.pick(&[10_000, usize::MAX, r.height + 1]) };
    let cont = present(&r.seen);
    for k in uni {
        let o = sut.get_one(depth, &r.loc, k);
        if !o.is_ok() {
            return Err(format!("lookup of {} with depth limit {depth} in a tree of height {}: {}", hex(k), r.height, o.say()));
        }
        let p = sut.prove(depth, &r.loc, k);
        if p.bad() || (cont.contains_key(k) && !p.is_ok()) {
            return Err(format!("proof for {} with depth limit {depth} in a tree of height {}: {}", hex(k), r.height, p.say()));
        }
        if let (Out::Ok(p), Some(v)) = (p, cont.get(k)) {
            let o = sut.verify(&r.loc, k, v, &p);
            if !o.is_ok() {
                return Err(format!("verification of the proof for {}: {}", hex(k), o.say()));
            }
            for l in 0..=p.len() {
                let o = sut.verify(&r.loc, k, v, &p[..l]);
                if o.bad() {
                    return Err(format!("verification of a proof of {l} steps: {}", o.say()));
                }
            }
            let mut q = p.clone();
            for _ in 0..rng.below(40) {
                q.push((r.loc.clone(), rng.chance(50)));
            }
            let o = sut.verify(&r.loc, k, v, &q);
            if o.bad() {
                return Err(format!("verification of a proof of {} steps: {}", q.len(), o.say()));
            }
        }
    }
    for _ in 0..4 {
        let len = rng.below(uni.len() + 3);
        let l: Vec<K> = (0..len).map(|_| rng.pick(uni).clone()).collect();
        let o = sut.get(depth, &r.loc, &l);
        if !o.is_ok() {
            return Err(format!("batch get of {:?} with depth limit {depth}: {}", l.iter().map(|k| hex(k)).collect::<Vec<_>>(), o.say()));
        }
    }
    // arbitrary roots
    let mut locs: Vec<K> = match sut {
        Sut::Bit(d) => d.borrow().map.keys().cloned().collect(),
        Sut::Hash(_) => vec![],
    };
    rng.shuffle(&mut locs);
    locs.truncate(6);
    locs.push((0..N).map(|_| rng.next() as u8).collect());
    for l in &locs {
        for d in [0usize, 1, 3, 10_000] {
            let k = rng.pick(uni).clone();
            let ks: Vec<K> = (0..rng.below(5)).map(|_| rng.pick(uni).clone()).collect();
            let mut o = sut.get_one(d, l, &k).say();
            if sut.get_one(d, l, &k).bad() {
                return Err(format!("lookup under location {} with depth limit {d}: {o}", hex(l)));
            }
            let g = sut.get(d, l, &ks);
            o = g.say();
            if g.bad() {
                return Err(format!("batch get under location {} with depth limit {d}: {o}", hex(l)));
            }
            let p = sut.prove(d, l, &k);
            if p.bad() {
                return Err(format!("proof under location {} with depth limit {d}: {}", hex(l), p.say()));
            }
            if let Some(mut c) = sut.copy() {
                let v = vec![1, 2, 3];
                let i = c.insert_one(d, Some(l), &k, &v);
                if i.bad() {
                    return Err(format!("insert on top of location {} with depth limit {d}: {}", hex(l), i.say()));
                }
                let m = c.remove(l);
                if m.bad() {
                    return Err(format!("remove of location {}: {}", hex(l), m.say()));
                }
            }
        }
    }
    Ok(())
}

fn check_depth<const N: usize>(sut: &Sut<N>, r: &Root, uni: &[K]) -> Result<(), String> {
    if !matches!(sut, Sut::Bit(_)) {
        return Ok(());
    }
    let cont = present(&r.seen);
    let ks: Vec<K> = cont.keys().cloned().collect();
    let dep = depths(&ks);
    for d in 0..=r.height + 2 {
        for (k, kd) in &dep {
            let o = sut.get_one(d, &r.loc, k);
            if matches!(o, Out::Ok(Some(_))) && kd + 1 > d {
                return Err(format!("with depth limit {d} the lookup followed {} links to the value of {}", kd + 1, hex(k)));
            }
            if matches!(o, Out::Ok(None)) {
                return Err(format!("with depth limit {d} the present key {} is reported absent", hex(k)));
            }
            if !o.is_ok() && r.height + 1 <= d {
                return Err(format!("lookup of {} with depth limit {d} in a tree of height {}: {}", hex(k), r.height, o.say()));
            }
            let o = sut.prove(d, &r.loc, k);
            if o.is_ok() && kd + 1 > d {
                return Err(format!("with depth limit {d} the proof followed {} links for {}", kd + 1, hex(k)));
            }
            if !o.is_ok() && r.height + 1 <= d {
                return Err(format!("proof for {} with depth limit {d} in a tree of height {}: {}", hex(k), r.height, o.say()));
            }
            let o = sut.get(d, &r.loc, &[k.clone()]);
            if let Out::Ok(m) = &o {
                if *kd > d {
                    return Err(format!("with depth limit {d} the batch lookup followed {kd} branches to {}", hex(k)));
                }
                if m.get(k).map_or(true, |v| v.is_none()) {
                    return Err(format!("with depth limit {d} the present key {} is reported absent by a batch lookup", hex(k)));
                }
            } else if r.height <= d {
                return Err(format!("batch lookup of {} with depth limit {d} in a tree of height {}: {}", hex(k), r.height, o.say()));
            }
        }
        for k in uni {
            let o = sut.get_one(d, &r.loc, k);
            if !o.is_ok() && r.height + 1 <= d {
                return Err(format!("lookup of {} with depth limit {d} in a tree of height {}: {}", hex(k), r.height, o.say()));
            }
        }
        let o = sut.get(d, &r.loc, uni);
        match &o {
            Out::Ok(_) if dep.values().any(|kd| *kd > d) => {
                return Err(format!("with depth limit {d} a batch lookup followed more than {d} branches"));
            }
            Out::Ok(_) => {}
            o if r.height <= d => {
                return Err(format!("batch lookup with depth limit {d} in a tree of height {}: {}", r.height, o.say()));
            }
            _ => {}
        }
    }
    Ok(())
}
