//! Generating, shrinking and writing down histories.
use crate::hist::*;
use crate::world::K;
use std::collections::BTreeMap;

fn key_pool(r: &mut Rng, n: usize) -> Vec<K> {
    let bits = 8 * n;
    let mut pool: Vec<K> = vec![];
    let base: K = match r.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => (0..n).map(|_| r.next() as u8).collect(),
    };
    let style = r.below(6);
    match style {
        0 => {
            // dense
            let m = if n == 1 { 3 + r.below(30) } else { 3 + r.below(12) };
            let start = r.next();
            for i in 0..m as u64 {
                let x = start.wrapping_add(i);
                let mut k = base.clone();
                for (j, b) in k.iter_mut().rev().take(8).enumerate() {
                    *b = (x >> (8 * j)) as u8;
                }
                pool.push(k);
            }
        }
        1 | 2 | 3 => {
            // all combinations of a few bits
            let m = 2 + r.below(3);
            let mut pos: Vec<usize> = vec![];
            while pos.len() < m {
                let p = match r.below(6) {
                    0 => bits - 1 - r.below(bits.min(3)),
                    1 => r.below(bits.min(3)),
                    2 => (8 * r.below(n) + 7).min(bits - 1),
                    3 => 8 * r.below(n),
                    _ => r.below(bits),
                };
                if !pos.contains(&p) {
                    pos.push(p);
                }
                if bits <= m { break; }
            }
            for c in 0..1usize << pos.len() {
                let mut k = base.clone();
                for (j, p) in pos.iter().enumerate() {
                    k[p / 8] &= !(0x80 >> (p % 8));
                    if c >> j & 1 == 1 {
                        k[p / 8] |= 0x80 >> (p % 8);
                    }
                }
                pool.push(k);
            }
        }
        4 => {
            // one bit away from the base: deep trees
            let m = 2 + r.below(bits.min(14));
            pool.push(base.clone());
            for _ in 0..m {
                let p = r.below(bits);
                let mut k = base.clone();
                k[p / 8] ^= 0x80 >> (p % 8);
                if r.chance(30) {
                    for q in p + 1..bits {
                        if r.chance(50) {
                            k[q / 8] ^= 0x80 >> (q % 8);
                        }
                    }
                }
                pool.push(k);
            }
        }
        _ => {
            let m = 2 + r.below(14);
            for _ in 0..m {
                pool.push((0..n).map(|_| r.next() as u8).collect());
            }
        }
    }
    pool.sort();
    pool.dedup();
    r.shuffle(&mut pool);
    pool
}

fn value(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => vec![r.below(3) as u8],
        2 => vec![0; r.below(5)],
        3 => (0..r.below(300)).map(|i| i as u8).collect(),
        _ => vec![r.below(4) as u8, r.below(2) as u8],
    }
}

fn fault(r: &mut Rng) -> Option<(usize, bool)> {
    let max = [4, 12, 40, 100][r.below(4)];
    Some((1 + r.below(max), r.chance(30)))
}

pub fn gen(prop: &str, seed: u64) -> Hist {
    let mut r = Rng(seed);
    let wrapper = match prop {
        "C14" | "C20" => false,
        _ => r.chance(12),
    };
    let widths: &[usize] = if wrapper { &[8, 16, 32, 33] } else { &[1, 1, 2, 2, 2, 3, 4, 5, 8, 9, 16, 32, 33, 40, 64] };
    let n = *r.pick(widths);
    let batch = !wrapper && r.chance(25);
    let mut pool = key_pool(&mut r, n);
    let cut = 1 + pool.len() * 3 / 4;
    pool.truncate(24);
    let mut extra: Vec<K> = pool.clone();
    // keys the tree probably does not have
    for _ in 0..3 {
        let mut k = r.pick(&pool).clone();
        let p = r.below(8 * n);
        k[p / 8] ^= 0x80 >> (p % 8);
        extra.push(k);
    }
    let _ = cut;
    let faults = match prop {
        "C03" | "C04" => r.chance(60),
        "C20" | "C10" => r.chance(20),
        _ => false,
    };
    let bad = match prop {
        "C20" => true,
        "C03" | "C10" => r.chance(30),
        _ => false,
    };
    let removes = !matches!(prop, "C01" | "C02" | "C06" | "C07" | "C08" | "C14") || r.chance(40);
    let mut ops: Vec<Op> = vec![];
    let mut live: Vec<usize> = vec![];
    let mut content: BTreeMap<usize, BTreeMap<K, Vec<u8>>> = BTreeMap::new();
    let mut id = 0;
    let most = if r.chance(10) { 30 } else { 10 };
    let len = 1 + r.below(most);
    let big = r.chance(3) && n >= 3;
    for _ in 0..len {
        let c = r.below(100);
        if bad && c < 30 {
            let mut keys: Vec<K> = (0..1 + r.below(4)).map(|_| r.pick(&pool).clone()).collect();
            let mut vals: Vec<Vec<u8>> = keys.iter().map(|_| value(&mut r)).collect();
            let mut unknown = false;
            match r.below(4) {
                0 => {
                    vals.push(vec![1]);
                    if r.chance(50) {
                        vals.clear();
                    }
                }
                1 => {
                    keys.clear();
                    vals.clear();
                }
                2 => {
                    let d = r.pick(&keys).clone();
                    keys.push(d);
                    vals.push(value(&mut r));
                    if r.chance(60) {
                        // the repeated key may well repeat the value
                        let l = vals.len() - 1;
                        vals[l] = vals[0].clone();
                    }
                    r.shuffle(&mut keys);
                }
                _ => {
                    unknown = true;
                    keys.sort();
                    keys.dedup();
                    vals.truncate(keys.len());
                }
            }
            let prev = if live.is_empty() || r.chance(30) { None } else { Some(*r.pick(&live)) };
            ops.push(Op::Bad { prev, unknown, keys, vals });
        } else if removes && c < 55 && !live.is_empty() && r.chance(60) {
            let i = r.below(live.len());
            let x = if r.chance(30) { live[0] } else { live[i] };
            live.retain(|y| *y != x);
            ops.push(Op::Remove { id: x, fail: if faults && r.chance(40) { fault(&mut r) } else { None } });
        } else if matches!(prop, "C05" | "C12") && c > 92 {
            ops.push(Op::Fresh);
            live.clear();
        } else {
            let prev = if live.is_empty() || r.chance(20) { None } else if r.chance(60) { live.last().copied() } else { Some(*r.pick(&live)) };
            let mut keys = pool.clone();
            r.shuffle(&mut keys);
            let k = match r.below(4) {
                0 => 1,
                1 => 1 + r.below(3.min(keys.len())),
                _ => 1 + r.below(keys.len()),
            };
            keys.truncate(k.max(1));
            if big && r.chance(30) {
                for _ in 0..300 {
                    keys.push((0..n).map(|_| r.next() as u8).collect());
                }
            }
            keys.sort();
            keys.dedup();
            r.shuffle(&mut keys);
            let one = keys.len() == 1 && r.chance(60);
            let mut pairs: Vec<(K, Vec<u8>)> = keys.iter().map(|k| (k.clone(), value(&mut r))).collect();
            // writing what is there already
            if let Some(p) = prev {
                if r.chance(30) {
                    for q in pairs.iter_mut() {
                        if let Some(v) = content[&p].get(&q.0) {
                            if r.chance(70) {
                                q.1 = v.clone();
                            }
                        }
                    }
                }
            }
            // repeating an earlier insert
            if r.chance(8) {
                let old: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Insert { .. })).cloned().collect();
                if !old.is_empty() {
                    if let Op::Insert { pairs: p, .. } = r.pick(&old) {
                        pairs = p.clone();
                    }
                }
            }
            let one = one && pairs.len() == 1;
            let mut c = prev.map(|p| content[&p].clone()).unwrap_or_default();
            c.extend(pairs.iter().cloned());
            content.insert(id, c);
            let fail = if faults && r.chance(30) { fault(&mut r) } else { None };
            ops.push(Op::Insert { id, prev, pairs, one, fail });
            live.push(id);
            id += 1;
        }
    }
    if matches!(prop, "C05" | "C12") && r.chance(70) {
        // another way to a content reached before
        if let Some(c) = content.values().filter(|c| c.len() < 40).last().cloned() {
            let mut pairs: Vec<(K, Vec<u8>)> = c.into_iter().collect();
            r.shuffle(&mut pairs);
            if r.chance(50) {
                ops.push(Op::Fresh);
            }
            let mut prev = None;
            while !pairs.is_empty() {
                let k = 1 + r.below(pairs.len());
                let mut part: Vec<_> = pairs.drain(..k).collect();
                if r.chance(30) {
                    // overwritten later
                    let mut junk = part.clone();
                    for j in junk.iter_mut() {
                        j.1 = vec![9, 9];
                    }
                    ops.push(Op::Insert { id, prev, pairs: junk, one: false, fail: None });
                    prev = Some(id);
                    id += 1;
                }
                r.shuffle(&mut part);
                let one = part.len() == 1 && r.chance(50);
                ops.push(Op::Insert { id, prev, pairs: part, one, fail: None });
                prev = Some(id);
                id += 1;
            }
        }
    }
    if matches!(prop, "C13" | "C04") {
        let mut l = live.clone();
        r.shuffle(&mut l);
        for x in l {
            ops.push(Op::Remove { id: x, fail: None });
        }
    }
    Hist { n, wrapper, batch, tight: !wrapper && r.chance(25), seed: r.next(), ops, extra }
}

pub fn shrink(mut h: Hist, prop: &str, budget: std::time::Duration) -> Hist {
    let t0 = std::time::Instant::now();
    let bad = |h: &Hist| run(h, prop, &mut Stats::default()).is_err();
    loop {
        let mut changed = false;
        let mut cands: Vec<Hist> = vec![];
        for i in (0..h.ops.len()).rev() {
            let mut c = h.clone();
            c.ops.remove(i);
            cands.push(c);
        }
        for i in 0..h.ops.len() {
            if let Op::Insert { pairs, .. } = &h.ops[i] {
                if pairs.len() > 8 {
                    for half in 0..2 {
                        let mut c = h.clone();
                        if let Op::Insert { pairs, .. } = &mut c.ops[i] {
                            let m = pairs.len() / 2;
                            if half == 0 { pairs.truncate(m); } else { pairs.drain(..m); }
                        }
                        cands.push(c);
                    }
                } else if pairs.len() > 1 {
                    for j in 0..pairs.len() {
                        let mut c = h.clone();
                        if let Op::Insert { pairs, .. } = &mut c.ops[i] {
                            pairs.remove(j);
                        }
                        cands.push(c);
                    }
                }
            }
            match &h.ops[i] {
                Op::Insert { fail: Some(_), .. } | Op::Remove { fail: Some(_), .. } => {
                    let mut c = h.clone();
                    match &mut c.ops[i] {
                        Op::Insert { fail, .. } | Op::Remove { fail, .. } => *fail = None,
                        _ => {}
                    }
                    cands.push(c);
                }
                _ => {}
            }
            if let Op::Insert { one: true, .. } = &h.ops[i] {
                let mut c = h.clone();
                if let Op::Insert { one, .. } = &mut c.ops[i] {
                    *one = false;
                }
                cands.push(c);
            }
            if let Op::Insert { prev: Some(_), .. } = &h.ops[i] {
                let mut c = h.clone();
                if let Op::Insert { prev, .. } = &mut c.ops[i] {
                    *prev = None;
                }
                cands.push(c);
            }
        }
        for i in 0..h.extra.len() {
            let mut c = h.clone();
            c.extra.remove(i);
            cands.push(c);
        }
        if h.batch {
            let mut c = h.clone();
            c.batch = false;
            cands.push(c);
        }
        if h.tight {
            let mut c = h.clone();
            c.tight = false;
            cands.push(c);
        }
        for c in cands {
            if t0.elapsed() > budget {
                return h;
            }
            if bad(&c) {
                h = c;
                changed = true;
                break;
            }
        }
        if !changed {
            return h;
        }
    }
}

fn hx(b: &[u8]) -> String {
    let s: String = b.iter().map(|b| format!("{b:02x}")).collect();
    if s.is_empty() { "-".into() } else { s }
}
fn unhx(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn opt(o: &Option<usize>) -> String {
    o.map_or("none".into(), |x| x.to_string())
}
fn unopt(s: &str) -> Option<usize> {
    s.parse().ok()
}
fn fl(f: &Option<(usize, bool)>) -> String {
    f.map_or("never".into(), |(k, d)| format!("{k}{}", if d { "+" } else { "" }))
}
fn unfl(s: &str) -> Option<(usize, bool)> {
    if s == "never" { None } else { Some((s.trim_end_matches('+').parse().unwrap(), s.ends_with('+'))) }
}

pub fn write(h: &Hist) -> String {
    let mut s = format!("history width={} wrapper={} batch={} tight={} seed={}\n", h.n, h.wrapper, h.batch, h.tight, h.seed);
    for k in &h.extra {
        s += &format!("key {}\n", hx(k));
    }
    for o in &h.ops {
        s += &match o {
            Op::Fresh => "fresh\n".to_string(),
            Op::Insert { id, prev, pairs, one, fail } => format!(
                "insert {id} on {} {} dbfails {} : {}\n", opt(prev), if *one { "single" } else { "batch" }, fl(fail),
                pairs.iter().map(|(k, v)| format!("{}={}", hx(k), hx(v))).collect::<Vec<_>>().join(" ")),
            Op::Remove { id, fail } => format!("remove {id} dbfails {}\n", fl(fail)),
            Op::Bad { prev, unknown, keys, vals } => format!(
                "reject on {} {} keys {} values {}\n", opt(prev), if *unknown { "unknown" } else { "known" },
                if keys.is_empty() { ".".into() } else { keys.iter().map(|k| hx(k)).collect::<Vec<_>>().join(",") },
                if vals.is_empty() { ".".into() } else { vals.iter().map(|k| hx(k)).collect::<Vec<_>>().join(",") }),
        };
    }
    s
}

pub fn read(s: &str) -> Option<Hist> {
    let mut h: Option<Hist> = None;
    for l in s.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let eq = |i: usize| w[i].split('=').nth(1).unwrap();
        match w[0] {
            "history" => h = Some(Hist { n: eq(1).parse().ok()?, wrapper: eq(2) == "true", batch: eq(3) == "true", tight: eq(4) == "true", seed: eq(5).parse().ok()?, ops: vec![], extra: vec![] }),
            "key" => h.as_mut()?.extra.push(unhx(w[1])),
            "fresh" => h.as_mut()?.ops.push(Op::Fresh),
            "insert" => h.as_mut()?.ops.push(Op::Insert {
                id: w[1].parse().ok()?, prev: unopt(w[3]), one: w[4] == "single", fail: unfl(w[6]),
                pairs: w[8..].iter().map(|p| { let (a, b) = p.split_once('=').unwrap(); (unhx(a), unhx(b)) }).collect(),
            }),
            "remove" => h.as_mut()?.ops.push(Op::Remove { id: w[1].parse().ok()?, fail: unfl(w[3]) }),
            "reject" => {
                let list = |s: &str| -> Vec<Vec<u8>> { if s == "." { vec![] } else { s.split(',').map(unhx).collect() } };
                h.as_mut()?.ops.push(Op::Bad { prev: unopt(w[2]), unknown: w[3] == "unknown", keys: list(w[5]), vals: list(w[7]) })
            }
            _ => {}
        }
    }
    h
}
