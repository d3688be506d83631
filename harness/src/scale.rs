//! A few large cases.
use crate::hist::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::time::Instant;

pub fn run(prop: &str, seed: u64, end: Instant, st: &mut Stats) -> Result<(), String> {
    let mut r = Rng(seed ^ 0x5ca1e);
    reset_table();
    if matches!(prop, "C18" | "C19" | "C21") {
        return Ok(());
    }
    // every key of one byte, all at once and one after the other
    {
        let all: Vec<(K, Vec<u8>)> = (0..=255u8).map(|b| (vec![b, b ^ 0x5a], vec![b])).collect();
        let mut ops = vec![Op::Insert { id: 0, prev: None, pairs: all.clone(), one: false, fail: None }];
        let mut sh = all.clone();
        r.shuffle(&mut sh);
        ops.push(Op::Fresh);
        for (i, p) in sh.iter().enumerate() {
            ops.push(Op::Insert { id: i + 1, prev: if i == 0 { None } else { Some(i) }, pairs: vec![p.clone()], one: true, fail: None });
            if i > 0 {
                ops.push(Op::Remove { id: i, fail: None });
            }
        }
        history(prop, 2, ops, end, st)?;
    }
    // the deepest tree: one key per bit
    for n in [3usize, 16, 33, 40] {
        let mut pairs: Vec<(K, Vec<u8>)> = vec![(vec![0; n], vec![1])];
        for p in 0..8 * n {
            let mut k = vec![0u8; n];
            k[p / 8] |= 0x80 >> (p % 8);
            pairs.push((k, vec![(p % 251) as u8]));
        }
        let ops = vec![
            Op::Insert { id: 0, prev: None, pairs: pairs.clone(), one: false, fail: None },
            Op::Insert { id: 1, prev: Some(0), pairs: vec![(vec![0xff; n], vec![1])], one: true, fail: None },
            Op::Insert { id: 2, prev: Some(1), pairs: pairs[..5].iter().map(|p| (p.0.clone(), vec![200])).collect(), one: false, fail: None },
            Op::Remove { id: 1, fail: None },
            Op::Remove { id: 0, fail: None },
            Op::Remove { id: 2, fail: None },
        ];
        history(prop, n, ops, end, st)?;
    }
    // long values that differ at the end only
    for n in [300usize, 70_000, (1 << 20) + 3] {
        let a = vec![0x5a; n];
        let (mut b, mut c) = (a.clone(), a.clone());
        b[n - 1] ^= 1;
        c.pop();
        let k = vec![1u8; 8];
        let ins = |id: usize, prev: Option<usize>, v: &Vec<u8>, one: bool| Op::Insert { id, prev, pairs: vec![(k.clone(), v.clone())], one, fail: None };
        let ops = vec![ins(0, None, &a, true), ins(1, Some(0), &b, true), ins(2, Some(0), &c, false), ins(3, None, &b, false), ins(4, Some(2), &a, true)];
        history(prop, 8, ops, end, st)?;
    }
    // the same root again and again
    if matches!(prop, "C13" | "C04" | "C10" | "C03") {
        let pairs: Vec<(K, Vec<u8>)> = (0..3u8).map(|b| (vec![b, 0, 0, 0], vec![b])).collect();
        for (n, one) in [(700usize, false), (70_000, true)] {
            if Instant::now() > end {
                return Ok(());
            }
            let mut sut: Sut<4> = Sut::new(false, false);
            st.evaluations += 1;
            let ks: Vec<K> = pairs.iter().map(|p| p.0.clone()).collect();
            let vs: Vec<Vec<u8>> = pairs.iter().map(|p| p.1.clone()).collect();
            let mut loc = None;
            for _ in 0..n {
                let o = if one { sut.insert_one(10, None, &ks[0], &vs[0]) } else { sut.insert(10, None, &ks, &vs) };
                match o {
                    Out::Ok(l) => loc = Some(l),
                    o => return Err(format!("inserting the same content {n} times: {}", o.say())),
                }
            }
            let loc = loc.unwrap();
            for i in 0..n {
                let o = sut.get_one(10, &loc, &ks[0]);
                if o != Out::Ok(Some(vs[0].clone())) {
                    return Err(format!("a root returned {n} times and removed {i} times reads {o:?}"));
                }
                let o = sut.remove(&loc);
                if !o.is_ok() {
                    return Err(format!("removing a root returned {n} times: {}", o.say()));
                }
            }
            if prop == "C13" {
                if let Sut::Bit(d) = &sut {
                    if !d.borrow().map.is_empty() {
                        return Err(format!("a root returned and removed {n} times leaves {} nodes", d.borrow().map.len()));
                    }
                }
            }
        }
    }
    // many keys
    for n in [5_000usize, 70_000] {
        if Instant::now() > end {
            return Ok(());
        }
        let mut sut: Sut<8> = Sut::new(false, false);
        reset_table();
        st.evaluations += 1;
        let mut m: BTreeMap<K, Vec<u8>> = BTreeMap::new();
        while m.len() < n {
            let k = r.next().to_be_bytes().to_vec();
            m.insert(k.clone(), k[..4].to_vec());
        }
        let mut pairs: Vec<(K, Vec<u8>)> = m.clone().into_iter().collect();
        r.shuffle(&mut pairs);
        let (ks, vs): (Vec<K>, Vec<Vec<u8>>) = pairs.iter().cloned().unzip();
        let root = match sut.insert(200, None, &ks, &vs) {
            Out::Ok(l) => l,
            o if prop == "C10" => return Err(format!("inserting {n} keys: {}", o.say())),
            _ => return Ok(()),
        };
        if prop == "C05" {
            let mut last = None;
            for c in pairs.chunks(n / 7) {
                let (ks, vs): (Vec<K>, Vec<Vec<u8>>) = c.iter().cloned().unzip();
                match sut.insert(200, last.as_ref(), &ks, &vs) {
                    Out::Ok(l) => last = Some(l),
                    _ => return Ok(()),
                }
            }
            if last != Some(root.clone()) {
                return Err(format!("{n} keys inserted at once and in eight batches have different roots"));
            }
        }
        let k2 = vec![7u8; 8];
        let root2 = match sut.insert_one(200, Some(&root), &k2, &vec![1]) {
            Out::Ok(l) => l,
            o if prop == "C10" => return Err(format!("inserting on top of {n} keys: {}", o.say())),
            _ => return Ok(()),
        };
        m.insert(k2, vec![1]);
        match sut.get(200, &root2, &m.keys().cloned().collect::<Vec<_>>()) {
            Out::Ok(g) => {
                if matches!(prop, "C01" | "C02" | "C06") && (g.len() != m.len() || m.iter().any(|(k, v)| g.get(k) != Some(&Some(v.clone())))) {
                    return Err(format!("a tree of {n} keys reads back differently in one batch"));
                }
            }
            o if matches!(prop, "C01" | "C02" | "C06" | "C10") => return Err(format!("batch get of {n} keys: {}", o.say())),
            _ => {}
        }
        if prop == "C07" || prop == "C10" {
            for (k, v) in m.iter().step_by(n / 500) {
                match sut.prove(200, &root2, k) {
                    Out::Ok(p) if sut.verify(&root2, k, v, &p).is_ok() => {}
                    o => return Err(format!("proof in a tree of {n} keys: {}", o.say())),
                }
            }
        }
        if let Sut::Bit(d) = &sut {
            let now = plain_store(&d.borrow().map);
            match prop {
                "C13" => check_refs(&now, &[(root.clone(), 1), (root2.clone(), 1)].into_iter().collect())?,
                "C16" if n < 6000 => check_branches(&now)?,
                "C16" => {
                    let Some((_, Pn::Branch { count, .. })) = now.get(&root) else { return Err("the root is not a branch".into()) };
                    if *count != n as u64 {
                        return Err(format!("the root of {n} keys records count {count}"));
                    }
                }
                "C17" => check_addresses(&now, Some(&preimages(8)), &|s| intern(s, 8))?,
                _ => {}
            }
        }
        if matches!(prop, "C04" | "C13") {
            let _ = sut.remove(&root);
            for (k, v) in m.iter().step_by(n / 500) {
                if prop == "C04" && sut.get_one(200, &root2, k) != Out::Ok(Some(v.clone())) {
                    return Err(format!("removing the previous root of {n} keys damaged the next"));
                }
            }
            let _ = sut.remove(&root2);
            if let Sut::Bit(d) = &sut {
                if prop == "C13" && !d.borrow().map.is_empty() {
                    return Err(format!("{} nodes left after removing trees of {n} keys", d.borrow().map.len()));
                }
            }
        }
        st.nontrivial += 1;
    }
    Ok(())
}

fn history(prop: &str, n: usize, ops: Vec<Op>, end: Instant, st: &mut Stats) -> Result<(), String> {
    if Instant::now() > end || (n == 2 && matches!(prop, "C06" | "C08" | "C10" | "C14" | "C03" | "C04" | "C13")) {
        // too many keys for what is done after every operation
        if n != 2 {
            return Ok(());
        }
        let ops: Vec<Op> = ops.into_iter().take(40).collect();
        let h = Hist { n, wrapper: false, batch: false, tight: false, seed: 1, ops, extra: vec![] };
        return crate::hist::run(&h, prop, st).map_err(|f| format!("{} (large case of width {n}, operation {})", f.msg, f.step));
    }
    let h = Hist { n, wrapper: false, batch: false, tight: false, seed: 1, ops, extra: vec![] };
    crate::hist::run(&h, prop, st).map_err(|f| format!("{} (large case of width {n}, operation {})", f.msg, f.step))
}
