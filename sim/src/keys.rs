//! Looking for positions that share a key (C04): the keys of small positions are asked for, a relation between
//! up to four details that cancel each other is looked for, and two positions that would share a key because of
//! it are built. Nothing is concluded from the relation: the two positions are constructed and judged like any
//! others.
use crate::obs::*;
use crate::prng::Rng;
use crate::refmodel::*;
use std::collections::HashMap;
use yasai::Position;

#[derive(Clone, Copy, PartialEq, Debug)]
enum El {
    Piece(usize, i8),
    /// colour, kind, fewer, more
    Hand(usize, usize, u8, u8),
    Turn,
}

fn keys(r: &Ref) -> Option<(u64, u64, u64)> {
    guard_out("keys", || {
        let p = Position::new(partial(r));
        (p.keys().0, p.keys().1, p.key())
    })
    .ok()
}

fn build(els: &[El], split: u32, rng: &mut Rng) -> Option<(Ref, Ref)> {
    let mut x = [Ref::empty(), Ref::empty()];
    for y in x.iter_mut() {
        y.ply = 1;
    }
    for (i, e) in els.iter().enumerate() {
        let w = (split >> i & 1) as usize;
        match *e {
            El::Piece(s, p) => {
                if x[w].bd[s] != 0 {
                    return None;
                }
                x[w].bd[s] = p;
            }
            El::Hand(c, k, a, b) => {
                // several ranges of the same hand do not add up
                if x[0].hands[c][k] != 0 || x[1].hands[c][k] != 0 {
                    return None;
                }
                x[w].hands[c][k] = a;
                x[1 - w].hands[c][k] = b;
            }
            El::Turn => {
                x[0].side = BLACK;
                x[1].side = WHITE;
            }
        }
    }
    if !els.contains(&El::Turn) && rng.chance(0.5) {
        x[0].side = WHITE;
        x[1].side = WHITE;
    }
    let [a, b] = x;
    if a != b && a.valid() && b.valid() {
        Some((a, b))
    } else {
        None
    }
}

/// Two positions that are expected to share a key, if any are found.
pub fn hunt(seed: u64) -> Option<(Ref, Ref)> {
    let mut rng = Rng::new(seed);
    let mut base = Ref::empty();
    base.ply = 1;
    let k0 = keys(&base)?;
    let mut els: Vec<(El, u64, u64)> = vec![];
    for s in 0..81 {
        for k in 1..15i8 {
            for p in [k, -k] {
                let mut r = base.clone();
                r.bd[s] = p;
                if r.valid() {
                    let k = keys(&r)?;
                    els.push((El::Piece(s, p), k.0 ^ k0.0, k.2 ^ k0.2));
                }
            }
        }
    }
    for c in 0..2 {
        for k in 1..8usize {
            let mut v = vec![];
            for n in 0..=TOTAL[k] {
                let mut r = base.clone();
                r.hands[c][k] = n;
                let x = keys(&r)?;
                for (a, y) in v.iter() {
                    let (a, y): (u8, (u64, u64, u64)) = (*a, *y);
                    els.push((El::Hand(c, k, a, n), y.1 ^ x.1, y.2 ^ x.2));
                }
                v.push((n, x));
            }
        }
    }
    let mut r = base.clone();
    r.side = WHITE;
    let x = keys(&r)?;
    els.push((El::Turn, x.0 ^ k0.0, x.2 ^ k0.2));
    rng.shuffle(&mut els);
    let of_kind = |e: &El, board: bool| matches!(e, El::Hand(..)) != board;
    // 0: the board half alone, 1: the hands half alone, 2: everything together
    for half in 0..3 {
        let v: Vec<(El, u64)> = els
            .iter()
            .filter(|x| half == 2 || of_kind(&x.0, half == 0))
            .map(|x| (x.0, if half == 2 { x.2 } else { x.1 }))
            .collect();
        let mut tries = 0;
        let mut attempt = |e: &[El]| -> Option<(Ref, Ref)> {
            tries += 1;
            if tries > 20_000 {
                return None;
            }
            for split in 0..1u32 << e.len() {
                if let Some(p) = build(e, split, &mut rng) {
                    return Some(p);
                }
            }
            None
        };
        let mut one: HashMap<u64, usize> = HashMap::new();
        for (i, (e, k)) in v.iter().enumerate() {
            if *k == 0 {
                if let Some(p) = attempt(&[*e]) {
                    return Some(p);
                }
            }
            if let Some(j) = one.insert(*k, i) {
                if let Some(p) = attempt(&[*e, v[j].0]) {
                    return Some(p);
                }
            }
        }
        let mut two: HashMap<u64, (u32, u32)> = HashMap::with_capacity(v.len() * v.len() / 2);
        for i in 0..v.len() {
            for j in 0..i {
                let k = v[i].1 ^ v[j].1;
                if let Some(&x) = one.get(&k) {
                    if x != i && x != j {
                        if let Some(p) = attempt(&[v[i].0, v[j].0, v[x].0]) {
                            return Some(p);
                        }
                    }
                }
                if let Some((a, b)) = two.insert(k, (i as u32, j as u32)) {
                    let (a, b) = (a as usize, b as usize);
                    if a != i && b != i && a != j && b != j {
                        if let Some(p) = attempt(&[v[i].0, v[j].0, v[a].0, v[b].0]) {
                            return Some(p);
                        }
                    }
                }
            }
        }
    }
    None
}
