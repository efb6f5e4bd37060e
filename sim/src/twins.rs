//! Pairs of positions whose keys agree in half of their bits: what remembers answers under a shortened key
//! mixes them up. The keys are asked for; nothing is assumed about how they are made.
use crate::obs::*;
use crate::prng::{mix, Rng};
use crate::refmodel::*;
use crate::script::Op;
use yasai::Position;

const SAMPLE: u64 = 260_000;
const PAIRS: usize = 10;

fn small(rng: &mut Rng) -> Ref {
    loop {
        let mut r = Ref::empty();
        r.ply = rng.range(1, 300) as u16;
        r.side = rng.below(2);
        r.bd[rng.below(81)] = K;
        let s = rng.below(81);
        if r.bd[s] != 0 {
            continue;
        }
        r.bd[s] = -K;
        for _ in 0..rng.range(2, 6) {
            let s = rng.below(81);
            let k = rng.range(1, 14) as i8;
            if r.bd[s] == 0 && k != K {
                r.bd[s] = if rng.chance(0.5) { k } else { -k };
            }
        }
        for _ in 0..rng.below(3) {
            let k = rng.range(1, 7);
            if k != K as usize {
                r.hands[rng.below(2)][k] = 1;
            }
        }
        if r.valid() {
            return r;
        }
    }
}

fn sample(seed: u64, i: u64) -> Option<(Ref, Option<Mv>, Position)> {
    let mut rng = Rng::new(mix(seed ^ mix(i)));
    let r = small(&mut rng);
    let mut p = guard_out("new", || Position::new(partial(&r))).ok()?;
    if i % 2 == 0 {
        return Some((r, None, p));
    }
    // what a move leads to
    let mut l: Vec<Mv> = guard_out("legal_moves", || p.legal_moves()).ok()?.iter().filter_map(|m| from_move(*m, r.side)).collect();
    if l.is_empty() {
        return Some((r, None, p));
    }
    l.sort();
    let m = *rng.pick(&l);
    let mv = to_move(m, r.side);
    guard_out("do_move", || p.do_move(mv)).ok()?;
    Some((r, Some(m), p))
}

/// Four moves that lead back to the same board and side, if some are found.
fn cycle(rng: &mut Rng, r: &Ref) -> Vec<Mv> {
    let back = |m: Mv| Mv { from: m.to, to: m.from, promote: false };
    for _ in 0..12 {
        let mut x = r.clone();
        let mut v: Vec<Mv> = vec![];
        for i in 0..4 {
            let l = x.legal();
            let m = if i < 2 {
                let q: Vec<Mv> = l.iter().copied().filter(|m| !m.is_drop() && !m.promote && x.bd[m.to as usize] == 0).collect();
                if q.is_empty() {
                    break;
                }
                *rng.pick(&q)
            } else {
                back(v[i - 2])
            };
            if !l.contains(&m) {
                break;
            }
            v.push(m);
            x.make(m);
        }
        if v.len() == 4 {
            return v;
        }
    }
    vec![]
}

const MASKS: [u64; 4] = [0x0000_ffff_ffff_ffff, 0xffff_ffff_ffff_0000, 0xffff_ffff_0000_ffff, 0xffff_0000_ffff_ffff];

/// Pairs that agree in three quarters of the bits of their keys. They are looked for as if keys were sums of
/// what single pieces contribute, and kept if the keys of the finished positions do agree.
fn close(rng: &mut Rng) -> Vec<(Ref, Ref)> {
    let key = |r: &Ref| guard_out("new", || Position::new(partial(r)).key()).ok();
    let mut base = Ref::empty();
    base.ply = 1;
    base.side = rng.below(2);
    let (a, b) = (rng.below(40), 41 + rng.below(40));
    base.bd[a] = K;
    base.bd[b] = -K;
    let Some(k0) = key(&base) else { return vec![] };
    let mut els: Vec<(u64, u8, i8)> = vec![];
    for s in 0..81 {
        for k in 1..15i8 {
            for p in [k, -k] {
                let mut r = base.clone();
                if r.bd[s] != 0 || k == K {
                    continue;
                }
                r.bd[s] = p;
                if r.valid() {
                    if let Some(x) = key(&r) {
                        els.push((x ^ k0, s as u8, p));
                    }
                }
            }
        }
    }
    rng.shuffle(&mut els);
    els.truncate(1500);
    let mut two: Vec<(u64, u16, u16)> = vec![];
    for i in 0..els.len() {
        for j in 0..i {
            if els[i].1 != els[j].1 {
                two.push((els[i].0 ^ els[j].0, i as u16, j as u16));
            }
        }
    }
    let mut found = vec![];
    for mask in MASKS {
        // half of the bits in each step
        let (mut lo, mut hi, mut n) = (0u64, 0u64, 0);
        for i in 0..64 {
            if mask >> i & 1 == 1 {
                if n < 24 {
                    lo |= 1 << i;
                } else {
                    hi |= 1 << i;
                }
                n += 1;
            }
        }
        two.sort_by_key(|x| x.0 & lo);
        let mut four: Vec<(u64, u32, u32)> = vec![];
        let mut i = 0;
        while i < two.len() {
            let mut j = i;
            while j < two.len() && two[j].0 & lo == two[i].0 & lo {
                for k in i..j {
                    four.push(((two[j].0 ^ two[k].0) & hi, j as u32, k as u32));
                }
                j += 1;
            }
            i = j;
        }
        four.sort();
        let mut kept = 0;
        for w in four.windows(2).filter(|w| w[0].0 == w[1].0) {
            let mut e: Vec<usize> = vec![];
            for q in w {
                for t in [q.1, q.2] {
                    e.push(two[t as usize].1 as usize);
                    e.push(two[t as usize].2 as usize);
                }
            }
            for _ in 0..20 {
                rng.shuffle(&mut e);
                let mut x = [base.clone(), base.clone()];
                let mut ok = true;
                for (i, n) in e.iter().enumerate() {
                    let (_, s, p) = els[*n];
                    ok &= x[i / 4].bd[s as usize] == 0;
                    x[i / 4].bd[s as usize] = p;
                }
                if ok && x[0] != x[1] && x[0].valid() && x[1].valid() {
                    if let (Some(p), Some(q)) = (key(&x[0]), key(&x[1])) {
                        if (p ^ q) & mask == 0 {
                            let [p, q] = x;
                            found.push((p, q));
                            kept += 1;
                        }
                    }
                    break;
                }
            }
            if kept == PAIRS {
                break;
            }
        }
    }
    found
}

/// The second kind of script.
pub fn close_script(seed: u64) -> Vec<Op> {
    let mut rng = Rng::new(seed);
    let mut v = vec![];
    for (a, b) in close(&mut rng) {
        let mut cycles = vec![];
        for (slot, r) in [(1, a), (2, b)] {
            let c = cycle(&mut rng, &r);
            v.push(Op::New(slot, r));
            v.push(Op::Obs(slot));
            for m in &c {
                v.push(Op::Do(slot, *m));
            }
            v.push(Op::Obs(slot));
            cycles.push(c);
        }
        v.extend([Op::Obs(1), Op::Obs(2)]);
        for (slot, c) in [(1, &cycles[0]), (2, &cycles[1])] {
            for _ in c {
                v.push(Op::Undo(slot));
            }
            v.push(Op::Obs(slot));
        }
    }
    v
}

pub fn script(seed: u64) -> Vec<Op> {
    let mut all: Vec<(u64, u64)> = vec![];
    for i in 0..SAMPLE {
        if let Some((_, _, p)) = sample(seed, i) {
            all.push((p.key(), p.keys().0));
        }
    }
    let mut v = vec![];
    for f in 0..4 {
        let half = |x: &(u64, u64)| -> u32 {
            let y = if f < 2 { x.0 } else { x.1 };
            if f % 2 == 0 { y as u32 } else { (y >> 32) as u32 }
        };
        let mut t: Vec<(u32, u32)> = all.iter().enumerate().map(|(i, x)| (half(x), i as u32)).collect();
        t.sort();
        for w in t.windows(2).filter(|w| w[0].0 == w[1].0).take(PAIRS) {
            for (slot, i) in [(1, w[0].1), (2, w[1].1)] {
                if let Some((r, m, _)) = sample(seed, i as u64) {
                    v.push(Op::New(slot, r));
                    if let Some(m) = m {
                        v.push(Op::Do(slot, m));
                    }
                    v.push(Op::Obs(slot));
                }
            }
            v.extend([Op::Obs(1), Op::Clone(3, 1), Op::Obs(3), Op::Obs(2), Op::Undo(1), Op::Obs(1), Op::Undo(2), Op::Obs(2)]);
        }
    }
    v
}
