//! Sizes no game reaches: the longest history there is, and very many clones alive at once.
use crate::obs::*;
use crate::prng::Rng;
use crate::refmodel::*;
use crate::script::*;
use yasai::Position;

impl Exec {
    /// A line of n moves, observed on the way at random plies and where counters and buffers of usual sizes end;
    /// a clone taken at its end; then both are taken back to where the line began.
    pub fn deep(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get(&s) else { return Ok(false) };
        let base = slot.moves.len();
        let copy = 1_000_000 + s;
        let mut rng = Rng::new(seed);
        let special = |d: usize| (3..17).any(|k| d + 1 >= 1 << k && d <= (1 << k) + 1) || d % 1000 == 0;
        let mut keys = vec![];
        let mut stuck = 0;
        self.full(s)?;
        while self.slots[&s].moves.len() < base + n && self.slots[&s].cur().ply < u16::MAX {
            let d = self.slots[&s].moves.len();
            let legal = self.slots.get_mut(&s).unwrap().node().legal.clone();
            if legal.is_empty() {
                // mated: somewhere else, further up
                stuck += 1;
                if stuck > 2000 || d < base + 3 {
                    break;
                }
                for _ in 0..(1 + rng.below(20)).min(d - base) {
                    self.undo(s)?;
                    keys.pop();
                }
                continue;
            }
            let r = self.slots[&s].cur();
            let quiet: Vec<Mv> = legal.iter().copied().filter(|m| !m.is_drop() && r.bd[m.to as usize] == 0).collect();
            let m = if !quiet.is_empty() && rng.chance(0.8) { *rng.pick(&quiet) } else { *rng.pick(&legal) };
            let k = {
                let p = &self.slots[&s].pos;
                guard("key", || (p.keys(), p.key(), p.in_check()))
            };
            match k {
                Ok(k) => keys.push(k),
                Err(e) => return bad("panic", format!("{e} after {d} moves")),
            }
            self.do_move(s, m)?;
            if special(d + 1) || rng.chance(0.002) {
                self.full(s)?;
            }
        }
        self.full(s)?;
        self.exec_clone(copy, s)?;
        self.full(copy)?;
        for who in [s, copy] {
            let mut ks = keys.clone();
            while let Some(k) = ks.pop() {
                self.undo(who)?;
                let d = self.slots[&who].moves.len();
                let p = &self.slots[&who].pos;
                let now = match guard("key", || (p.keys(), p.key(), p.in_check())) {
                    Ok(k) => k,
                    Err(e) => return bad("panic", format!("{e} after going back to {d} moves")),
                };
                self.judged += 1;
                if now != k {
                    let class = match () {
                        _ if self.props.has(1) => "undo-differs",
                        _ if self.props.has(2) => "history-dependent",
                        _ if self.props.has(8) && who == copy => "undo-differs",
                        _ if self.props.has(3) && (now.0, now.1) != (k.0, k.1) => "key-split",
                        _ if self.props.has(6) && now.2 != k.2 => "check-wrong",
                        _ => "",
                    };
                    if !class.is_empty() {
                        return bad(class, format!("keys, key, in_check back at ply {d}: {now:x?}, were {k:x?} at {}", self.at(who)));
                    }
                }
                if special(d) || rng.chance(0.002) {
                    self.full(who)?;
                }
                if self.folds() && d % 64 == 0 {
                    self.fold(now.1 ^ now.2 as u64);
                }
            }
        }
        self.drop_slot(copy)?;
        self.probe(if n > 60_000 { 30 } else { 29 });
        Ok(true)
    }

    /// Very many clones alive at once, some of them moved on, dropped in any order.
    pub fn herd(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get_mut(&s) else { return Ok(false) };
        let r = slot.cur().clone();
        if r.ply == u16::MAX {
            return Ok(false);
        }
        if self.props.has(17) {
            return self.dear_herd(s, seed, n);
        }
        let slot = self.slots.get_mut(&s).unwrap();
        let mut rng = Rng::new(seed);
        let mut legal = slot.node().legal.clone();
        rng.shuffle(&mut legal);
        legal.truncate(5);
        // what each kind of clone must answer: at the position itself, or one move on
        let mut want = vec![];
        for m in std::iter::once(None).chain(legal.iter().copied().map(Some)) {
            let at = m.map_or(r.clone(), |m| r.after(m));
            let f = self.fresh(&at, s)?;
            want.push((f.keys(), at.in_check(at.side)));
        }
        let mvs: Vec<_> = legal.iter().map(|m| to_move(*m, r.side)).collect();
        let pos = &self.slots[&s].pos;
        let out = guard("a herd of clones", || {
            let ask = |p: &Position| (p.keys(), p.in_check());
            let mut v: Vec<(Position, usize)> = Vec::with_capacity(n);
            // as many as counts of usual sizes can tell and a few more, all alike; at the limits one of them moves on and goes
            let edge = |t: usize| [256usize, 32_768, 65_536].iter().any(|e| t.abs_diff(*e) <= 3);
            let chain = rng.chance(0.5);
            while v.len() < n.min(65_545) {
                let from = if chain { v.last().map_or(pos, |x| &x.0) } else { pos };
                v.push((from.clone(), 0));
                if edge(v.len()) && !mvs.is_empty() {
                    let i = rng.below(v.len());
                    let (mut x, _) = v.swap_remove(i);
                    let k = 1 + rng.below(mvs.len());
                    x.do_move(mvs[k - 1]);
                    let other = &v[rng.below(v.len())].0;
                    for (p, k) in [(&x, k), (other, 0), (pos, 0)] {
                        if ask(p) != want[k] {
                            return Some((v.len() + 1, v.len() + 1, k, ask(p)));
                        }
                    }
                    if rng.chance(0.5) {
                        x.undo_move(mvs[k - 1]);
                    }
                    drop(x);
                    if ask(pos) != want[0] {
                        return Some((v.len() + 1, v.len(), 0, ask(pos)));
                    }
                    v.push((pos.clone(), 0));
                }
            }
            v.clear();
            for _ in 0..n {
                let (mut p, mut k) = if v.is_empty() || rng.chance(0.5) {
                    (pos.clone(), 0)
                } else {
                    let x = rng.pick(&v);
                    (x.0.clone(), x.1)
                };
                if k == 0 && !mvs.is_empty() && rng.chance(0.2) {
                    k = 1 + rng.below(mvs.len());
                    p.do_move(mvs[k - 1]);
                } else if k > 0 && rng.chance(0.2) {
                    p.undo_move(mvs[k - 1]);
                    k = 0;
                }
                if !v.is_empty() && rng.chance(0.02) {
                    let i = rng.below(v.len());
                    v[i] = (p, k);
                } else {
                    v.push((p, k));
                }
            }
            let all = v.len();
            if ask(pos) != want[0] {
                return Some((all, all, 0, ask(pos)));
            }
            while !v.is_empty() {
                let i = rng.below(v.len());
                let (mut p, k) = v.swap_remove(i);
                if ask(&p) != want[k] {
                    return Some((all, v.len(), k, ask(&p)));
                }
                if k > 0 && rng.chance(0.5) {
                    p.undo_move(mvs[k - 1]);
                    if ask(&p) != want[0] {
                        return Some((all, v.len(), 0, ask(&p)));
                    }
                }
                drop(p);
            }
            if ask(pos) != want[0] {
                return Some((all, 0, 0, ask(pos)));
            }
            None
        });
        self.judged += n as u64;
        self.probe(if n > 65_536 { 32 } else { 31 });
        match out {
            Err(e) => bad("panic", format!("{e} at {}", self.at(s))),
            Ok(None) => Ok(true),
            Ok(Some((all, left, k, got))) => {
                let class = match () {
                    _ if self.props.has(8) => "clone-differs",
                    _ if self.props.has(2) => "history-dependent",
                    _ if self.props.has(3) && got.0 != want[k].0 => "key-split",
                    _ if self.props.has(6) && got.1 != want[k].1 => "check-wrong",
                    _ => return Ok(true),
                };
                bad(class, format!("a clone answers keys {:x?}, in_check {}, should be {:x?} ({all} clones made, {left} left) at {}", got.0, got.1, want[k], self.at(s)))
            }
        }
    }

    /// C17: what calls cost while very many positions are alive, and what it costs to drop them in any order.
    fn dear_herd(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        let mut rng = Rng::new(seed);
        let alone = self.drop_prices(s, 4, 4, &mut rng);
        let mut v = {
            let pos = &self.slots[&s].pos;
            guard_out("clones", || vec![pos.clone(); n])
        };
        self.price(s)?;
        let mut r = self.ask_bank();
        let crowd = self.drop_prices(s, n, 9, &mut rng);
        if let (Ok(v), Ok(())) = (&mut v, &r) {
            // one of the many instead of the original
            let k = rng.below(n);
            std::mem::swap(&mut v[k], &mut self.slots.get_mut(&s).unwrap().pos);
            r = self.price(s);
            std::mem::swap(&mut v[k], &mut self.slots.get_mut(&s).unwrap().pos);
        }
        drop(v);
        self.probe(if n > 65_536 { 32 } else { 31 });
        r?;
        let (mut alone, mut crowd) = (alone, crowd);
        alone.sort();
        crowd.sort();
        self.judged += 1;
        let (a, c) = (alone[alone.len() - 1], crowd[crowd.len() / 2]);
        if c > crate::price::FACTOR * a + crate::price::LITTLE {
            return bad("slower", format!("dropping a clone: {c} steps among {n} others, {a} alone at {}", self.at(s)));
        }
        Ok(true)
    }

    /// n clones are made, some of them in the middle dropped one by one: what that costs.
    fn drop_prices(&mut self, s: usize, n: usize, some: usize, rng: &mut Rng) -> Vec<u64> {
        let pos = &self.slots[&s].pos;
        let mut v: Vec<Position> = guard_out("clones", || vec![pos.clone(); n]).unwrap_or_default();
        let mut p = vec![0];
        for _ in 0..some.min(v.len()) {
            let k = rng.below(v.len());
            let x = v.swap_remove(k);
            let t = crate::price::now();
            let _ = guard_out("drop", move || drop(x));
            p.push(crate::price::now() - t);
        }
        p
    }
}
