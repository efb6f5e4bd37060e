//! Memory accounting (C14): every byte the library holds, seen through the global allocator.
//!
//! Calls into the library go through `guard`, which adds the change of live heap bytes over the
//! call to the account; nothing else runs meanwhile, so the account is what the library holds.
use crate::obs::*;
use crate::prng::Rng;
use crate::script::*;
use shogi_core::{Color, Move, Piece, PieceKind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static SUT: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}

pub fn enter() -> i64 {
    LIVE.load(Relaxed)
}
pub fn leave(before: i64) {
    let d = LIVE.load(Relaxed) - before;
    if d != 0 {
        let s = SUT.fetch_add(d, Relaxed) + d;
        PEAK.fetch_max(s, Relaxed);
    }
}
/// bytes held by the library now
pub fn held() -> i64 {
    SUT.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

/// Generous allowances: what a position and one ply of its history may cost. (On the tree this was
/// written for a position costs 0.3 kB of heap per ply, at most doubled by growth.)
pub const PER_POSITION: i64 = 16 << 10;
pub const PER_PLY: i64 = 4 << 10;
pub const SLACK: i64 = 64 << 10;
/// What may be held for good over all runs of a process, with nothing alive.
pub const CREEP: i64 = 256 << 10;

/// Churns this long take the legal moves from the library, without asking the reference model.
pub const HAUL: usize = 120_000;

#[derive(Default, Clone)]
pub struct Account {
    /// held when the run began and nothing of it was alive
    pub base: i64,
    /// held before the first run
    pub first: Option<i64>,
    /// deepest history seen per live slot
    pub deepest: std::collections::HashMap<usize, usize>,
}

impl Exec {
    /// After every operation: is what the library holds explained by what is alive?
    pub fn memory(&mut self, op: &Op) -> Result<(), Violation> {
        let mut allow = self.mem.base + SLACK;
        let ids: Vec<usize> = self.slots.keys().copied().collect();
        self.mem.deepest.retain(|k, _| ids.contains(k));
        for (id, s) in &self.slots {
            let d = self.mem.deepest.entry(*id).or_insert(0);
            *d = (*d).max(s.moves.len());
            if let Op::Churn(c, _, _, depth) = op {
                if c == id {
                    *d = (*d).max(s.moves.len() + depth);
                }
            }
            if let Op::Deep(c, _, n) = op {
                if c == id {
                    *d = (*d).max(s.moves.len() + n);
                }
            }
            if let Op::Grind(c, _, _) = op {
                if c == id {
                    *d = (*d).max(s.moves.len() + 8);
                }
            }
            allow += PER_POSITION + PER_PLY * *d as i64;
        }
        self.judged += 1;
        let h = held();
        if h > allow {
            return bad(
                "memory-grows",
                format!("{h} bytes held after `{}`, {allow} allowed for {} positions", short(op), self.slots.len()),
            );
        }
        Ok(())
    }

    /// A long walk of bounded depth: legal moves, take-backs, clones made and dropped, queries.
    pub fn churn(&mut self, s: usize, seed: u64, steps: usize, depth: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get_mut(&s) else { return Ok(false) };
        let mut rng = Rng::new(seed);
        let mut r = slot.cur().clone();
        let mut line = vec![];
        let pos = &mut slot.pos;
        let mut err = None;
        for i in 0..steps {
            let push = line.len() < depth && rng.chance(0.6) && r.ply < 65000;
            let mut l = vec![];
            if push && steps < HAUL {
                l = r.legal();
            } else if push {
                l.reserve(700);
                let side = r.side;
                if let Err(e) = guard("legal_moves", || l.extend(pos.legal_moves().iter().take(700).filter_map(|m| from_move(*m, side)))) {
                    err = Some(e);
                    break;
                }
            }
            let step = if !l.is_empty() {
                let caps: Vec<_> = l.iter().copied().filter(|m| r.bd[m.to as usize] != 0 || m.promote).collect();
                let m = if !caps.is_empty() && rng.chance(0.5) { *rng.pick(&caps) } else { *rng.pick(&l) };
                let mv = to_move(m, r.side);
                line.push((m, r.clone()));
                r.make(m);
                guard("do_move", || {
                    pos.do_move(mv);
                })
            } else if let Some((m, before)) = line.pop() {
                let mv = to_move(m, before.side);
                r = before;
                guard("undo_move", || pos.undo_move(mv))
            } else {
                Ok(())
            };
            let q = match i % 8 {
                0 => guard("queries", || {
                    let l = pos.legal_moves();
                    l.iter().filter(|m| pos.is_check_move(**m)).count();
                }),
                3 => guard("clone", || {
                    let c = pos.clone();
                    let _ = c.key();
                    drop(c);
                }),
                5 => {
                    let pp = partial(&r);
                    guard("new", move || {
                        let c = yasai::Position::new(pp);
                        let _ = c.in_check();
                        drop(c);
                    })
                }
                _ => Ok(()),
            };
            if let Err(e) = step.and(q) {
                err = Some(e);
                break;
            }
        }
        if err.is_none() {
            while let Some((m, before)) = line.pop() {
                let mv = to_move(m, before.side);
                if let Err(e) = guard("undo_move", || pos.undo_move(mv)) {
                    err = Some(e);
                    break;
                }
            }
        }
        self.applied += steps as u64;
        match err {
            Some(e) => bad("panic", e),
            None => Ok(true),
        }
    }

    /// A nonsensical call on a clone; a panic is expected and survived, the clone is dropped.
    pub fn poke(&mut self, s: usize, seed: u64) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get(&s) else { return Ok(false) };
        let mut rng = Rng::new(seed);
        let r = slot.cur();
        let pos = &slot.pos;
        for _ in 0..200 {
            let mut v = nonsense(&mut rng, r);
            if v.is_empty() {
                break;
            }
            let m = v.swap_remove(rng.below(v.len()));
            let how = rng.below(2);
            let _ = guard("nonsense", || {
                let mut c = pos.clone();
                if how == 0 {
                    let _ = c.is_check_move(m);
                }
                c.do_move(m);
            });
        }
        Ok(true)
    }

    /// At the end of a run: everything is dropped; is everything returned?
    pub fn memory_end(&mut self) -> Result<(), Violation> {
        let mut ids: Vec<usize> = self.slots.keys().copied().collect();
        ids.sort();
        for s in ids {
            let sl = self.slots.remove(&s).unwrap();
            if let Err(e) = guard("drop", move || drop(sl.pos)) {
                return bad("skip", e);
            }
        }
        self.judged += 2;
        let h = held();
        if h > self.mem.base + SLACK {
            return bad("memory-kept", format!("{h} bytes held after everything was dropped, {} before", self.mem.base));
        }
        let first = self.mem.first.unwrap_or(self.mem.base);
        if h > first + CREEP {
            return bad("memory-creeps", format!("{h} bytes held with nothing alive, {first} before the first run of this process"));
        }
        Ok(())
    }
}

fn short(op: &Op) -> String {
    op.to_line().chars().take(60).collect()
}

/// Moves no legal move can be: from an empty square, drops of pieces not in hand, promotions of
/// pieces that cannot promote. The library may panic on them.
pub fn nonsense(rng: &mut Rng, r: &crate::refmodel::Ref) -> Vec<Move> {
    let mut v = vec![];
    let empty: Vec<u8> = (0..81u8).filter(|i| r.bd[*i as usize] == 0).collect();
    let full: Vec<u8> = (0..81u8).filter(|i| r.bd[*i as usize] != 0).collect();
    if !empty.is_empty() {
        let f = *rng.pick(&empty);
        let t = rng.below(81) as u8;
        v.push(Move::Normal { from: sq(f), to: sq(t), promote: rng.chance(0.5) });
        for k in 1..8usize {
            if r.hands[r.side][k] == 0 {
                let c = if r.side == 0 { Color::Black } else { Color::White };
                v.push(Move::Drop { piece: Piece::new(PieceKind::from_u8(k as u8).unwrap(), c), to: sq(f) });
            }
        }
    }
    let fixed: Vec<u8> = full.iter().copied().filter(|i| {
        let k = r.bd[*i as usize].abs();
        k == crate::refmodel::K || k == crate::refmodel::G || k > crate::refmodel::K
    }).collect();
    if !fixed.is_empty() && !empty.is_empty() {
        v.push(Move::Normal { from: sq(*rng.pick(&fixed)), to: sq(*rng.pick(&empty)), promote: true });
    }
    v
}

/// Builds the shared tables so that they do not count as anybody's memory.
pub fn warm_up() {
    let r = crate::refmodel::Ref::startpos();
    let pp = partial(&r);
    let _ = guard("warm-up", move || {
        let mut p = yasai::Position::new(pp);
        for _ in 0..30 {
            let l = p.legal_moves();
            if l.is_empty() {
                break;
            }
            let m = l[l.len() / 2];
            let _ = p.is_check_move(m);
            p.do_move(m);
            let _ = (p.key(), p.keys(), p.in_check());
            drop(p.clone());
        }
    });
}

/// The churn script of one run.
pub fn churn_script(seed: u64, thorough: bool, haul: bool) -> Vec<Op> {
    let mut rng = Rng::new(seed ^ 0x6d65_6d6f_7279);
    let mut v = vec![];
    let (_, start) = crate::gen::start(&mut rng);
    v.push(Op::New(0, start));
    if haul {
        for _ in 0..12 {
            let (_, start) = crate::gen::start(&mut rng);
            v.push(Op::New(0, start));
            v.push(Op::Churn(0, rng.next(), HAUL, 8));
        }
        return v;
    }
    let n = rng.range(1, 4);
    for i in 1..n {
        v.push(Op::Clone(i, 0));
    }
    for _ in 0..rng.range(2, 5) {
        let s = rng.below(n);
        match rng.below(5) {
            4 if rng.chance(0.5) => v.push(Op::Throng(s, rng.next(), *rng.pick(&[40, 300]))),
            4 => v.push(Op::Relay(s, rng.next(), *rng.pick(&[300, 3_000, 12_000]))),
            0 => v.push(Op::Poke(s, rng.next())),
            1 => {
                v.push(Op::Drop(s));
                let src = (0..n).find(|x| *x != s).unwrap_or(0);
                v.push(Op::Clone(s, src));
            }
            _ => {
                let steps = *rng.pick(&[300usize, 2_000, 8_000]) * if thorough { 8 } else { 1 };
                let depth = *rng.pick(&[1usize, 3, 10, 30, 200]);
                v.push(Op::Churn(s, rng.next(), steps, depth));
            }
        }
    }
    v
}
