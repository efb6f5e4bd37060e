//! The price of a call, in steps: basic blocks executed and bytes copied inside it, counted by the compiler's
//! coverage instrumentation (sim/meter.c). Sleeping costs steps too. No clock is involved, so a price is
//! as repeatable as everything else here.
//!
//! What a call costs may depend on the position. It must not depend on how much happened before: the same
//! position is priced as a fresh object and after a long history, much work, among many others, late in the process.
use crate::obs::*;
use crate::prng::Rng;
use crate::refmodel::*;
use crate::script::*;
use shogi_core::Move;
use std::sync::atomic::{AtomicPtr, Ordering::*};
use yasai::Position;

pub static METER: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

pub fn now() -> u64 {
    let p = METER.load(Relaxed);
    if p.is_null() {
        return 0;
    }
    unsafe { p.read_volatile() }
}

pub const KINDS: [&str; 6] = ["legal_moves", "is_check_move", "do_move, queries, undo_move", "queries", "clone and drop", "new"];
pub type Price = [u64; 6];

/// A call may cost this many times what it costs a new object at its dearest occasion, plus a little.
/// (On the tree this was written for prices do not differ at all.)
pub const FACTOR: u64 = 2;
pub const LITTLE: u64 = 2_000;
/// Copying and dropping a history: so much for each ply.
pub const CLONE_PLY: u64 = 800;

#[derive(Default)]
pub struct Bank {
    known: Vec<(Ref, Vec<Mv>, Price)>,
    /// price most above what it was, in percent
    pub worst: u64,
}

fn some_moves(r: &Ref) -> Vec<Mv> {
    let l = r.legal();
    let n = l.len();
    let mut v: Vec<Mv> = (0..n.min(8)).map(|i| l[i * n / n.min(8)]).collect();
    if r.ply == u16::MAX {
        v.clear();
    }
    v
}

fn take(p: &mut Position, mvs: &[Move]) -> Result<Price, String> {
    let mut x = [0; 6];
    let mut t = now();
    let mut lap = || {
        let n = now();
        let d = n - t;
        t = n;
        d
    };
    let ask = |p: &Position| {
        std::hint::black_box((p.in_check(), p.key(), p.keys(), p.ply(), p.side_to_move(), p.piece_at(sq(40)), p.hand(color(0))));
    };
    guard("legal_moves", || {
        std::hint::black_box(p.legal_moves().len());
    })?;
    x[0] = lap();
    for m in mvs {
        guard("is_check_move", || {
            std::hint::black_box(p.is_check_move(*m));
        })?;
    }
    x[1] = lap();
    for m in mvs {
        guard("do_move", || {
            p.do_move(*m);
            ask(p);
            std::hint::black_box(p.legal_moves().len());
            p.undo_move(*m);
        })?;
    }
    x[2] = lap();
    guard("query", || {
        for _ in 0..8 {
            ask(p)
        }
    })?;
    x[3] = lap();
    guard("clone", || drop(p.clone()))?;
    x[4] = lap();
    Ok(x)
}

/// A new object for the position, priced.
fn take_new(r: &Ref, mvs: &[Move]) -> Result<Price, String> {
    let pp = partial(r);
    let t = now();
    let mut p = guard_out("Position::new", move || Position::new(pp))?;
    let n = now() - t;
    let mut x = take(&mut p, mvs)?;
    x[5] = n;
    guard_out("drop", move || drop(p))?;
    Ok(x)
}

fn each(a: Price, b: Price, f: impl Fn(u64, u64) -> u64) -> Price {
    std::array::from_fn(|i| f(a[i], b[i]))
}

impl Exec {
    fn too_dear(&mut self, got: &Price, base: &Price, plies: usize) -> Option<String> {
        self.judged += 1;
        for i in 0..6 {
            let allow = FACTOR * base[i] + LITTLE + if i == 4 { CLONE_PLY * plies as u64 } else { 0 };
            if i != 4 {
                self.bank.worst = self.bank.worst.max(got[i] * 100 / base[i].max(1));
            }
            if got[i] > allow {
                return Some(format!("{}: {} steps, {} before any history or work ({allow} allowed)", KINDS[i], got[i], base[i]));
            }
        }
        None
    }

    /// The live object against a fresh one of the same position.
    pub fn price(&mut self, s: usize) -> Result<(), Violation> {
        let slot = self.slots.get_mut(&s).unwrap();
        let r = slot.cur().clone();
        let plies = slot.moves.len();
        let mvs: Vec<Move> = some_moves(&r).iter().map(|m| to_move(*m, r.side)).collect();
        let r2 = r.clone();
        let pos = &mut slot.pos;
        let mut all = || -> Result<(Price, Price), String> {
            let mut live = [u64::MAX; 6];
            for _ in 0..3 {
                let mut x = take(pos, &mvs)?;
                x[5] = 0;
                live = each(live, x, u64::min);
            }
            let mut base = [0; 6];
            for _ in 0..2 {
                base = each(base, take_new(&r2, &mvs)?, u64::max);
            }
            Ok((live, base))
        };
        let (live, base) = match all() {
            Ok(x) => x,
            Err(e) => return bad("skip", e),
        };
        let (a, b) = r.fingerprint();
        self.distinct.insert((a ^ b) as u64);
        live.iter().chain(&base).for_each(|x| self.fold(*x));
        match self.too_dear(&live, &base, plies) {
            Some(x) => bad("slower", format!("{x} at {}", self.at(s))),
            None => Ok(()),
        }
    }

    /// Prices of fresh objects before anything happened in this process.
    pub fn open_bank(&mut self) {
        crate::memory::warm_up();
        let mut rng = Rng::new(17);
        for i in 0..8 {
            let r = if i == 0 { Ref::startpos() } else { crate::gen::start(&mut rng).1 };
            let m = some_moves(&r);
            let mvs: Vec<Move> = m.iter().map(|m| to_move(*m, r.side)).collect();
            let mut base = [0; 6];
            let mut fine = true;
            for _ in 0..3 {
                match take_new(&r, &mvs) {
                    Ok(x) => base = each(base, x, u64::max),
                    Err(_) => fine = false,
                }
            }
            if fine {
                self.bank.known.push((r, m, base));
            }
        }
    }

    /// The same again later.
    pub fn ask_bank(&mut self) -> Result<(), Violation> {
        if self.bank.known.is_empty() {
            return Ok(());
        }
        let i = self.run_no as usize % self.bank.known.len();
        for i in [0, i] {
            let (r, m, base) = self.bank.known[i].clone();
            let mvs: Vec<Move> = m.iter().map(|m| to_move(*m, r.side)).collect();
            let mut late = [u64::MAX; 6];
            for _ in 0..3 {
                match take_new(&r, &mvs) {
                    Ok(x) => late = each(late, x, u64::min),
                    Err(e) => return bad("skip", e),
                }
            }
            if let Some(x) = self.too_dear(&late, &base, 0) {
                return bad("slower", format!("{x} for a new object of {}", r.to_sfen()));
            }
        }
        Ok(())
    }
}
