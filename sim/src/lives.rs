//! Long successions: objects replaced by their clones over and over, and threads that come and go.
use crate::obs::*;
use crate::prng::{mix, Rng};
use crate::refmodel::*;
use crate::script::*;
use shogi_core::Move;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::*};
use yasai::Position;

type Seen = ((u64, u64), bool, u16);
fn ask(p: &Position) -> Seen {
    (p.keys(), p.in_check(), p.ply())
}

/// A position that a thread keeps until it ends; it is asked once more then.
struct Keeper<'a>(Position, Seen, &'a AtomicU32);
impl Drop for Keeper<'_> {
    fn drop(&mut self) {
        let r = catch_unwind(AssertUnwindSafe(|| (ask(&self.0) == self.1, self.0.clone().legal_moves().len())));
        let v = match r {
            Ok((true, _)) => 1,
            Ok(_) => 2,
            Err(_) => 3,
        };
        self.2.fetch_max(v, SeqCst);
    }
}
thread_local! {
    static KEPT: RefCell<Vec<Keeper<'static>>> = const { RefCell::new(Vec::new()) };
}

/// What one of the threads does.
struct Task<'a> {
    pos: &'a Position,
    /// what it must answer, and after each of the moves
    want: &'a [Seen],
    mvs: &'a [Move],
    start: shogi_core::PartialPosition,
    how: u64,
    end: &'a AtomicU32,
    /// in a thread of its own, which ends afterwards
    own: bool,
}

impl<'a> Task<'a> {
    /// The same, to be done by whoever is here.
    fn alone(&self) -> Task<'a> {
        Task { start: self.start.clone(), own: false, ..*self }
    }
    /// 0 all right, 1 a wrong answer, 2 a panic; and what there was to see.
    fn run(&self) -> (u32, u64, Option<Position>) {
        let mut rng = Rng::new(self.how);
        let early = rng.chance(0.5);
        if early && self.own {
            // registers what happens at the end of the thread before the library can
            KEPT.with_borrow_mut(|k| k.reserve(1));
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = if rng.chance(0.3) { Position::new(self.start.clone()) } else { self.pos.clone() };
            let mut sum = 0u64;
            let mut see = |p: &Position, w: &Seen| {
                let a = ask(p);
                sum = mix(sum ^ a.0 .0 ^ a.0 .1.rotate_left(9) ^ a.1 as u64 ^ (a.2 as u64) << 4);
                a == *w
            };
            let mut ok = see(&c, &self.want[0]);
            let list = rng.chance(0.4);
            if !self.mvs.is_empty() && rng.chance(0.7) {
                let k = rng.below(self.mvs.len());
                let said = c.is_check_move(self.mvs[k]);
                c.do_move(self.mvs[k]);
                ok &= see(&c, &self.want[k + 1]) && said == self.want[k + 1].1;
                if rng.chance(0.7) {
                    c.undo_move(self.mvs[k]);
                    ok &= see(&c, &self.want[0]);
                }
            }
            if list {
                sum = c.legal_moves().iter().fold(sum, |a, m| mix(a ^ code(m)));
            }
            (ok, sum, c)
        }));
        match r {
            Err(_) => (2, 0xdead, None),
            Ok((ok, sum, c)) => {
                let keep = match rng.below(4) {
                    0 => {
                        drop(c);
                        None
                    }
                    1 if self.own => {
                        let seen = ask(&c);
                        // the thread is joined before the counter goes
                        let end: &'static AtomicU32 = unsafe { std::mem::transmute(self.end) };
                        KEPT.with_borrow_mut(|k| k.push(Keeper(c, seen, end)));
                        None
                    }
                    _ => Some(c),
                };
                (!ok as u32, sum, keep)
            }
        }
    }
}

fn code(m: &Move) -> u64 {
    match *m {
        Move::Normal { from, to, promote } => from.index() as u64 | (to.index() as u64) << 8 | (promote as u64) << 16,
        Move::Drop { piece, to } => 1 << 20 | piece.as_u8() as u64 | (to.index() as u64) << 8,
    }
}

impl Exec {
    /// A few legal moves of the slot, and what a new object answers for it and after each of them.
    fn expected(&mut self, s: usize, seed: u64) -> Result<(Vec<Mv>, Vec<Seen>), Violation> {
        let slot = self.slots.get_mut(&s).unwrap();
        let r = slot.cur().clone();
        let mut legal = slot.node().legal.clone();
        Rng::new(seed ^ 1).shuffle(&mut legal);
        legal.truncate(if r.ply == u16::MAX { 0 } else { 6 });
        let mut want = vec![];
        for m in std::iter::once(None).chain(legal.iter().copied().map(Some)) {
            let at = m.map_or(r.clone(), |m| r.after(m));
            let f = self.fresh(&at, s)?;
            want.push((f.keys(), at.in_check(at.side), at.ply));
        }
        Ok((legal, want))
    }
    fn lives_class(&self, got: &Seen, want: &Seen, clones: bool) -> &'static str {
        match () {
            _ if self.props.has(8) && clones => "clone-differs",
            _ if self.props.has(2) => "history-dependent",
            _ if self.props.has(3) && got.0 != want.0 => "key-split",
            _ if self.props.has(6) && got.1 != want.1 => "check-wrong",
            _ if self.props.has(7) && got.2 != want.2 => "ply-wrong",
            _ => "",
        }
    }

    /// The object is replaced by a clone of itself, n times; its history comes along.
    pub fn relay(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        if !self.slots.contains_key(&s) {
            return Ok(false);
        }
        let (legal, want) = self.expected(s, seed)?;
        let slot = self.slots.get_mut(&s).unwrap();
        let side = slot.cur().side;
        let depth = slot.moves.len();
        // copies of long histories take their time
        let n = n.min(2_000_000 / (depth + 1));
        let mvs: Vec<Move> = legal.iter().map(|m| to_move(*m, side)).collect();
        let last = slot.moves.last().map(|m| to_move(*m, 1 - side));
        let mut rng = Rng::new(seed);
        let pos = &mut slot.pos;
        let out = guard("clones of clones", || {
            for i in 1..=n {
                let mut c = pos.clone();
                match rng.below(16) {
                    0 if !mvs.is_empty() => {
                        let m = mvs[rng.below(mvs.len())];
                        c.do_move(m);
                        c.undo_move(m);
                    }
                    1 if !mvs.is_empty() => {
                        let k = rng.below(mvs.len());
                        pos.do_move(mvs[k]);
                        if ask(pos) != want[k + 1] {
                            return Some((i, k + 1, ask(pos)));
                        }
                    }
                    2 => c.clone_from(pos),
                    // the clone is made one move on, or after the last move was taken back and made again
                    3 if !mvs.is_empty() => {
                        let m = mvs[rng.below(mvs.len())];
                        pos.do_move(m);
                        c = pos.clone();
                        c.undo_move(m);
                    }
                    4 | 5 => {
                        if let Some(m) = last {
                            c.undo_move(m);
                            c.do_move(m);
                        }
                    }
                    _ => {}
                }
                *pos = c;
                if (i.is_power_of_two() || (i + 1).is_power_of_two() || i % 64 == 0 || i == n) && ask(pos) != want[0] {
                    return Some((i, 0, ask(pos)));
                }
            }
            None
        });
        self.judged += 1 + n as u64 / 64;
        self.probe(33);
        match out {
            Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            Ok(Some((i, k, got))) => {
                let class = self.lives_class(&got, &want[k], true);
                if !class.is_empty() {
                    return bad(class, format!("after {i} generations of clones: keys, in_check, ply {got:x?}, should be {:x?} at {}", want[k], self.at(s)));
                }
            }
            Ok(None) => {}
        }
        self.full(s)?;
        // what was inherited through all of them
        let back = depth.min(40);
        let moves = self.slots[&s].moves[depth - back..].to_vec();
        for _ in 0..back {
            self.undo(s)?;
        }
        if back > 0 {
            self.full(s)?;
        }
        for m in moves {
            self.do_move(s, m)?;
        }
        Ok(true)
    }

    /// n threads, each ending before the next one starts, work with clones of the position.
    pub fn throng(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        if !self.slots.contains_key(&s) {
            return Ok(false);
        }
        crate::hands::place(usize::MAX);
        let (legal, want) = self.expected(s, seed)?;
        let folds = self.folds();
        let slot = self.slots.get_mut(&s).unwrap();
        let side = slot.cur().side;
        let n = n.min(1_000_000 / (slot.moves.len() + 1));
        let start = partial(slot.cur());
        let mvs: Vec<Move> = legal.iter().map(|m| to_move(*m, side)).collect();
        let mut rng = Rng::new(seed);
        struct Carrier<T>(T);
        unsafe impl<T> Send for Carrier<T> {}
        let judges = [2, 3, 6, 8].iter().any(|p| self.props.has(*p));
        let own = !cfg!(target_family = "wasm") && !self.alone;
        let pos = &slot.pos;
        let end = AtomicU32::new(0);
        let mut once = || {
            let task = Task { pos, want: &want, mvs: &mvs, start: start.clone(), how: rng.next(), end: &end, own };
            if !own {
                return task.run();
            }
            let mine = task.alone();
            let name = task.how as usize >> 9;
            let task = Carrier(task);
            std::thread::scope(|sc| {
                let h = crate::hands::named(name).spawn_scoped(sc, move || {
                    let task = task;
                    Carrier(task.0.run())
                });
                match h {
                    Ok(h) => h.join().map_or((2, 0xdead, None), |x| x.0),
                    // no more threads to be had: not the library's business
                    Err(_) => mine.run(),
                }
            })
        };
        let out = guard("calls in a new thread", || {
            let mut kept: Vec<Position> = vec![];
            let mut sum = 0;
            for i in 0..n {
                let (x, seen, c) = once();
                sum = mix(sum ^ seen);
                if x == 1 && judges || x == 2 && !folds {
                    return Err((i, x));
                }
                if let Some(c) = c {
                    if kept.len() < 8 {
                        kept.push(c);
                    } else {
                        kept[i % 8] = c;
                    }
                }
            }
            Ok(sum)
        });
        self.judged += n as u64;
        self.probe(34);
        let last = end.load(SeqCst);
        match out {
            Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            Ok(Err((i, 2))) => return bad("panic", format!("a call in the {i}th new thread panicked at {}", self.at(s))),
            Ok(Err((i, _))) => return bad("thread-differs", format!("the {i}th new thread gets other answers at {}", self.at(s))),
            // in one thread or in many: the same
            Ok(Ok(sum)) if folds => self.fold(sum),
            Ok(Ok(_)) => {}
        }
        if last == 3 {
            let class = if self.doubles() { "thread-differs" } else { "panic" };
            return bad(class, format!("a call while its thread was ending panicked at {}", self.at(s)));
        }
        if last == 2 && [2, 3, 6, 8, 10, 11].iter().any(|p| self.props.has(*p)) {
            return bad("thread-differs", format!("a position answers otherwise while its thread is ending at {}", self.at(s)));
        }
        self.full(s)?;
        Ok(true)
    }

    /// Calls that fail, on clones: in the thread of the position, in others, in threads that end by it.
    pub fn fail(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get(&s) else { return Ok(false) };
        let mut rng = Rng::new(seed);
        let r = slot.cur();
        let pos = &slot.pos;
        for _ in 0..n {
            let mut v = crate::memory::nonsense(&mut rng, r);
            if v.is_empty() {
                break;
            }
            let m = v.swap_remove(rng.below(v.len()));
            let how = rng.below(8);
            let x = rng.next();
            crate::hands::place(if rng.chance(0.5) { s } else { rng.below(64) });
            let once = move || {
                let mut c = pos.clone();
                match how % 4 {
                    0 => {
                        let _ = c.is_check_move(m);
                    }
                    1 => c.undo_move(m),
                    _ => {}
                }
                c.do_move(m);
                let _ = c.legal_moves();
            };
            if how == 7 {
                let _ = guard("any calls", || crate::abuse::abuse(pos.clone(), &mut Rng::new(x), 6));
            } else if how == 6 && !cfg!(target_family = "wasm") {
                crate::hands::place(usize::MAX);
                struct Carrier<T>(T);
                unsafe impl<T> Send for Carrier<T> {}
                let once = Carrier(once);
                let _ = guard("a failing thread", || {
                    std::thread::scope(|sc| {
                        let h = crate::hands::named(x as usize >> 9).spawn_scoped(sc, move || {
                            let once = once;
                            (once.0)()
                        });
                        let _ = h.map(|h| h.join());
                    })
                });
            } else {
                let _ = guard("a failing call", once);
            }
        }
        self.probe(35);
        Ok(true)
    }
}
