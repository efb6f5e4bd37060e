//! Long work on one object: a handful of lines below the current position is made and taken back over and
//! over, as a long search does. What only the amount of work brings out (counters that wrap, lists that are
//! cut, tables that fill up or go stale) shows in a few answers asked at the ends of the lines, and in the
//! lines that are judged in full.

use crate::obs::*;
use crate::prng::{mix, Rng};
use crate::refmodel::*;
use crate::script::*;

struct GrindLine {
    moves: Vec<(Mv, shogi_core::Move)>,
    end: Ref,
    in_check: bool,
    legal: usize,
    key: u64,
}

/// The number of moves made between two lines that fit each other: what counters may wrap at.
const PERIODS: [usize; 6] = [65_536, 65_536, 65_536, 32_768, 256, 65_535];

impl Exec {
    fn lines(&mut self, rng: &mut Rng, base: &Ref, s: usize) -> Result<Vec<GrindLine>, Violation> {
        let mut lines: Vec<Vec<Mv>> = vec![];
        for k in 0..18 {
            let mut r = base.clone();
            let mut line: Vec<Mv> = vec![];
            if k % 2 == 1 && !lines.is_empty() {
                // the same moves below another one
                let model = rng.pick(&lines).clone();
                let at = rng.below(model.len());
                for (i, m) in model.iter().enumerate() {
                    let l = r.legal();
                    let x = if i == at && !l.is_empty() { *rng.pick(&l) } else { *m };
                    if !l.contains(&x) {
                        break;
                    }
                    line.push(x);
                    r.make(x);
                }
            } else {
                for _ in 0..rng.range(1, 8) {
                    let l = r.legal();
                    if l.is_empty() {
                        break;
                    }
                    let busy: Vec<Mv> = l.iter().copied().filter(|m| r.bd[m.to as usize] != 0 || m.promote).collect();
                    let m = if !busy.is_empty() && rng.chance(0.4) { *rng.pick(&busy) } else { *rng.pick(&l) };
                    line.push(m);
                    r.make(m);
                }
            }
            if !line.is_empty() {
                lines.push(line);
            }
        }
        let mut v = vec![];
        for l in lines {
            let mut r = base.clone();
            let mut moves = vec![];
            for m in l {
                moves.push((m, to_move(m, r.side)));
                r.make(m);
            }
            let key = self.fresh(&r, s)?.key();
            v.push(GrindLine { moves, in_check: r.in_check(r.side), legal: r.legal().len(), key, end: r });
        }
        Ok(v)
    }

    /// What a difference means depends on the property; it says nothing about the others.
    fn grind_differs(&self, what: &str, got: String, want: String, at: &Ref, done: usize, s: usize, back: bool) -> Result<(), Violation> {
        let p = self.props;
        let class = match what {
            _ if back && p.has(1) => "undo-differs",
            _ if p.has(2) => "history-dependent",
            "key" if p.has(3) => "key-split",
            "in_check" if p.has(6) => "check-wrong",
            "legal moves" if p.has(5) => "moves-wrong",
            _ => return Ok(()),
        };
        bad(class, format!("{what}: {got}, should be {want} at {} after {done} moves made and taken back at {}", at.to_sfen(), self.at(s)))
    }

    pub fn grind(&mut self, s: usize, seed: u64, n: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get(&s) else { return Ok(false) };
        let base = slot.cur().clone();
        if base.ply > 65_000 {
            return Ok(false);
        }
        let mut rng = Rng::new(seed);
        let lines = self.lines(&mut rng, &base, s)?;
        if lines.is_empty() {
            return Ok(false);
        }
        let before = self.peek(s)?;
        let base_key = self.fresh(&base, s)?.key();
        let base_check = base.in_check(base.side);
        let base_legal = base.legal().len();
        let mut done = 0;
        let mut sum = 0u64;
        let mut next = rng.range(0, n / 4 + 1);
        loop {
            // some lines often, some hardly ever
            let mut i = rng.below(lines.len());
            if rng.chance(0.7) {
                i = i.min(rng.below(lines.len())).min(rng.below(lines.len()));
            }
            let line = &lines[i];
            if done >= next || done >= n {
                next = done + rng.range(n / 8, n / 3 + 1);
                for (m, _) in &line.moves {
                    self.do_move(s, *m)?;
                }
                self.full(s)?;
                for _ in &line.moves {
                    self.undo(s)?;
                }
                if done >= n {
                    break;
                }
            } else {
                let q = rng.below(40);
                let pos = &mut self.slots.get_mut(&s).unwrap().pos;
                let b = &base;
                let r = guard("a long search", || {
                    for (_, m) in &line.moves {
                        pos.do_move(*m);
                    }
                    let mut legal = line.legal;
                    match q {
                        0..=9 => {
                            let l = pos.legal_moves();
                            legal = l.len();
                            if let Some(m) = l.first() {
                                std::hint::black_box(pos.is_check_move(*m));
                            }
                        }
                        10 => drop(std::hint::black_box(pos.clone())),
                        11 => drop(std::hint::black_box(yasai::Position::new(partial(b)))),
                        _ => {}
                    }
                    let end = (pos.key(), pos.in_check(), legal);
                    for (_, m) in line.moves.iter().rev() {
                        pos.undo_move(*m);
                    }
                    (end, (pos.key(), pos.in_check(), if q == 12 { pos.legal_moves().len() } else { base_legal }))
                });
                let (end, back) = match r {
                    Ok(x) => x,
                    Err(e) => return bad("panic", format!("{e} at {} after {done} moves made and taken back there", self.at(s))),
                };
                sum = mix(sum ^ end.0 ^ back.0 ^ end.1 as u64 ^ (back.1 as u64) << 1);
                if end != (line.key, line.in_check, line.legal) {
                    let at = line.end.clone();
                    if end.0 != line.key {
                        self.grind_differs("key", format!("{:x}", end.0), format!("{:x}", line.key), &at, done, s, false)?;
                    }
                    if end.1 != line.in_check {
                        self.grind_differs("in_check", end.1.to_string(), line.in_check.to_string(), &at, done, s, false)?;
                    }
                    if end.2 != line.legal {
                        self.grind_differs("legal moves", end.2.to_string(), line.legal.to_string(), &at, done, s, false)?;
                    }
                }
                if back != (base_key, base_check, base_legal) {
                    if back.0 != base_key {
                        self.grind_differs("key", format!("{:x}", back.0), format!("{base_key:x}"), &base, done, s, true)?;
                    }
                    if back.1 != base_check {
                        self.grind_differs("in_check", back.1.to_string(), base_check.to_string(), &base, done, s, true)?;
                    }
                    if back.2 != base_legal {
                        self.grind_differs("legal moves", back.2.to_string(), base_legal.to_string(), &base, done, s, true)?;
                    }
                }
            }
            done += line.moves.len();
        }
        if self.folds() {
            self.fold(sum);
        }
        let slot = self.slots.get_mut(&s).unwrap();
        slot.touched = true;
        slot.last = None;
        self.probe(26);
        if n > 65_536 {
            self.probe(27);
            self.periods(s, &mut rng, &lines, done)?;
        }
        if let Some(before) = before {
            let now = self.peek(s)?.unwrap();
            self.judged += 1;
            if let Some(x) = now.diff(&before) {
                return bad("undo-differs", format!("after {done} moves made and taken back: now vs before: {x} at {}", self.at(s)));
            }
        }
        self.full(s)?;
        Ok(true)
    }

    /// A line; then exactly as many moves as a counter may wrap at; then a line that shares moves with it.
    fn periods(&mut self, s: usize, rng: &mut Rng, lines: &[GrindLine], mut done: usize) -> Result<(), Violation> {
        for p in PERIODS {
            let a = rng.below(lines.len());
            let kin: Vec<usize> = (0..lines.len())
                .filter(|b| {
                    let (x, y) = (&lines[a].moves, &lines[*b].moves);
                    x[0] != y[0] && x.iter().zip(y).any(|(x, y)| x == y)
                })
                .collect();
            let b = if kin.is_empty() || rng.chance(0.2) { rng.below(lines.len()) } else { *rng.pick(&kin) };
            let fill: Vec<usize> = (0..lines.len()).filter(|x| lines[*x].moves[0] != lines[a].moves[0]).collect();
            let f = if fill.is_empty() { a } else { *rng.pick(&fill) };
            for (m, _) in &lines[a].moves {
                self.do_move(s, *m)?;
            }
            self.full(s)?;
            for _ in &lines[a].moves {
                self.undo(s)?;
            }
            let m = lines[f].moves[0].1;
            let left = p - lines[a].moves.len();
            let pos = &mut self.slots.get_mut(&s).unwrap().pos;
            let r = guard("a long search", || {
                for _ in 0..left {
                    pos.do_move(m);
                    pos.undo_move(m);
                }
            });
            done += p;
            if let Err(e) = r {
                return bad("panic", format!("{e} at {} after {done} moves made and taken back there", self.at(s)));
            }
            self.full(s)?;
            for (m, _) in &lines[b].moves {
                self.do_move(s, *m)?;
                self.full(s)?;
            }
            for _ in &lines[b].moves {
                self.undo(s)?;
                self.full(s)?;
            }
        }
        Ok(())
    }

    fn peek(&mut self, s: usize) -> Result<Option<Obs>, Violation> {
        Ok(if self.props.has(1) { Some(self.look(s)?) } else { None })
    }
}
