//! Executing primitive operations on live positions and judging every answer.
//!
//! A simulated run is recorded as a list of these operations (plus notes naming the events and
//! faults that caused them). Executing the list again is a pure function of the list and the code
//! under test, so a list is a replay file; operations that no longer apply after others were
//! removed (an illegal move, an unknown slot) are skipped, which makes lists easy to minimise.
use crate::obs::*;
use crate::prng::mix;
use crate::refmodel::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use yasai::Position;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// construct a position
    New(usize, Ref),
    /// make a legal move
    Do(usize, Mv),
    /// take back the last move
    Undo(usize),
    /// clone slot src into dst
    Clone(usize, usize),
    /// drop a position
    Drop(usize),
    /// ask everything and judge the answers
    Obs(usize),
    /// (memory) a long bounded-depth walk on a slot: seed, steps, depth
    Churn(usize, u64, usize, usize),
    /// lines below the position made and taken back many times: seed, number of moves
    Grind(usize, u64, usize),
    /// a line of this many moves and back: seed, moves
    Deep(usize, u64, usize),
    /// many clones alive at once: seed, how many
    Herd(usize, u64, usize),
    /// the position is replaced by a clone of itself again and again: seed, how often
    Relay(usize, u64, usize),
    /// calls that fail, on clones, here and in other threads: seed, how many
    Fail(usize, u64, usize),
    /// threads that come, work with clones, and go: seed, how many
    Throng(usize, u64, usize),
    /// (memory) a nonsensical move on a clone of the slot, which is then dropped
    Poke(usize, u64),
    /// (C19) any calls with any arguments on a clone: seed, how many
    Abuse(usize, u64, usize),
    /// from here on calls are made by this many new threads, slots dealt to them from an offset on
    Spread(usize, usize),
    /// event or fault marker (no effect)
    Note(String),
}

impl Op {
    pub fn to_line(&self) -> String {
        match self {
            Op::New(s, r) => format!("new {s} {}", r.to_sfen()),
            Op::Do(s, m) => format!("do {s} {}", m.usi()),
            Op::Undo(s) => format!("undo {s}"),
            Op::Clone(d, s) => format!("clone {d} {s}"),
            Op::Drop(s) => format!("drop {s}"),
            Op::Obs(s) => format!("obs {s}"),
            Op::Churn(s, seed, n, d) => format!("churn {s} {seed} {n} {d}"),
            Op::Grind(s, seed, n) => format!("grind {s} {seed} {n}"),
            Op::Deep(s, seed, n) => format!("deep {s} {seed} {n}"),
            Op::Herd(s, seed, n) => format!("herd {s} {seed} {n}"),
            Op::Fail(s, seed, n) => format!("fail {s} {seed} {n}"),
            Op::Relay(s, seed, n) => format!("relay {s} {seed} {n}"),
            Op::Throng(s, seed, n) => format!("throng {s} {seed} {n}"),
            Op::Poke(s, seed) => format!("poke {s} {seed}"),
            Op::Abuse(s, seed, n) => format!("abuse {s} {seed} {n}"),
            Op::Spread(n, r) => format!("spread {n} {r}"),
            Op::Note(t) => format!("note {t}"),
        }
    }
    /// Nobody may notice these: they are left out when a run is repeated by one thread.
    pub fn unseen(&self) -> bool {
        matches!(self, Op::Spread(..) | Op::Fail(..) | Op::Note(_))
    }
    pub fn parse(l: &str) -> Option<Op> {
        let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
        let num = |s: &str| s.parse::<usize>().ok();
        Some(match w {
            "new" => {
                let (s, sfen) = rest.split_once(' ')?;
                Op::New(num(s)?, Ref::from_sfen(sfen)?)
            }
            "do" => {
                let (s, m) = rest.split_once(' ')?;
                Op::Do(num(s)?, Mv::parse(m)?)
            }
            "undo" => Op::Undo(num(rest)?),
            "clone" => {
                let (d, s) = rest.split_once(' ')?;
                Op::Clone(num(d)?, num(s)?)
            }
            "drop" => Op::Drop(num(rest)?),
            "obs" => Op::Obs(num(rest)?),
            "churn" => {
                let v: Vec<&str> = rest.split(' ').collect();
                Op::Churn(num(v.first()?)?, v.get(1)?.parse().ok()?, num(v.get(2)?)?, num(v.get(3)?)?)
            }
            "grind" | "deep" | "herd" | "abuse" | "relay" | "throng" | "fail" => {
                let v: Vec<&str> = rest.split(' ').collect();
                let (s, seed, n) = (num(v.first()?)?, v.get(1)?.parse().ok()?, num(v.get(2)?)?);
                match w {
                    "grind" => Op::Grind(s, seed, n),
                    "deep" => Op::Deep(s, seed, n),
                    "abuse" => Op::Abuse(s, seed, n),
                    "relay" => Op::Relay(s, seed, n),
                    "fail" => Op::Fail(s, seed, n),
                    "throng" => Op::Throng(s, seed, n),
                    _ => Op::Herd(s, seed, n),
                }
            }
            "poke" => {
                let (s, x) = rest.split_once(' ')?;
                Op::Poke(num(s)?, x.parse().ok()?)
            }
            "spread" => {
                let (n, r) = rest.split_once(' ')?;
                Op::Spread(num(n)?.min(64), num(r)?)
            }
            "note" => Op::Note(rest.to_string()),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    /// another run (by number) without which this one shows nothing
    pub other: Option<u64>,
}

pub fn bad<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail, other: None })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Props(pub u32);

impl Props {
    pub fn parse(s: &str) -> Option<Props> {
        let mut b = 0;
        for p in s.split(',') {
            b |= 1 << p.strip_prefix('C')?.parse::<u32>().ok()?;
        }
        Some(Props(b))
    }
    pub fn has(self, n: u32) -> bool {
        self.0 >> n & 1 == 1
    }
}

pub struct Node {
    pub legal: Vec<Mv>,
    pub in_check: bool,
    pub info: (u32, u32),
}

pub struct Slot {
    pub pos: Position,
    pub refs: Vec<Ref>,
    pub moves: Vec<Mv>,
    saved: Vec<Option<Obs>>,
    nodes: Vec<Option<Rc<Node>>>,
    family: u64,
    pub(crate) last: Option<Obs>,
    /// moves inherited from the position this one was cloned from
    pub inherited: usize,
    pub(crate) touched: bool,
}

impl Slot {
    pub fn cur(&self) -> &Ref {
        self.refs.last().unwrap()
    }
    pub fn node(&mut self) -> Rc<Node> {
        let d = self.moves.len();
        if self.nodes[d].is_none() {
            let r = &self.refs[d];
            let i = r.legal_info();
            self.nodes[d] = Some(Rc::new(Node {
                in_check: r.in_check(r.side),
                info: (i.drop_mates, i.self_checks),
                legal: i.moves,
            }));
        }
        self.nodes[d].clone().unwrap()
    }
}

pub const PROBES: [&str; 36] = [
    "in_check", "double_check", "discovered_check_move", "drop_check_move", "pawn_drop_mate_refused",
    "pawn_drop_check_allowed", "self_check_refused", "checkmated", "stalemated", "promotion_move",
    "forced_promotion", "capture_of_promoted", "hand_pawns_ge_9", "hand_kind_full", "moves_ge_300",
    "moves_ge_500", "no_own_king", "no_enemy_king", "depth_ge_50", "depth_ge_1000", "transposition",
    "white_to_move_at_construction", "clone_mid_search", "two_pawn_file_refused",
    "clone_into_used_object", "default_constructed",
    "long_work_on_one_object", "over_65536_moves_on_one_object",
    "spread_over_threads", "very_deep_line", "deepest_line_possible", "herd_of_clones", "over_65536_clones_alive",
    "clones_of_clones", "threads_come_and_go", "bursts_of_failing_calls",
];

pub struct Exec {
    pub props: Props,
    pub slots: HashMap<usize, Slot>,
    families: u64,
    board_keys: HashMap<u128, u64>,
    hand_keys: HashMap<u128, u64>,
    full_keys: HashMap<(u128, u128), u64>,
    board_rev: HashMap<u64, u128>,
    hand_rev: HashMap<u64, u128>,
    full_rev: HashMap<u64, (u128, u128)>,
    pub probes: [u64; 36],
    pub digest: u64,
    pub applied: u64,
    pub full_obs: u64,
    pub judged: u64,
    pub distinct: HashSet<u64>,
    pub log: Option<Vec<String>>,
    /// number of the current run, and keys seen by earlier runs of this process (C04)
    pub run_no: u64,
    pub glob: Option<[HashMap<u64, (u64, u32)>; 3]>,
    /// operations are written here before they are executed
    pub trace: Option<crate::host::File>,
    pub mem: crate::memory::Account,
    pub bank: crate::price::Bank,
    /// C08: how many operations on a relative passed before siblings were last re-examined
    tick: u64,
    /// C10: what there was to see so far, and whether everything is done in one thread
    pub trail: Vec<u64>,
    pub alone: bool,
}

impl Exec {
    pub fn new(props: Props) -> Exec {
        Exec {
            props,
            slots: HashMap::new(),
            families: 0,
            board_keys: HashMap::new(),
            hand_keys: HashMap::new(),
            full_keys: HashMap::new(),
            board_rev: HashMap::new(),
            hand_rev: HashMap::new(),
            full_rev: HashMap::new(),
            probes: [0; 36],
            digest: 0,
            applied: 0,
            full_obs: 0,
            judged: 0,
            distinct: HashSet::new(),
            log: None,
            run_no: 0,
            glob: None,
            trace: None,
            mem: Default::default(),
            bank: Default::default(),
            tick: 0,
            trail: vec![],
            alone: false,
        }
    }
    /// Forget everything belonging to one run; keep the statistics.
    pub fn reset_run(&mut self) {
        crate::hands::spread(0, 0);
        for (_, s) in self.slots.drain() {
            let pos = s.pos;
            let _ = guard("drop", move || drop(pos));
        }
        let first = self.mem.first;
        self.mem = Default::default();
        self.mem.base = crate::memory::held();
        self.mem.first = Some(first.unwrap_or(self.mem.base));
        self.board_keys.clear();
        self.hand_keys.clear();
        self.full_keys.clear();
        self.board_rev.clear();
        self.hand_rev.clear();
        self.full_rev.clear();
        self.digest = 0;
        self.tick = 0;
        self.trail.clear();
        self.families = 0;
    }
    pub(crate) fn probe(&mut self, i: usize) {
        self.probes[i] += 1;
    }
    pub(crate) fn fold(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x).rotate_left(9);
    }

    /// Ok(false): the operation does not apply and was skipped.
    pub fn exec(&mut self, op: &Op) -> Result<bool, Violation> {
        let r = self.exec_judged(op);
        // who does it may not show
        if self.doubles() && !op.unseen() && !matches!(r, Ok(false)) {
            self.trail.push(self.digest ^ r.is_err() as u64);
        }
        r
    }
    /// Is what is seen gathered to be compared?
    pub(crate) fn folds(&self) -> bool {
        self.props.has(13) || self.doubles()
    }
    /// Is everything done twice?
    pub fn doubles(&self) -> bool {
        self.props.has(10) || self.props.has(11)
    }

    fn exec_judged(&mut self, op: &Op) -> Result<bool, Violation> {
        let r = match self.exec_inner(op) {
            Err(v) if v.class == "panic" && !self.judges_panics() => {
                // not this property's business: the run ends here
                self.fold(0xdead ^ v.detail.len() as u64);
                if let Some(l) = &mut self.log {
                    l.push(format!("{}: {}", op.to_line(), v.detail));
                }
                return bad("skip", v.detail);
            }
            r => r?,
        };
        if self.props.has(14) {
            self.memory(op)?;
        }
        if let Op::Churn(s, ..) | Op::Grind(s, ..) | Op::Deep(s, ..) | Op::Relay(s, ..) | Op::Poke(s, _) = op {
            if self.props.has(17) && self.slots.contains_key(s) {
                self.price(*s)?;
            }
        }
        if r {
            self.applied += 1;
            if let Some(s) = op_slot(op) {
                if self.props.has(8) {
                    self.siblings(s)?;
                }
            }
        }
        Ok(r)
    }

    /// Properties that say every call answers.
    fn judges_panics(&self) -> bool {
        [1, 2, 5, 6, 7, 8].iter().any(|p| self.props.has(*p))
    }

    fn exec_inner(&mut self, op: &Op) -> Result<bool, Violation> {
        match op {
            Op::Do(s, _) | Op::Undo(s) | Op::Obs(s) | Op::New(s, _) | Op::Clone(_, s) | Op::Drop(s) => crate::hands::place(*s),
            _ => crate::hands::place(usize::MAX),
        };
        match op {
            Op::Note(_) => Ok(false),
            // helpers may keep something of their own for each thread: not part of the account
            Op::Spread(..) if self.props.has(14) || self.props.has(17) => Ok(false),
            Op::Spread(..) if self.alone => Ok(false),
            Op::Spread(n, r) => {
                crate::hands::spread(*n, *r);
                self.probes[28] += 1;
                Ok(true)
            }
            Op::Churn(s, seed, n, d) => self.churn(*s, *seed, *n, *d),
            Op::Grind(s, seed, n) => self.grind(*s, *seed, *n),
            Op::Deep(s, seed, n) => self.deep(*s, *seed, *n),
            Op::Herd(s, seed, n) => self.herd(*s, *seed, *n),
            Op::Relay(s, seed, n) => self.relay(*s, *seed, *n),
            Op::Fail(..) if self.alone => Ok(false),
            Op::Fail(s, seed, n) => self.fail(*s, *seed, *n),
            Op::Throng(s, seed, n) => self.throng(*s, *seed, *n),
            Op::Poke(s, seed) => self.poke(*s, *seed),
            Op::Abuse(s, seed, n) => {
                let Some(slot) = self.slots.get(s) else { return Ok(false) };
                let pos = &slot.pos;
                if let Ok(c) = guard("clone", || pos.clone()) {
                    let sum = crate::abuse::abuse(c, &mut crate::prng::Rng::new(*seed), *n);
                    self.judged += 1;
                    self.fold(sum);
                }
                Ok(true)
            }
            Op::New(s, r) => {
                if !r.valid() {
                    return Ok(false);
                }
                let pp = partial(r);
                // two ways to get the start position
                let dflt = *s % 2 == 1 && *r == Ref::startpos();
                if dflt {
                    self.probes[25] += 1;
                }
                let make = || if dflt { Position::default() } else { Position::new(pp) };
                let pos = match guard("Position::new", make) {
                    Ok(p) => p,
                    Err(e) => return bad("panic", format!("{e} for {}", r.to_sfen())),
                };
                self.families += 1;
                if r.side == WHITE {
                    self.probe(21);
                }
                let slot = Slot {
                    pos,
                    refs: vec![r.clone()],
                    moves: vec![],
                    saved: vec![None],
                    nodes: vec![None],
                    family: self.families,
                    last: None,
                    inherited: 0,
                    touched: false,
                };
                self.put(*s, slot);
                self.light(*s, "new")?;
                Ok(true)
            }
            Op::Do(s, m) => self.do_move(*s, *m),
            Op::Undo(s) => self.undo(*s),
            Op::Clone(d, s) => self.exec_clone(*d, *s),
            Op::Drop(s) => self.drop_slot(*s),
            Op::Obs(s) => {
                if !self.slots.contains_key(s) {
                    return Ok(false);
                }
                self.full(*s)?;
                Ok(true)
            }
        }
    }

    pub(crate) fn exec_clone(&mut self, d: usize, s: usize) -> Result<bool, Violation> {
        let (d, s) = (&d, &s);
            if d == s || !self.slots.contains_key(s) {
                return Ok(false);
            }
            let old = self.slots.remove(d);
            let old_family = old.as_ref().map(|o| o.family);
            let src = self.slots.get_mut(s).unwrap();
            let pos = match old {
                // into an object that is in use, with a history of its own
                Some(old) => {
                    self.probes[24] += 1;
                    let mut p = old.pos;
                    if let Err(e) = guard("clone_from", || p.clone_from(&src.pos)) {
                        return bad("panic", e);
                    }
                    p
                }
                None => match guard("clone", || src.pos.clone()) {
                    Ok(p) => p,
                    Err(e) => return bad("panic", e),
                },
            };
            let slot = Slot {
                pos,
                refs: src.refs.clone(),
                moves: src.moves.clone(),
                saved: src.saved.clone(),
                nodes: src.nodes.clone(),
                family: src.family,
                last: None,
                inherited: src.moves.len(),
                touched: src.touched,
            };
            if slot.moves.len() > 1 {
                self.probes[22] += 1;
            }
            self.put(*d, slot);
            if self.props.has(8) {
                let a = self.look(*s)?;
                let b = self.look(*d)?;
                self.judged += 1;
                if let Some(x) = b.diff(&a) {
                    return bad("clone-differs", format!("clone vs original: {x} at {}", self.at(*s)));
                }
                self.slots.get_mut(s).unwrap().last = Some(a);
                self.slots.get_mut(d).unwrap().last = Some(b);
                if let Some(f) = old_family {
                    self.siblings_of(f, usize::MAX, true)?;
                }
            }
            self.light(*d, "clone")?;
            Ok(true)
    }

    pub(crate) fn drop_slot(&mut self, s: usize) -> Result<bool, Violation> {
            let Some(slot) = self.slots.remove(&s) else { return Ok(false) };
            let fam = slot.family;
            let pos = slot.pos;
            if let Err(e) = guard("drop", move || drop(pos)) {
                return bad("panic", e);
            }
            if self.props.has(8) {
                self.siblings_of(fam, usize::MAX, true)?;
            }
            Ok(true)
    }

    fn put(&mut self, s: usize, slot: Slot) {
        if let Some(old) = self.slots.insert(s, slot) {
            let pos = old.pos;
            let _ = guard("drop", move || drop(pos));
        }
    }

    pub(crate) fn at(&self, s: usize) -> String {
        let sl = &self.slots[&s];
        format!("{} (slot {s}, {} moves after {})", sl.cur().to_sfen(), sl.moves.len(), sl.refs[0].to_sfen())
    }

    pub(crate) fn look(&mut self, s: usize) -> Result<Obs, Violation> {
        crate::hands::place(s);
        let sl = &self.slots[&s];
        if self.props.has(14) {
            let p = &sl.pos;
            let _ = guard("query", || {
                let l = p.legal_moves();
                let n = l.iter().filter(|m| p.is_check_move(**m)).count();
                std::hint::black_box((n, p.key(), p.keys(), p.in_check()));
            });
        }
        match guard_out("query", || observe(&sl.pos)) {
            Ok(o) => Ok(o),
            Err(e) => bad("panic", format!("{e} at {}", self.at(s))),
        }
    }

    pub(crate) fn do_move(&mut self, s: usize, m: Mv) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get_mut(&s) else { return Ok(false) };
        let node = slot.node();
        if node.legal.binary_search(&m).is_err() || slot.cur().ply == u16::MAX {
            return Ok(false);
        }
        let side = slot.cur().side;
        let mv = to_move(m, side);
        let next = slot.cur().after(m);
        let pred = if self.props.has(6) {
            match guard("is_check_move", || slot.pos.is_check_move(mv)) {
                Ok(b) => Some(b),
                Err(e) => return bad("panic", format!("{e} for {} at {}", m.usi(), self.at(s))),
            }
        } else {
            None
        };
        if let Err(e) = guard("do_move", || slot.pos.do_move(mv)) {
            return bad("panic", format!("{e} for {} at {}", m.usi(), self.at(s)));
        }
        // probes
        let prev = slot.cur().clone();
        slot.refs.push(next);
        slot.moves.push(m);
        slot.saved.push(None);
        slot.nodes.push(None);
        slot.touched = true;
        slot.last = None;
        let depth = slot.moves.len();
        if m.promote {
            self.probes[9] += 1;
            if !m.is_drop() && immovable(prev.bd[m.from as usize].abs(), m.to as usize, side) {
                self.probes[10] += 1;
            }
        }
        if prev.bd[m.to as usize].abs() > K {
            self.probes[11] += 1;
        }
        if depth >= 50 {
            self.probes[18] += 1;
        }
        if depth >= 1000 {
            self.probes[19] += 1;
        }
        if let Some(pred) = pred {
            let slot = &self.slots[&s];
            let r = slot.cur();
            let truth = r.in_check(r.side);
            let got = match guard("in_check", || slot.pos.in_check()) {
                Ok(b) => b,
                Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            };
            self.judged += 1;
            if pred != got {
                return bad(
                    "check-mispredicted",
                    format!("is_check_move({}) said {pred}, in_check() afterwards {got} at {}", m.usi(), self.at(s)),
                );
            }
            if got != truth {
                return bad(
                    "check-wrong",
                    format!("in_check() is {got}, the king is {}attacked at {}", if truth { "" } else { "not " }, self.at(s)),
                );
            }
        }
        self.light(s, "do_move")?;
        Ok(true)
    }

    pub(crate) fn undo(&mut self, s: usize) -> Result<bool, Violation> {
        let Some(slot) = self.slots.get_mut(&s) else { return Ok(false) };
        let Some(&m) = slot.moves.last() else { return Ok(false) };
        let mv = to_move(m, slot.refs[slot.refs.len() - 2].side);
        if let Err(e) = guard("undo_move", || slot.pos.undo_move(mv)) {
            return bad("panic", format!("{e} for {} at {}", m.usi(), self.at(s)));
        }
        slot.refs.pop();
        slot.moves.pop();
        slot.saved.pop();
        slot.nodes.pop();
        slot.touched = true;
        slot.last = None;
        let d = slot.moves.len();
        let from_clone = d < slot.inherited;
        if from_clone {
            slot.inherited = d;
        }
        if self.props.has(1) || (self.props.has(8) && from_clone) {
            if let Some(before) = self.slots[&s].saved[d].clone() {
                let now = self.look(s)?;
                self.full_obs += 1;
                self.judged += 1;
                if let Some(x) = now.diff(&before) {
                    return bad(
                        "undo-differs",
                        format!("after taking back {}: now vs before: {x} at {}", m.usi(), self.at(s)),
                    );
                }
                let (a, b) = self.slots[&s].cur().fingerprint();
                self.distinct.insert((a ^ b) as u64);
            }
        }
        if self.props.has(6) {
            let slot = &self.slots[&s];
            let r = slot.cur();
            let truth = r.in_check(r.side);
            let got = match guard("in_check", || slot.pos.in_check()) {
                Ok(b) => b,
                Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            };
            self.judged += 1;
            if got != truth {
                return bad("check-wrong", format!("in_check() is {got} after a take-back at {}", self.at(s)));
            }
        }
        self.light(s, "undo_move")?;
        Ok(true)
    }

    /// Cheap checks after every operation.
    fn light(&mut self, s: usize, what: &str) -> Result<(), Violation> {
        if self.doubles() {
            let p = &self.slots[&s].pos;
            match guard("query", || (p.keys(), p.in_check(), p.ply())) {
                Ok(x) => self.fold(x.0 .0 ^ x.0 .1.rotate_left(20) ^ x.1 as u64 ^ (x.2 as u64) << 1),
                Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            }
        }
        let slot = &self.slots[&s];
        let r = slot.cur();
        if self.props.has(7) {
            self.judged += 1;
            let got = guard("query", || {
                let p = &slot.pos;
                let mut bd = [None; 81];
                for (i, b) in bd.iter_mut().enumerate() {
                    *b = p.piece_at(sq(i as u8));
                }
                (bd, [p.hand(color(0)), p.hand(color(1))], p.side_to_move(), p.ply())
            });
            let (bd, hands, side, ply) = match got {
                Ok(x) => x,
                Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            };
            for i in 0..81 {
                if bd[i] != piece(r.bd[i]) {
                    return bad(
                        "board-wrong",
                        format!("after {what}: square {i} holds {:?}, should be {:?} at {}", bd[i], piece(r.bd[i]), self.at(s)),
                    );
                }
            }
            for c in 0..2 {
                for k in 1..8u8 {
                    let n = hands[c].count(shogi_core::PieceKind::from_u8(k).unwrap()).unwrap_or(0);
                    if n != r.hands[c][k as usize] {
                        return bad(
                            "hand-wrong",
                            format!("after {what}: side {c} holds {n} of kind {k}, should be {} at {}", r.hands[c][k as usize], self.at(s)),
                        );
                    }
                }
            }
            if side != color(r.side) {
                return bad("side-wrong", format!("after {what} at {}", self.at(s)));
            }
            if ply != r.ply {
                return bad("ply-wrong", format!("after {what}: ply {ply}, should be {} at {}", r.ply, self.at(s)));
            }
            debug_assert!(slot.refs[0].census() == r.census());
        }
        if self.props.has(3) || self.props.has(4) {
            let got = guard("key", || (slot.pos.keys(), slot.pos.key()));
            let (keys, key) = match got {
                Ok(x) => x,
                Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
            };
            let fp = r.fingerprint();
            self.key_maps(fp, keys, key, s)?;
        }
        if self.folds() {
            let slot = &self.slots[&s];
            let d = guard("query", || {
                let p = &slot.pos;
                p.key() ^ p.keys().0.rotate_left(20) ^ (p.in_check() as u64) << 3 ^ p.ply() as u64
            });
            let x = match d {
                Ok(x) => x,
                Err(e) => {
                    if let Some(l) = &mut self.log {
                        l.push(format!("{what} {s}: {e}"));
                    }
                    0xdead_beef ^ e.len() as u64
                }
            };
            self.judged += 1;
            self.fold(x);
            if let Some(l) = &mut self.log {
                l.push(format!("{what} {s} {x:016x}"));
            }
        }
        Ok(())
    }

    fn key_maps(&mut self, fp: (u128, u128), keys: (u64, u64), key: u64, s: usize) -> Result<(), Violation> {
        self.judged += 1;
        if self.props.has(3) {
            let mut seen = false;
            if let Some(&k) = self.board_keys.get(&fp.0) {
                seen = true;
                if k != keys.0 {
                    return bad("key-split", format!("same board and side, first key {k:x} before and {:x} now at {}", keys.0, self.at(s)));
                }
            } else {
                self.board_keys.insert(fp.0, keys.0);
            }
            if let Some(&k) = self.hand_keys.get(&fp.1) {
                if k != keys.1 {
                    return bad("key-split", format!("same hands, second key {k:x} before and {:x} now at {}", keys.1, self.at(s)));
                }
            } else {
                self.hand_keys.insert(fp.1, keys.1);
            }
            if let Some(&k) = self.full_keys.get(&fp) {
                if k != key {
                    return bad("key-split", format!("same position, key {k:x} before and {key:x} now at {}", self.at(s)));
                }
            } else {
                self.full_keys.insert(fp, key);
            }
            if seen {
                self.probes[20] += 1;
            }
        }
        if self.props.has(4) {
            let old = *self.board_rev.entry(keys.0).or_insert(fp.0);
            if old != fp.0 {
                return bad("key-collision", format!("first key {:x} already belongs to another board or side at {}", keys.0, self.at(s)));
            }
            let old = *self.hand_rev.entry(keys.1).or_insert(fp.1);
            if old != fp.1 {
                return bad("key-collision", format!("second key {:x} already belongs to other hands at {}", keys.1, self.at(s)));
            }
            let old = *self.full_rev.entry(key).or_insert(fp);
            if old != fp {
                return bad("key-collision", format!("key {key:x} already belongs to another position at {}", self.at(s)));
            }
            if let Some(g) = &mut self.glob {
                let f = [fp.0 as u64, fp.1 as u64, (fp.0 ^ fp.1.rotate_left(1)) as u64];
                let k = [keys.0, keys.1, key];
                for i in 0..3 {
                    if g[i].len() > 2_000_000 {
                        continue;
                    }
                    let (of, run) = *g[i].entry(k[i]).or_insert((f[i], self.run_no as u32));
                    if of != f[i] {
                        return Err(Violation {
                            class: "key-collision".into(),
                            detail: format!("key {:x} (kind {i}) already belonged to another position in run {run}", k[i]),
                            other: Some(run as u64),
                        });
                    }
                }
            }
        }
        Ok(())
    }

    /// A new position, dropped by the harness: not part of the memory account.
    pub(crate) fn fresh(&mut self, r: &Ref, s: usize) -> Result<Position, Violation> {
        let pp = partial(r);
        let was = crate::hands::place(s + 1);
        let p = guard_out("Position::new", || Position::new(pp));
        crate::hands::place(was);
        match p {
            Ok(p) => Ok(p),
            Err(e) => bad("panic", format!("{e} for {} near {}", r.to_sfen(), self.at(s))),
        }
    }

    /// Ask everything; judge according to the properties.
    pub(crate) fn full(&mut self, s: usize) -> Result<(), Violation> {
        if self.props.has(17) {
            self.full_obs += 1;
            self.tick += 1;
            return if self.tick % 4 == 0 { self.price(s) } else { Ok(()) };
        }
        let o = self.look(s)?;
        self.full_obs += 1;
        let slot = self.slots.get_mut(&s).unwrap();
        let d = slot.moves.len();
        let r = slot.refs[d].clone();
        if slot.touched {
            let (a, b) = r.fingerprint();
            self.distinct.insert((a ^ b) as u64);
        }
        if self.props.has(1) || self.props.has(8) {
            slot.saved[d] = Some(o.clone());
        }
        if self.props.has(8) {
            slot.last = Some(o.clone());
        }
        self.judged += 1;
        self.situation(s);
        if self.props.has(2) {
            let p = self.fresh(&r, s)?;
            let f = match guard_out("query", || observe(&p)) {
                Ok(f) => f,
                Err(e) => return bad("panic", format!("{e} on a fresh position at {}", self.at(s))),
            };
            if let Some(x) = o.diff(&f) {
                return bad("history-dependent", format!("live vs fresh: {x} at {}", self.at(s)));
            }
        }
        if self.props.has(3) {
            // an equal position made in another way, and the two halves on their own
            let p = self.fresh(&r, s)?;
            let (k, kk) = (p.key(), p.keys());
            if kk != o.keys || k != o.key {
                return bad("key-split", format!("live keys {:x?} {:x}, constructed keys {kk:x?} {k:x} at {}", o.keys, o.key, self.at(s)));
            }
            let mut h = r.clone();
            h.hands = [[0; 8]; 2];
            let p = self.fresh(&h, s)?;
            if p.keys().0 != o.keys.0 {
                return bad("key-split", format!("first key depends on the hands at {}", self.at(s)));
            }
            let mut b = Ref::empty();
            b.hands = r.hands;
            let p = self.fresh(&b, s)?;
            if p.keys().1 != o.keys.1 {
                return bad("key-split", format!("second key depends on the board at {}", self.at(s)));
            }
        }
        if self.props.has(4) {
            self.neighbours(s, &r, &o)?;
        }
        if self.props.has(5) {
            let node = self.slots.get_mut(&s).unwrap().node();
            if let Some(x) = moves_diff(&o.legal, &node.legal) {
                return bad("moves-wrong", format!("{x} at {}", self.at(s)));
            }
        }
        if self.props.has(6) {
            let node = self.slots.get_mut(&s).unwrap().node();
            if o.in_check != node.in_check {
                return bad("check-wrong", format!("in_check() is {} at {}", o.in_check, self.at(s)));
            }
            for (m, c) in o.legal.iter().zip(&o.checks) {
                if node.legal.binary_search(m).is_err() {
                    continue; // not a legal move: the business of C05
                }
                let a = r.after(*m);
                let truth = a.in_check(a.side);
                if truth != *c {
                    return bad("check-mispredicted", format!("is_check_move({}) is {c} at {}", m.usi(), self.at(s)));
                }
            }
            // legal moves the list may have missed
            for m in &node.legal {
                if o.legal.binary_search(m).is_err() {
                    let a = r.after(*m);
                    let truth = a.in_check(a.side);
                    let slot = &self.slots[&s];
                    match guard("is_check_move", || slot.pos.is_check_move(to_move(*m, r.side))) {
                        Ok(c) if c == truth => {}
                        Ok(c) => return bad("check-mispredicted", format!("is_check_move({}) is {c} at {}", m.usi(), self.at(s))),
                        Err(e) => return bad("panic", format!("{e} at {}", self.at(s))),
                    }
                }
            }
        }
        if self.folds() {
            let x = o.digest_in_order();
            self.fold(x);
            if let Some(l) = &mut self.log {
                l.push(format!("obs {s} {x:016x} {}", self.slots[&s].cur().to_sfen()));
            }
        }
        Ok(())
    }

    fn situation(&mut self, s: usize) {
        let slot = self.slots.get_mut(&s).unwrap();
        if !(self.props.has(5) || self.props.has(6) || self.props.has(2) || self.props.has(1)) {
            return;
        }
        let node = slot.node();
        let r = slot.cur().clone();
        let d = slot.moves.len();
        let last = slot.moves.last().copied();
        let enemy_king = r.king(1 - r.side);
        if node.in_check {
            self.probe(0);
            let k = r.king(r.side).unwrap();
            let at = r.attackers(k, 1 - r.side);
            if at.len() > 1 {
                self.probe(1);
            }
            if d > 0 {
                let to = last.unwrap().to as usize;
                if !at.contains(&to) || at.len() > 1 {
                    self.probe(2);
                }
                if last.unwrap().is_drop() {
                    self.probe(3);
                }
            }
            if node.legal.is_empty() {
                self.probe(7);
            }
        } else if node.legal.is_empty() {
            self.probe(8);
        }
        if node.info.0 > 0 {
            self.probe(4);
        }
        if node.info.1 > 0 {
            self.probe(6);
        }
        if let Some(k) = enemy_king {
            let front = if r.side == BLACK { k as i32 + 1 } else { k as i32 - 1 };
            if front >= 0 && front < 81 && front / 9 == k as i32 / 9 {
                let m = Mv { from: 101, to: front as u8, promote: false };
                if node.legal.binary_search(&m).is_ok() {
                    self.probe(5);
                }
            }
        } else {
            self.probe(17);
        }
        if r.king(r.side).is_none() {
            self.probe(16);
        }
        if r.hands[r.side][1] >= 9 {
            self.probe(12);
        }
        if (1..8).any(|k| r.hands[r.side][k] == TOTAL[k]) {
            self.probe(13);
        }
        if node.legal.len() >= 300 {
            self.probe(14);
        }
        if node.legal.len() >= 500 {
            self.probe(15);
        }
        if r.hands[r.side][1] > 0 {
            let sign = if r.side == BLACK { 1 } else { -1 };
            if (0..81).any(|i| r.bd[i] == P * sign) {
                self.probe(23);
            }
        }
    }

    /// Positions that differ in one detail must have different keys.
    fn neighbours(&mut self, s: usize, r: &Ref, o: &Obs) -> Result<(), Violation> {
        let seed = mix(o.digest());
        let mut rng = crate::prng::Rng::new(seed);
        for kind in 0..12 {
            let mut n = r.clone();
            match kind {
                0 => n.side = 1 - n.side,
                1 => {
                    // one more or one fewer in a hand
                    let c = rng.below(2);
                    let k = rng.range(1, 7);
                    let total = r.census()[k];
                    if n.hands[c][k] > 0 && (rng.chance(0.5) || total >= TOTAL[k]) {
                        n.hands[c][k] -= 1;
                    } else if total < TOTAL[k] {
                        n.hands[c][k] += 1;
                    }
                }
                2 => {
                    // a hand piece changes hands
                    let c = rng.below(2);
                    let ks: Vec<usize> = (1..8).filter(|&k| n.hands[c][k] > 0).collect();
                    if !ks.is_empty() {
                        let k = *rng.pick(&ks);
                        let m = rng.range(1, n.hands[c][k] as usize) as u8;
                        n.hands[c][k] -= m;
                        n.hands[1 - c][k] += m;
                    }
                }
                3 => {
                    // promote or demote
                    let v: Vec<usize> = (0..81).filter(|&i| n.bd[i] != 0).collect();
                    if !v.is_empty() {
                        let i = *rng.pick(&v);
                        let (k, sg) = (n.bd[i].abs(), n.bd[i].signum());
                        n.bd[i] = sg * promoted(k).unwrap_or(demoted(k));
                    }
                }
                4 => {
                    // the other owner
                    let v: Vec<usize> = (0..81).filter(|&i| n.bd[i] != 0 && n.bd[i].abs() != K).collect();
                    if !v.is_empty() {
                        let i = *rng.pick(&v);
                        n.bd[i] = -n.bd[i];
                    }
                }
                5 => {
                    // a piece elsewhere
                    let v: Vec<usize> = (0..81).filter(|&i| n.bd[i] != 0).collect();
                    let e: Vec<usize> = (0..81).filter(|&i| n.bd[i] == 0).collect();
                    if !v.is_empty() && !e.is_empty() {
                        let (i, j) = (*rng.pick(&v), *rng.pick(&e));
                        n.bd[j] = n.bd[i];
                        n.bd[i] = 0;
                    }
                }
                7 => {
                    // two pieces change places
                    let v: Vec<usize> = (0..81).filter(|&i| n.bd[i] != 0).collect();
                    if v.len() > 1 {
                        let (i, j) = (*rng.pick(&v), *rng.pick(&v));
                        n.bd.swap(i, j);
                    }
                }
                8 => {
                    // of two like pieces the other one is promoted
                    let v: Vec<usize> = (0..81).filter(|&i| n.bd[i] != 0).collect();
                    let base = |p: i8| if p.abs() > K { demoted(p.abs()) } else { p.abs() };
                    let w: Vec<(usize, usize)> = v
                        .iter()
                        .flat_map(|&i| v.iter().map(move |&j| (i, j)))
                        .filter(|&(i, j)| base(n.bd[i]) == base(n.bd[j]) && n.bd[i].abs() < K && n.bd[j].abs() > K)
                        .collect();
                    if !w.is_empty() {
                        let (i, j) = *rng.pick(&w);
                        let (a, b) = (n.bd[i], n.bd[j]);
                        n.bd[i] = a.signum() * b.abs();
                        n.bd[j] = b.signum() * a.abs();
                    }
                }
                9 => {
                    // several hands at once
                    for _ in 0..rng.range(2, 4) {
                        let (c, k) = (rng.below(2), rng.range(1, 7));
                        let free = TOTAL[k].saturating_sub(n.census()[k]) + n.hands[c][k];
                        n.hands[c][k] = rng.below(free as usize + 1) as u8;
                    }
                }
                10 => {
                    // everything one file or rank further
                    let (df, dr) = *rng.pick(&[(1i32, 0i32), (-1, 0), (0, 1), (0, -1)]);
                    let mut bd = [0i8; 81];
                    for i in 0..81 {
                        let (f, x) = ((i / 9) as i32 + df, (i % 9) as i32 + dr);
                        if n.bd[i] != 0 && (0..9).contains(&f) && (0..9).contains(&x) {
                            bd[(f * 9 + x) as usize] = n.bd[i];
                        }
                    }
                    n.bd = bd;
                }
                11 => {
                    // left and right exchanged, or the players
                    if rng.chance(0.5) {
                        let mut bd = [0i8; 81];
                        for i in 0..81 {
                            bd[(8 - i / 9) * 9 + i % 9] = n.bd[i];
                        }
                        n.bd = bd;
                    } else {
                        n = crate::gen::mirrored(&n);
                        if rng.chance(0.5) {
                            n.side = 1 - n.side;
                        }
                    }
                }
                _ => {
                    // one promoted kind for another (they move alike)
                    let alike = [G, PP, PL, PN, PS];
                    let v: Vec<usize> = (0..81).filter(|&i| alike.contains(&n.bd[i].abs())).collect();
                    if !v.is_empty() {
                        let i = *rng.pick(&v);
                        let sg = n.bd[i].signum();
                        n.bd[i] = sg * *rng.pick(&alike);
                    }
                }
            }
            if n == *r || !n.valid() {
                continue;
            }
            let (fa, fb) = (r.fingerprint(), n.fingerprint());
            let p = self.fresh(&n, s)?;
            let (kk, k) = (p.keys(), p.key());
            self.judged += 1;
            if fa.0 != fb.0 && kk.0 == o.keys.0 {
                return bad("key-collision", format!("first key {:x} shared with {} at {}", kk.0, n.to_sfen(), self.at(s)));
            }
            if fa.1 != fb.1 && kk.1 == o.keys.1 {
                return bad("key-collision", format!("second key {:x} shared with {} at {}", kk.1, n.to_sfen(), self.at(s)));
            }
            if k == o.key {
                return bad("key-collision", format!("key {k:x} shared with {} at {}", n.to_sfen(), self.at(s)));
            }
            self.key_maps(fb, kk, k, s)?;
        }
        Ok(())
    }

    /// C08: nothing done to one member of a family of clones shows in another.
    fn siblings(&mut self, s: usize) -> Result<(), Violation> {
        let Some(sl) = self.slots.get(&s) else { return Ok(()) };
        let fam = sl.family;
        self.siblings_of(fam, s, false)
    }
    fn siblings_of(&mut self, fam: u64, except: usize, all: bool) -> Result<(), Violation> {
        self.tick += 1;
        let mut ids: Vec<usize> = self
            .slots
            .iter()
            .filter(|(k, v)| **k != except && v.family == fam)
            .map(|(k, _)| *k)
            .collect();
        if ids.is_empty() {
            return Ok(());
        }
        ids.sort();
        if !all {
            let i = (self.tick % ids.len() as u64) as usize;
            ids = vec![ids[i]];
        }
        for id in ids {
            let now = self.look(id)?;
            self.full_obs += 1;
            let sl = self.slots.get_mut(&id).unwrap();
            if let Some(last) = &sl.last {
                self.judged += 1;
                let (a, b) = sl.refs.last().unwrap().fingerprint();
                self.distinct.insert((a ^ b) as u64);
                if let Some(x) = now.diff(last) {
                    return bad("clone-not-independent", format!("untouched position changed: now vs before: {x} at {}", self.at(id)));
                }
            } else {
                sl.last = Some(now);
            }
        }
        Ok(())
    }
}

fn op_slot(op: &Op) -> Option<usize> {
    match op {
        Op::Do(s, _) | Op::Undo(s) | Op::Obs(s) | Op::New(s, _) | Op::Grind(s, _, _) | Op::Deep(s, _, _) | Op::Herd(s, _, _) | Op::Relay(s, _, _) | Op::Throng(s, _, _) => Some(*s),
        _ => None,
    }
}
