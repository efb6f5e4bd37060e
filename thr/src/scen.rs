//! Scenarios: what each simulated process and thread does, as text; and what a scenario means.
//!
//! The text is the replay file. `Plan::make` walks it symbolically with the reference model, drops
//! operations that do not apply (so lists stay meaningful while they are minimised) and derives for
//! every thread the program it would run alone.
use shogi_core::{Color, Hand, Move, Piece, PieceKind};
use std::collections::BTreeMap;
use ysim::obs::{color, sq, to_move};
use ysim::refmodel::*;

pub const MAX_IDS: usize = 400;
pub const MAX_THREADS: usize = 68;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(usize, String),
    Do(usize, Move),
    Undo(usize, Move),
    Clone(usize, usize),
    Drop(usize),
    /// queries selected by the mask
    Ask(usize, u32),
    Send(usize, usize),
    Recv(usize, usize),
    /// publish for everybody, never changed again
    Share(usize, usize),
    SharedAsk(usize, u32),
    SharedClone(usize, usize),
    /// a nonsensical call, its panic caught; the position is discarded
    Bad(usize, u32, Move),
    /// a nonsensical call that ends the thread by its panic
    Die(usize, u32, Move),
    /// fault in the next operation: kind, after how many steps, argument
    Fault(Fault, u64, u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Stall,
    Stop,
    Crash,
    Oom,
    Leap,
}
const FAULT_NAMES: [&str; 5] = ["stall", "stop", "crash", "oom", "leap"];

pub fn move_text(m: Move) -> String {
    match m {
        Move::Normal { from, to, promote } => format!("n:{}:{}:{}", from.index(), to.index(), promote as u8),
        Move::Drop { piece, to } => {
            let (k, c) = piece.to_parts();
            format!("d:{}:{}:{}", k as u8, (c == Color::White) as u8, to.index())
        }
    }
}
pub fn parse_move(t: &str) -> Option<Move> {
    let v: Vec<&str> = t.split(':').collect();
    if v.len() != 4 {
        return None;
    }
    let n = |i: usize| v[i].parse::<u8>().ok();
    if v[0] == "n" {
        Some(Move::Normal {
            from: shogi_core::Square::from_u8(n(1)?)?,
            to: shogi_core::Square::from_u8(n(2)?)?,
            promote: n(3)? == 1,
        })
    } else {
        let k = PieceKind::from_u8(n(1)?)?;
        let c = if n(2)? == 0 { Color::Black } else { Color::White };
        Some(Move::Drop { piece: Piece::new(k, c), to: shogi_core::Square::from_u8(n(3)?)? })
    }
}
pub fn as_mv(m: Move, side: usize) -> Option<Mv> {
    match m {
        Move::Normal { from, to, promote } => Some(Mv { from: from.index() - 1, to: to.index() - 1, promote }),
        Move::Drop { piece, to } => {
            let (k, c) = piece.to_parts();
            if c != color(side) || !Hand::is_hand_piece(k) {
                return None;
            }
            Some(Mv { from: 100 + k as u8, to: to.index() - 1, promote: false })
        }
    }
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::New(s, t) => format!("new {s} {t}"),
            Op::Do(s, m) => format!("do {s} {}", move_text(*m)),
            Op::Undo(s, m) => format!("undo {s} {}", move_text(*m)),
            Op::Clone(d, s) => format!("clone {d} {s}"),
            Op::Drop(s) => format!("drop {s}"),
            Op::Ask(s, k) => format!("ask {s} {k}"),
            Op::Send(s, c) => format!("send {s} {c}"),
            Op::Recv(s, c) => format!("recv {s} {c}"),
            Op::Share(s, c) => format!("share {s} {c}"),
            Op::SharedAsk(c, k) => format!("sask {c} {k}"),
            Op::SharedClone(s, c) => format!("sclone {s} {c}"),
            Op::Bad(s, h, m) => format!("bad {s} {h} {}", move_text(*m)),
            Op::Die(s, h, m) => format!("die {s} {h} {}", move_text(*m)),
            Op::Fault(f, n, a) => format!("fault {} {n} {a}", FAULT_NAMES[*f as usize]),
        }
    }
    pub fn parse(l: &str) -> Option<Op> {
        let v: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| v.get(i)?.parse::<usize>().ok();
        Some(match v[0] {
            "new" => Op::New(n(1)?, v[2..].join(" ")),
            "do" => Op::Do(n(1)?, parse_move(v.get(2)?)?),
            "undo" => Op::Undo(n(1)?, parse_move(v.get(2)?)?),
            "clone" => Op::Clone(n(1)?, n(2)?),
            "drop" => Op::Drop(n(1)?),
            "ask" => Op::Ask(n(1)?, n(2)? as u32),
            "send" => Op::Send(n(1)?, n(2)?),
            "recv" => Op::Recv(n(1)?, n(2)?),
            "share" => Op::Share(n(1)?, n(2)?),
            "sask" => Op::SharedAsk(n(1)?, n(2)? as u32),
            "sclone" => Op::SharedClone(n(1)?, n(2)?),
            "bad" => Op::Bad(n(1)?, n(2)? as u32, parse_move(v.get(3)?)?),
            "die" => Op::Die(n(1)?, n(2)? as u32, parse_move(v.get(3)?)?),
            "fault" => {
                let f = match *v.get(1)? {
                    "stall" => Fault::Stall,
                    "stop" => Fault::Stop,
                    "crash" => Fault::Crash,
                    "oom" => Fault::Oom,
                    "leap" => Fault::Leap,
                    _ => return None,
                };
                Op::Fault(f, n(2)? as u64, n(3)? as u64)
            }
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub mode: u32,
    pub seed: u64,
    pub mean: f64,
    pub atomic_p: f64,
    pub spurious: f64,
    pub entropy: u64,
    pub clock: u64,
    pub rate: u64,
    pub pid: u32,
    pub pad: usize,
    /// names of threads, environment variables, number of processors, working directory; 0: the usual ones
    pub host: u64,
    /// 0 nothing is used before the threads start; 1 a fixed program ran; 2 all programs ran before
    pub warm: u32,
    pub pct: Vec<u64>,
}

impl Env {
    pub fn canonical() -> Env {
        Env {
            mode: 4,
            seed: 1,
            mean: 1000.0,
            atomic_p: 0.0,
            spurious: 0.0,
            entropy: 7,
            clock: 1_700_000_000_000_000_000,
            rate: 7,
            pid: 4242,
            pad: 0,
            host: 0,
            warm: 0,
            pct: vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub t: u8,
    pub next: u8,
    pub kind: u8,
    pub steps: u64,
}

#[derive(Clone, Debug)]
pub struct Proc {
    pub env: Env,
    /// what the main thread does before it starts the others
    pub main: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub decs: Vec<Dec>,
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub prop: String,
    pub procs: Vec<Proc>,
}

impl Scen {
    pub fn text(&self) -> String {
        let mut o = format!("prop {}\n", self.prop);
        for p in &self.procs {
            o.push_str(&p.text());
        }
        o
    }
    pub fn parse(t: &str) -> Option<Scen> {
        let mut s = Scen { prop: String::new(), procs: vec![] };
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
            match w {
                "prop" => s.prop = rest.to_string(),
                "proc" => {
                    let mut e = Env::canonical();
                    for kv in rest.split(' ') {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "mode" => e.mode = v.parse().ok()?,
                            "seed" => e.seed = v.parse().ok()?,
                            "mean" => e.mean = v.parse().ok()?,
                            "atomic" => e.atomic_p = v.parse().ok()?,
                            "spurious" => e.spurious = v.parse().ok()?,
                            "entropy" => e.entropy = v.parse().ok()?,
                            "clock" => e.clock = v.parse().ok()?,
                            "rate" => e.rate = v.parse().ok()?,
                            "pid" => e.pid = v.parse().ok()?,
                            "pad" => e.pad = v.parse().ok()?,
                            "host" => e.host = v.parse().ok()?,
                            "warm" => e.warm = v.parse().ok()?,
                            "pct" => e.pct = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect::<Option<_>>()?,
                            _ => return None,
                        }
                    }
                    s.procs.push(Proc { env: e, main: vec![], threads: vec![], decs: vec![] });
                }
                "thread" => s.procs.last_mut()?.threads.push(vec![]),
                "main" => {}
                "dec" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
                    s.procs.last_mut()?.decs.push(Dec { t: *v.first()? as u8, steps: *v.get(1)?, next: *v.get(2)? as u8, kind: *v.get(3)? as u8 });
                }
                _ => {
                    let p = s.procs.last_mut()?;
                    let op = Op::parse(l)?;
                    match p.threads.last_mut() {
                        Some(t) => t.push(op),
                        None => p.main.push(op),
                    }
                }
            }
        }
        if s.prop.is_empty() || s.procs.is_empty() {
            return None;
        }
        Some(s)
    }
    pub fn ops(&self) -> usize {
        self.procs.iter().map(|p| p.main.len() + p.threads.iter().map(|t| t.len()).sum::<usize>()).sum()
    }
}

impl Proc {
    pub fn text(&self) -> String {
        let e = &self.env;
        let mut o = format!(
            "proc mode={} seed={} mean={} atomic={} spurious={} entropy={} clock={} rate={} pid={} pad={} host={} warm={} pct={}\n",
            e.mode,
            e.seed,
            e.mean,
            e.atomic_p,
            e.spurious,
            e.entropy,
            e.clock,
            e.rate,
            e.pid,
            e.pad,
            e.host,
            e.warm,
            e.pct.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
        if !self.main.is_empty() {
            o.push_str("main\n");
            for op in &self.main {
                o.push_str(&op.text());
                o.push('\n');
            }
        }
        for t in &self.threads {
            o.push_str("thread\n");
            for op in t {
                o.push_str(&op.text());
                o.push('\n');
            }
        }
        for d in &self.decs {
            o.push_str(&format!("dec {} {} {} {}\n", d.t, d.steps, d.next, d.kind));
        }
        o
    }
}

/// A position object, symbolically.
#[derive(Clone)]
pub struct Line {
    pub sfen: String,
    pub cur: Ref,
    /// moves that can be taken back: the position before, the move
    pub stack: Vec<(Ref, Move)>,
    /// everything done to it
    pub trace: Vec<(bool, Move)>,
}

impl Line {
    pub fn new(sfen: &str) -> Option<Line> {
        let cur = Ref::from_sfen(sfen)?;
        if !cur.valid() {
            return None;
        }
        Some(Line { sfen: sfen.to_string(), cur, stack: vec![], trace: vec![] })
    }
    pub fn apply(&mut self, m: Move) -> bool {
        let Some(mv) = as_mv(m, self.cur.side) else { return false };
        if self.cur.ply > 65000 || !self.cur.legal().contains(&mv) {
            return false;
        }
        let before = self.cur.clone();
        self.cur.make(mv);
        self.stack.push((before, m));
        self.trace.push((true, m));
        true
    }
    pub fn back(&mut self, m: Move) -> bool {
        if self.stack.last().map(|x| x.1) != Some(m) {
            return false;
        }
        self.cur = self.stack.pop().unwrap().0;
        self.trace.push((false, m));
        true
    }
    /// operations that build the same object in `slot`
    fn rebuild(&self, slot: usize) -> Vec<(Option<usize>, Op)> {
        let mut v = vec![(None, Op::New(slot, self.sfen.clone()))];
        for (d, m) in &self.trace {
            v.push((None, if *d { Op::Do(slot, *m) } else { Op::Undo(slot, *m) }));
        }
        v
    }
}

/// One thread's program with the numbers of its results.
pub type Prog = Vec<(Option<usize>, Op)>;

pub struct Plan {
    /// index 0 is the main thread
    pub progs: Vec<Prog>,
    /// the same for each thread alone
    pub alone: Vec<Prog>,
    /// per thread and result number of a query: the state asked about and the mask
    pub asked: BTreeMap<(usize, usize), (String, u32)>,
}

const TEMP: usize = 9000;

impl Plan {
    pub fn make(p: &Proc) -> Plan {
        let n = 1 + p.threads.len().min(MAX_THREADS);
        let src: Vec<&Vec<Op>> = std::iter::once(&p.main).chain(p.threads.iter().take(MAX_THREADS)).collect();
        let mut pl = Plan { progs: vec![vec![]; n], alone: vec![vec![]; n], asked: BTreeMap::new() };
        let mut slots: Vec<BTreeMap<usize, Line>> = vec![BTreeMap::new(); n];
        let mut chans: BTreeMap<usize, Option<Line>> = BTreeMap::new();
        let mut shared: BTreeMap<usize, Line> = BTreeMap::new();
        let mut at = vec![0usize; n];
        let mut ids = vec![0usize; n];
        let mut dead = vec![false; n];
        loop {
            let mut moved = false;
            for t in 0..n {
                while at[t] < src[t].len() && !dead[t] && ids[t] < MAX_IDS {
                    let op = &src[t][at[t]];
                    // wait for a partner that may still come
                    let wait = match op {
                        Op::Recv(_, c) => !chans.contains_key(c),
                        Op::SharedAsk(c, _) | Op::SharedClone(_, c) => !shared.contains_key(c),
                        _ => false,
                    };
                    if wait {
                        break;
                    }
                    moved = true;
                    at[t] += 1;
                    let id = ids[t];
                    let mut alone: Prog = vec![];
                    let s = &mut slots[t];
                    let ok = match op {
                        Op::New(d, sfen) => match Line::new(sfen) {
                            Some(l) => {
                                s.insert(*d, l);
                                alone.push((Some(id), op.clone()));
                                true
                            }
                            None => false,
                        },
                        Op::Do(d, m) => {
                            let ok = s.get_mut(d).map(|l| l.apply(*m)).unwrap_or(false);
                            alone.push((Some(id), op.clone()));
                            ok
                        }
                        Op::Undo(d, m) => {
                            let ok = s.get_mut(d).map(|l| l.back(*m)).unwrap_or(false);
                            alone.push((Some(id), op.clone()));
                            ok
                        }
                        Op::Clone(d, x) => {
                            alone.push((Some(id), op.clone()));
                            if d == x {
                                false
                            } else if let Some(l) = s.get(x).cloned() {
                                s.insert(*d, l);
                                true
                            } else {
                                false
                            }
                        }
                        Op::Drop(d) => {
                            alone.push((Some(id), op.clone()));
                            s.remove(d).is_some()
                        }
                        Op::Ask(d, k) => {
                            alone.push((Some(id), op.clone()));
                            match s.get(d) {
                                Some(l) => {
                                    pl.asked.insert((t, id), (l.cur.to_sfen(), *k));
                                    true
                                }
                                None => false,
                            }
                        }
                        Op::Send(d, c) => {
                            if chans.contains_key(c) {
                                false
                            } else if let Some(l) = s.remove(d) {
                                alone.push((None, Op::Drop(*d)));
                                chans.insert(*c, Some(l));
                                true
                            } else {
                                false
                            }
                        }
                        Op::Recv(d, c) => match chans.get_mut(c).and_then(|x| x.take()) {
                            Some(l) => {
                                alone.extend(l.rebuild(*d));
                                s.insert(*d, l);
                                true
                            }
                            None => false,
                        },
                        Op::Share(d, c) => {
                            if shared.contains_key(c) {
                                false
                            } else if let Some(l) = s.remove(d) {
                                alone.push((None, Op::Drop(*d)));
                                shared.insert(*c, l);
                                true
                            } else {
                                false
                            }
                        }
                        Op::SharedAsk(c, k) => match shared.get(c) {
                            Some(l) => {
                                alone.extend(l.rebuild(TEMP));
                                alone.push((Some(id), Op::Ask(TEMP, *k)));
                                alone.push((None, Op::Drop(TEMP)));
                                pl.asked.insert((t, id), (l.cur.to_sfen(), *k));
                                true
                            }
                            None => false,
                        },
                        Op::SharedClone(d, c) => match shared.get(c).cloned() {
                            Some(l) => {
                                alone.extend(l.rebuild(*d));
                                s.insert(*d, l);
                                true
                            }
                            None => false,
                        },
                        Op::Bad(d, _, _) | Op::Die(d, _, _) => {
                            let ok = s.remove(d).is_some();
                            alone.push((None, Op::Drop(*d)));
                            if ok && matches!(op, Op::Die(..)) {
                                dead[t] = true;
                            }
                            ok
                        }
                        Op::Fault(..) => {
                            pl.progs[t].push((None, op.clone()));
                            false
                        }
                    };
                    if ok {
                        ids[t] += 1;
                        pl.progs[t].push((Some(id), op.clone()));
                        pl.alone[t].extend(alone);
                    }
                }
            }
            if !moved {
                // a receiver without a sender gives up
                let stuck = (0..n).find(|&t| at[t] < src[t].len() && !dead[t] && ids[t] < MAX_IDS);
                match stuck {
                    Some(t) => at[t] += 1,
                    None => break,
                }
            }
        }
        pl
    }
}

/// A call that no legal game contains: 0 do_move, 1 is_check_move, 2 undo_move.
pub fn nonsense(rng: &mut ysim::prng::Rng, r: &Ref) -> (u32, Move) {
    let how = *rng.pick(&[0u32, 0, 0, 0, 1, 2]);
    let s = |rng: &mut ysim::prng::Rng| sq(rng.below(81) as u8);
    loop {
        let m = match rng.below(5) {
            0 | 1 => {
                // from an empty square
                let f = rng.below(81);
                if r.bd[f] != 0 {
                    continue;
                }
                Move::Normal { from: sq(f as u8), to: s(rng), promote: rng.chance(0.4) }
            }
            2 => {
                // a drop of a man not in hand
                let k = rng.range(1, 8) as u8;
                let side = rng.below(2);
                if k < 8 && r.hands[side][k as usize] > 0 {
                    continue;
                }
                Move::Drop { piece: Piece::new(PieceKind::from_u8(k).unwrap(), color(side)), to: s(rng) }
            }
            3 => {
                // promotion of a man that cannot promote
                let f = rng.below(81);
                let k = r.bd[f].abs();
                if k != K && k != G && k < PP {
                    continue;
                }
                Move::Normal { from: sq(f as u8), to: s(rng), promote: true }
            }
            _ => {
                let f = rng.below(81);
                if r.bd[f] == 0 {
                    continue;
                }
                Move::Normal { from: sq(f as u8), to: s(rng), promote: rng.chance(0.5) }
            }
        };
        if let Some(mv) = as_mv(m, r.side) {
            if how != 2 && r.legal().contains(&mv) {
                continue;
            }
        }
        return (how, m);
    }
}

pub fn legal_move(rng: &mut ysim::prng::Rng, r: &Ref) -> Option<Move> {
    if r.ply > 64000 {
        return None;
    }
    let l = r.legal();
    if l.is_empty() {
        return None;
    }
    let caps: Vec<Mv> = l.iter().copied().filter(|m| r.bd[m.to as usize] != 0 || m.promote || m.is_drop()).collect();
    let m = if !caps.is_empty() && rng.chance(0.4) { *rng.pick(&caps) } else { *rng.pick(&l) };
    Some(to_move(m, r.side))
}
