//! The simulated world: an arbiter keeps the game record, engine replicas on a lossy network follow
//! it, search speculatively, ponder, are cut off, take moves back, crash and recover from what was
//! durable, and hand positions over to each other. Everything that happens is decided by one seeded
//! generator; time is a number. Nothing here looks at the answers of the library, so the same seed
//! gives the same operations whatever the code under test does.
use crate::gen;
use crate::prng::Rng;
use crate::refmodel::*;
use crate::script::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub const FAULTS: [&str; 23] = [
    "message_lost", "message_duplicated", "message_reordered", "partition_drop", "partition", "heal",
    "crash", "crash_inside_call_sequence", "torn_journal_tail", "restart_replay_journal",
    "restart_from_snapshot", "restart_state_transfer", "stall", "clock_skew", "deadline_cut_search",
    "record_cut_search", "ponder_hit", "ponder_miss", "takeback", "handover", "clone_mid_line",
    "late_message_ignored",
    "two_ways_to_one_position",
];

#[derive(Clone, Copy, Debug)]
enum Entry {
    Play(Mv),
    Back(usize),
}

#[derive(Clone, Debug)]
enum Msg {
    Rec(usize, Entry),
    Propose(usize, Mv),
    Beat(usize),
    Fetch(usize, usize),
    Hand(usize),
}

enum Ev {
    Deliver(usize, usize, Msg),
    Step(usize, u64),
    Helper(usize, u64, usize),
    Tick(u64),
    Beat,
    Sync(usize, u64, usize),
    Crash(usize),
    Restart(usize),
    Stall(usize),
    Partition,
    Heal,
}

struct Search {
    base: usize,
    left: Vec<u32>,
    max_depth: usize,
    steps: u64,
    deadline: u64,
    propose: bool,
}

struct Helper {
    slot: usize,
    floor: usize,
    left: Vec<u32>,
    steps: u64,
}

struct Engine {
    up: bool,
    epoch: u64,
    slot: Option<usize>,
    applied: usize,
    inbox: BTreeMap<usize, Entry>,
    search: Option<Search>,
    search_id: u64,
    helpers: Vec<Helper>,
    /// objects of finished helpers, kept for reuse
    idle: Vec<usize>,
    journal: Vec<Entry>,
    synced: usize,
    snaps: Vec<(usize, Ref)>,
    stalled_until: u64,
    rate: f64,
    crash_after: Option<u32>,
}

enum Halt {
    Viol(Violation),
    Crash,
    Full,
}
type R<T> = Result<T, Halt>;

#[derive(Clone, Debug)]
struct Cfg {
    engines: usize,
    loss: f64,
    dup: f64,
    delay: u64,
    jitter: u64,
    partition: f64,
    crash: f64,
    stall: f64,
    skew: bool,
    takeback: f64,
    obs: f64,
    depth: usize,
    width: u32,
    helper: f64,
    handover: f64,
    ponder: f64,
    batch: u64,
    deadline: u64,
    snapshot: f64,
    max_ops: usize,
    marathon: usize,
    full_unwind: f64,
    w: [i32; 6],
    tournament: usize,
    spicy: f64,
    grind: usize,
    spread: usize,
    herd: usize,
    deep: usize,
    relay: usize,
    throng: usize,
    fail: f64,
    two_ways: f64,
}

pub struct Run {
    pub faults: [u64; 23],
    pub sim_us: u64,
    pub events: u64,
    pub start_kind: usize,
    pub faulty: bool,
    pub incidents: u64,
}

struct World<'a> {
    rng: Rng,
    ex: &'a mut Exec,
    script: &'a mut Vec<Op>,
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    cfg: Cfg,
    start: Ref,
    log: Vec<Entry>,
    eng: Vec<Engine>,
    cut: Vec<bool>,
    next_slot: usize,
    version_tick: u64,
    ops: usize,
    st: Run,
    quiet: bool,
}

const ARB: usize = usize::MAX;

pub fn run(seed: u64, ex: &mut Exec, script: &mut Vec<Op>) -> (Run, Result<(), Violation>) {
    let mut rng = Rng::new(seed);
    let (kind, start) = gen::start(&mut rng);
    let faulty = rng.chance(0.88);
    let on = |rng: &mut Rng, p: f64| faulty && rng.chance(p);
    let marathon = if rng.chance(0.006) { rng.range(300, 3000) } else { 0 };
    let mut w = [0i32; 6];
    for x in w.iter_mut() {
        *x = *rng.pick(&[-6, -1, 0, 0, 1, 2, 4, 8]);
    }
    let cfg = Cfg {
        engines: if marathon > 0 { 1 } else { *rng.pick(&[1, 1, 2, 2, 2, 3, 4]) },
        loss: if on(&mut rng, 0.5) { *rng.pick(&[0.02, 0.1, 0.3]) } else { 0.0 },
        dup: if on(&mut rng, 0.4) { *rng.pick(&[0.05, 0.2]) } else { 0.0 },
        delay: *rng.pick(&[200, 1_000, 5_000]),
        jitter: *rng.pick(&[0, 1_000, 20_000, 80_000]),
        partition: if on(&mut rng, 0.3) { 0.3 } else { 0.0 },
        crash: if on(&mut rng, 0.5) { *rng.pick(&[0.3, 0.7, 1.0]) } else { 0.0 },
        stall: if on(&mut rng, 0.3) { 0.4 } else { 0.0 },
        skew: on(&mut rng, 0.4),
        takeback: *rng.pick(&[0.0, 0.05, 0.15, 0.35]),
        obs: *rng.pick(&[0.15, 0.3, 0.6, 1.0]),
        depth: *rng.pick(&[1, 2, 3, 5, 8, 16, 40, 120]),
        width: *rng.pick(&[1, 2, 3, 6]),
        helper: *rng.pick(&[0.0, 0.01, 0.05, 0.15]),
        handover: *rng.pick(&[0.0, 0.0, 0.02, 0.08]),
        ponder: *rng.pick(&[0.0, 0.5, 1.0]),
        batch: *rng.pick(&[1, 1, 2, 4, 9]),
        deadline: *rng.pick(&[500, 3_000, 15_000, 60_000]),
        snapshot: *rng.pick(&[0.0, 0.1, 0.5]),
        max_ops: *rng.pick(&[60, 150, 300, 500, 800]) + 2 * marathon,
        marathon,
        full_unwind: *rng.pick(&[0.0, 0.3, 1.0]),
        w,
        tournament: *rng.pick(&[1, 1, 2, 3, 5]),
        spicy: *rng.pick(&[0.0, 0.0, 0.1, 0.3, 0.6]),
        two_ways: *rng.pick(&[0.0, 0.0, 0.0, 0.02, 0.1]),
        herd: if rng.chance(0.02) { *rng.pick(&[30, 140, 300, 600]) } else { 0 },
        deep: if rng.chance(0.004) { *rng.pick(&[600, 1100, 2200, 4200]) } else { 0 },
        relay: if rng.chance(0.015) { *rng.pick(&[300, 3_000, 3_000, 20_000]) } else { 0 },
        throng: if rng.chance(if ex.doubles() { 0.2 } else { 0.01 }) { *rng.pick(&[20, 100, 300]) } else { 0 },
        fail: if ex.props.has(11) { *rng.pick(&[0.01, 0.05, 0.2]) } else { 0.0 },
        spread: if ex.doubles() || rng.chance(0.04) { *rng.pick(&[2, 3, 4, 8, 24]) } else { 0 },
        grind: if rng.chance(0.06) { *rng.pick(&[500, 3_000, 3_000, 35_000, 70_000, 70_000, 140_000]) } else { 0 },
    };
    script.clear();
    ex.reset_run();
    let mut wd = World {
        rng,
        ex,
        script,
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        evs: BTreeMap::new(),
        cfg,
        start,
        log: vec![],
        eng: vec![],
        cut: vec![],
        next_slot: 1,
        version_tick: 0,
        ops: 0,
        st: Run { faults: [0; 23], sim_us: 0, events: 0, start_kind: kind, faulty, incidents: 0 },
        quiet: false,
    };
    let r = match wd.main() {
        Ok(()) | Err(Halt::Crash) | Err(Halt::Full) => Ok(()),
        Err(Halt::Viol(v)) if v.class == "skip" => Ok(()),
        Err(Halt::Viol(v)) => Err(v),
    };
    wd.st.sim_us = wd.now;
    (wd.st, r)
}

impl World<'_> {
    fn hit(&mut self, name: &str) {
        let i = FAULTS.iter().position(|f| *f == name).unwrap();
        self.st.faults[i] += 1;
    }
    fn note(&mut self, t: String) {
        let t = format!("t={} {t}", self.now);
        if let Some(l) = &mut self.ex.log {
            l.push(t.clone());
        }
        self.script.push(Op::Note(t));
    }
    fn at(&mut self, dt: u64, ev: Ev) {
        self.seq += 1;
        self.heap.push(Reverse((self.now + dt, self.seq)));
        self.evs.insert(self.seq, ev);
    }
    fn aside(&mut self, t: Op) {
        if let Some(f) = &mut self.ex.trace {
            use std::io::Write;
            let _ = writeln!(f, "{}", t.to_line());
        }
        if self.ex.exec(&t).is_ok_and(|x| x) {
            self.script.push(t);
        }
    }
    fn apply(&mut self, op: Op) -> R<bool> {
        self.ops += 1;
        if self.cfg.spread > 0 && (self.ops == 1 || self.rng.chance(0.01)) {
            let n = self.rng.range(1, self.cfg.spread);
            let r = self.rng.below(n);
            let t = Op::Spread(n, r);
            self.aside(t);
        }
        if self.cfg.fail > 0.0 && self.rng.chance(self.cfg.fail) {
            let mut ids: Vec<usize> = self.ex.slots.keys().copied().collect();
            ids.sort_unstable();
            if !ids.is_empty() {
                let s = *self.rng.pick(&ids);
                let n = *self.rng.pick(&[1, 1, 2, 5, 40]);
                let t = Op::Fail(s, self.rng.next(), n);
                self.aside(t);
            }
        }
        if let Some(t) = &mut self.ex.trace {
            use std::io::Write;
            let _ = writeln!(t, "{}", op.to_line());
        }
        match self.ex.exec(&op) {
            Ok(true) => {
                self.script.push(op);
                Ok(true)
            }
            Ok(false) => Ok(false),
            Err(v) => {
                self.script.push(op);
                Err(Halt::Viol(v))
            }
        }
    }
    /// An operation of an engine: its process may die right after it.
    fn eop(&mut self, e: usize, op: Op) -> R<bool> {
        let r = self.apply(op)?;
        if let Some(n) = self.eng[e].crash_after {
            if n == 0 {
                self.hit("crash_inside_call_sequence");
                return Err(Halt::Crash);
            }
            self.eng[e].crash_after = Some(n - 1);
        }
        Ok(r)
    }
    fn slot_id(&mut self) -> usize {
        self.next_slot += 1;
        self.next_slot - 1
    }
    fn depth(&self, s: usize) -> usize {
        self.ex.slots.get(&s).map_or(0, |x| x.moves.len())
    }

    /// The line after the first n entries of the record.
    fn line(entries: &[Entry]) -> Vec<Mv> {
        let mut v = vec![];
        for e in entries {
            match e {
                Entry::Play(m) => v.push(*m),
                Entry::Back(k) => {
                    v.truncate(v.len().saturating_sub(*k));
                }
            }
        }
        v
    }

    fn score(w: &[i32; 6], r: &Ref, m: Mv, last: Option<Mv>) -> i32 {
        let mut x = 0;
        if r.bd[m.to as usize] != 0 {
            x += w[0];
            if r.bd[m.to as usize].abs() > K {
                x += w[0];
            }
        }
        if m.promote {
            x += w[1];
        }
        if m.is_drop() {
            x += w[2];
        } else if r.bd[m.from as usize].abs() == K {
            x += w[4];
        }
        if w[3] != 0 && r.after(m).in_check(1 - r.side) {
            x += w[3] * 2;
        }
        if let Some(l) = last {
            // take the piece back where it came from
            if m.from == l.to && m.to == l.from && !m.promote {
                x += w[5] * 2;
            }
        }
        x
    }

    /// Moves that make unusual situations: discovered and double checks, pawn-drop checks,
    /// interpositions and captures in reply to check, promotions by choice, captures of promoted men.
    fn rarity(r: &Ref, m: Mv, in_check: bool) -> i32 {
        let a = r.after(m);
        let mut x = 0;
        if a.in_check(a.side) {
            let at = a.attackers(a.king(a.side).unwrap(), r.side);
            if at.len() > 1 {
                x += 9;
            } else if at[0] != m.to as usize {
                x += 8;
            } else if m.is_drop() && m.drop_kind() == P {
                x += 6;
            } else {
                x += 1;
            }
        }
        if in_check && (m.is_drop() || r.bd[m.from as usize].abs() != K) {
            x += 4;
            if !m.is_drop() && r.bd[m.to as usize] == 0 {
                x += 1;
            }
        }
        if r.bd[m.to as usize].abs() > K {
            x += 2;
        }
        x
    }

    /// A legal move of the position in a slot, drawn by a small tournament under the run's taste.
    fn choose(&mut self, s: usize) -> Option<Mv> {
        let sl = self.ex.slots.get_mut(&s)?;
        if sl.cur().ply >= u16::MAX - 2 {
            return None;
        }
        let node = sl.node();
        if node.legal.is_empty() {
            return None;
        }
        let n = sl.moves.len();
        let last = if n >= 2 { Some(sl.moves[n - 2]) } else { None };
        if self.cfg.spicy > 0.0 && self.rng.chance(self.cfg.spicy) {
            let mut best: Option<(i32, Mv)> = None;
            for _ in 0..node.legal.len().min(32) {
                let m = *self.rng.pick(&node.legal);
                let x = Self::rarity(sl.cur(), m, node.in_check);
                if x > 0 && (best.is_none() || x > best.unwrap().0) {
                    best = Some((x, m));
                }
            }
            if let Some(b) = best {
                return Some(b.1);
            }
        }
        let mut best: Option<(i32, Mv)> = None;
        for _ in 0..self.cfg.tournament {
            let m = *self.rng.pick(&node.legal);
            let x = Self::score(&self.cfg.w, sl.cur(), m, last);
            if best.is_none() || x > best.unwrap().0 {
                best = Some((x, m));
            }
        }
        best.map(|b| b.1)
    }

    // ---- network ----
    fn send(&mut self, from: usize, to: usize, msg: Msg) {
        let hand = if let Msg::Hand(s) = &msg { Some(*s) } else { None };
        if !self.quiet {
            let side = |x: usize| x != ARB && *self.cut.get(x).unwrap_or(&false);
            if side(from) != side(to) {
                self.hit("partition_drop");
                self.lost(hand);
                return;
            }
            if self.cfg.loss > 0.0 && self.rng.chance(self.cfg.loss) {
                self.hit("message_lost");
                self.lost(hand);
                return;
            }
        }
        let j = self.cfg.jitter as usize;
        let mut d = self.cfg.delay + self.rng.below(j + 1) as u64;
        if !self.quiet && self.cfg.jitter > 0 && self.rng.chance(0.05) {
            d *= 5;
            self.hit("message_reordered");
        }
        if hand.is_none() && !self.quiet && self.cfg.dup > 0.0 && self.rng.chance(self.cfg.dup) {
            self.hit("message_duplicated");
            let dd = d + self.rng.below(4 * j + 1000) as u64;
            self.at(dd, Ev::Deliver(from, to, msg.clone()));
        }
        self.at(d, Ev::Deliver(from, to, msg));
    }
    fn lost(&mut self, hand: Option<usize>) {
        if let Some(s) = hand {
            // the receiver never sees it; the object is dropped by the sender's process
            let op = Op::Drop(s);
            if self.ex.exec(&op).unwrap_or(false) {
                self.script.push(op);
            }
        }
    }
    fn broadcast(&mut self, i: usize) {
        for e in 0..self.eng.len() {
            let m = Msg::Rec(i, self.log[i]);
            self.send(ARB, e, m);
        }
    }

    // ---- arbiter ----
    /// Adds an entry to the record, applies it to the arbiter's own position (slot 0).
    fn record(&mut self, en: Entry) -> R<()> {
        match en {
            Entry::Play(m) => {
                self.apply(Op::Do(0, m))?;
            }
            Entry::Back(k) => {
                for _ in 0..k {
                    self.apply(Op::Undo(0))?;
                }
            }
        }
        if self.rng.chance(self.cfg.obs) {
            self.apply(Op::Obs(0))?;
        }
        self.log.push(en);
        let i = self.log.len() - 1;
        self.broadcast(i);
        self.version_tick += 1;
        let dt = self.cfg.deadline * 2 + 4 * (self.cfg.delay + self.cfg.jitter);
        let v = self.version_tick;
        self.at(dt, Ev::Tick(v));
        Ok(())
    }
    fn arbiter_move(&mut self, proposal: Option<Mv>) -> R<()> {
        let d = self.depth(0);
        if d > 0 && self.rng.chance(self.cfg.takeback) {
            self.hit("takeback");
            let k = if self.rng.chance(0.1) { d } else { self.rng.range(1, d.min(6)) };
            self.note(format!("takeback {k}"));
            return self.record(Entry::Back(k));
        }
        match proposal.or_else(|| self.choose(0)) {
            Some(m) => self.record(Entry::Play(m)),
            None => {
                // the game is over: go back some way and play on
                if d == 0 {
                    return Err(Halt::Full);
                }
                self.hit("takeback");
                let k = self.rng.range(1, d.min(12));
                self.note(format!("game over, takeback {k}"));
                self.record(Entry::Back(k))
            }
        }
    }

    // ---- engines ----
    /// Unwinds whatever was tried on the main position down to `floor` moves.
    fn unwind(&mut self, e: usize, s: usize, floor: usize) -> R<()> {
        while self.depth(s) > floor {
            if !self.eop(e, Op::Undo(s))? {
                break;
            }
        }
        Ok(())
    }
    fn rebuild(&mut self, e: usize, target: &[Mv]) -> R<()> {
        let s = self.slot_id();
        if let Some(o) = self.eng[e].slot.take() {
            self.apply(Op::Drop(o))?;
        }
        let op = Op::New(s, self.start.clone());
        self.eng[e].slot = Some(s);
        self.eop(e, op)?;
        for m in target {
            self.eop(e, Op::Do(s, *m))?;
            if self.rng.chance(self.cfg.obs * 0.2) {
                self.eop(e, Op::Obs(s))?;
            }
        }
        Ok(())
    }
    /// Brings the main position to the state after `applied` entries, from wherever a search left it.
    fn follow(&mut self, e: usize) -> R<()> {
        let Some(s) = self.eng[e].slot else { return Ok(()) };
        let target = Self::line(&self.log[..self.eng[e].applied]);
        let mut have = self.ex.slots[&s].moves.clone();
        // how much of the line lies before the start of this position (it may stem from a snapshot)
        let base = match self.base_of(e, s, &target) {
            Some(b) => b,
            None => return self.rebuild(e, &target),
        };
        let tail = &target[base..];
        let mut keep = 0;
        while keep < have.len() && keep < tail.len() && have[keep] == tail[keep] {
            keep += 1;
        }
        if self.rng.chance(self.cfg.full_unwind) {
            let f = self.eng[e].search.as_ref().map_or(keep, |x| x.base.min(keep));
            keep = keep.min(f);
        }
        self.unwind(e, s, keep)?;
        have.truncate(keep);
        for m in &tail[keep..] {
            self.eop(e, Op::Do(s, *m))?;
        }
        Ok(())
    }
    /// Number of moves of the line that lie before the start of the position in a slot; None if
    /// that start is not on the line.
    fn base_of(&self, e: usize, s: usize, target: &[Mv]) -> Option<usize> {
        let r0 = &self.ex.slots[&s].refs[0];
        if *r0 == self.start {
            return Some(0);
        }
        for (n, r) in &self.eng[e].snaps {
            if r == r0 {
                let p = Self::line(&self.log[..*n]);
                if target.starts_with(&p) {
                    return Some(p.len());
                }
            }
        }
        None
    }

    fn cut_search(&mut self, e: usize, why: &str) {
        if self.eng[e].search.is_some() {
            if why == "record" {
                self.hit("record_cut_search");
            } else {
                self.hit("deadline_cut_search");
            }
            self.st.incidents += 1;
        }
    }

    fn deliver_records(&mut self, e: usize) -> R<()> {
        loop {
            let a = self.eng[e].applied;
            let Some(en) = self.eng[e].inbox.remove(&a) else { break };
            if let (Some(s), Some(se)) = (self.eng[e].slot, &self.eng[e].search) {
                let d = self.depth(s);
                let b = se.base;
                if d > b {
                    let first = self.ex.slots[&s].moves[b];
                    let hit = matches!(en, Entry::Play(m) if m == first);
                    self.hit(if hit { "ponder_hit" } else { "ponder_miss" });
                }
            }
            self.cut_search(e, "record");
            self.eng[e].applied += 1;
            // durable journal: the entry is appended now and synced a little later
            self.eng[e].journal.push(en);
            let upto = self.eng[e].journal.len();
            let ep = self.eng[e].epoch;
            let dt = self.rng.below(30_000) as u64;
            self.at(dt, Ev::Sync(e, ep, upto));
            self.follow(e)?;
            self.eng[e].search = None;
            let s = self.eng[e].slot.unwrap();
            if self.rng.chance(self.cfg.obs) {
                self.eop(e, Op::Obs(s))?;
            }
            if self.rng.chance(self.cfg.snapshot) {
                let n = self.eng[e].applied;
                let r = self.ex.slots[&s].cur().clone();
                self.eng[e].snaps.push((n, r));
            }
        }
        if self.eng[e].applied == self.log.len() {
            let my_turn = self.eng.len() == 1 || (self.depth(0) % self.eng.len()) == e;
            if my_turn {
                self.think(e, true)?;
            } else if self.rng.chance(self.cfg.ponder) {
                self.think(e, false)?;
            }
        }
        Ok(())
    }

    fn think(&mut self, e: usize, propose: bool) -> R<()> {
        let Some(s) = self.eng[e].slot else { return Ok(()) };
        if self.eng[e].search.is_some() {
            return Ok(());
        }
        let dl = (self.rng.geom(self.cfg.deadline as f64) as f64 * self.eng[e].rate) as u64;
        if self.eng[e].rate != 1.0 {
            self.hit("clock_skew");
        }
        let width = 1 + self.rng.below(self.cfg.width as usize) as u32;
        self.eng[e].search_id += 1;
        let id = self.eng[e].search_id;
        self.eng[e].search = Some(Search {
            base: self.depth(s),
            left: vec![width + 1],
            max_depth: self.rng.range(1, self.cfg.depth),
            steps: 0,
            deadline: self.now + dl,
            propose,
        });
        let dt = self.step_time(e);
        self.at(dt, Ev::Step(e, id));
        Ok(())
    }
    fn step_time(&mut self, e: usize) -> u64 {
        let b = 30 + self.rng.below(400) as u64;
        (b as f64 * self.eng[e].rate) as u64 + 1
    }

    /// One step of a depth-first walk below `floor` in slot s; false when the walk is over.
    fn walk(&mut self, e: usize, s: usize, floor: usize, left: &mut Vec<u32>, max_depth: usize) -> R<bool> {
        let d = self.depth(s) - floor;
        if self.rng.chance(self.cfg.obs) {
            self.eop(e, Op::Obs(s))?;
        }
        let go = d < max_depth && left[d] > 0;
        if go {
            if let Some(m) = self.choose(s) {
                left[d] -= 1;
                let w = 1 + self.rng.below(self.cfg.width as usize) as u32;
                left.truncate(d + 1);
                left.push(w);
                self.eop(e, Op::Do(s, m))?;
                if d + 1 == max_depth && self.rng.chance(self.cfg.obs) {
                    self.eop(e, Op::Obs(s))?;
                }
                return Ok(true);
            }
        }
        if d > 0 {
            self.eop(e, Op::Undo(s))?;
            return Ok(true);
        }
        Ok(false)
    }

    fn step(&mut self, e: usize, id: u64) -> R<()> {
        if !self.eng[e].up || self.eng[e].search_id != id {
            return Ok(());
        }
        let Some(mut se) = self.eng[e].search.take() else { return Ok(()) };
        let Some(s) = self.eng[e].slot else { return Ok(()) };
        if self.eng[e].stalled_until > self.now {
            let dt = self.eng[e].stalled_until - self.now;
            self.eng[e].search = Some(se);
            self.at(dt, Ev::Step(e, id));
            return Ok(());
        }
        let mut over = self.now >= se.deadline;
        let cut = over;
        if !over {
            for _ in 0..self.cfg.batch {
                se.steps += 1;
                if !self.walk(e, s, se.base, &mut se.left, se.max_depth)? {
                    over = true;
                    break;
                }
            }
        }
        if !over {
            if self.cfg.grind > 0 && self.rng.chance(0.1) {
                let (x, n) = (self.rng.next(), std::mem::take(&mut self.cfg.grind));
                self.eop(e, Op::Grind(s, x, n))?;
            }
            if self.cfg.herd > 0 && self.rng.chance(0.1) {
                let (x, n) = (self.rng.next(), std::mem::take(&mut self.cfg.herd));
                self.eop(e, Op::Herd(s, x, n))?;
            }
            if self.cfg.deep > 0 && self.rng.chance(0.1) {
                let (x, n) = (self.rng.next(), std::mem::take(&mut self.cfg.deep));
                self.eop(e, Op::Deep(s, x, n))?;
            }
            if self.cfg.relay > 0 && self.rng.chance(0.1) {
                let (x, n) = (self.rng.next(), std::mem::take(&mut self.cfg.relay));
                self.eop(e, Op::Relay(s, x, n))?;
            }
            if self.cfg.throng > 0 && self.rng.chance(0.1) {
                let (x, n) = (self.rng.next(), std::mem::take(&mut self.cfg.throng));
                self.eop(e, Op::Throng(s, x, n))?;
            }
            if self.rng.chance(self.cfg.two_ways) {
                self.two_ways(e, s)?;
            }
            if self.rng.chance(self.cfg.helper) && self.eng[e].helpers.len() < 5 {
                self.spawn_helper(e, s)?;
            }
            if self.eng.len() > 1 && self.rng.chance(self.cfg.handover) {
                let c = self.slot_id();
                self.hit("handover");
                self.note(format!("engine {e} hands slot {c} over"));
                self.eop(e, Op::Clone(c, s))?;
                let to = (e + 1 + self.rng.below(self.eng.len() - 1)) % self.eng.len();
                self.send(e, to, Msg::Hand(c));
            }
            self.eng[e].search = Some(se);
            let dt = self.step_time(e);
            self.at(dt, Ev::Step(e, id));
            return Ok(());
        }
        // over: unwind, answer, perhaps ponder
        if cut {
            self.eng[e].search = Some(Search { base: se.base, left: vec![], max_depth: 0, steps: 0, deadline: 0, propose: false });
            self.cut_search(e, "deadline");
            self.eng[e].search = None;
            self.note(format!("engine {e} deadline, {} plies deep", self.depth(s) - se.base));
        }
        self.unwind(e, s, se.base)?;
        if self.rng.chance(self.cfg.obs) {
            self.eop(e, Op::Obs(s))?;
        }
        if se.propose {
            if let Some(m) = self.choose(s) {
                let v = self.eng[e].applied;
                self.send(e, ARB, Msg::Propose(v, m));
                if self.rng.chance(self.cfg.ponder) {
                    // go on thinking below the own move; the record decides whether that was a hit
                    self.think(e, false)?;
                    if let Some(x) = &mut self.eng[e].search {
                        x.left = vec![1, self.cfg.width];
                    }
                    self.eop(e, Op::Do(s, m))?;
                }
            }
        }
        Ok(())
    }

    /// Another line from the root of slot s to the position it is in: two moves of one side
    /// exchanged, or a detour there and back at the end.
    fn other_line(&mut self, s: usize) -> Option<(Vec<Mv>, bool)> {
        let sl = self.ex.slots.get(&s)?;
        let n = sl.moves.len();
        if n < 3 || n > 60 {
            return None;
        }
        let (moves, refs) = (sl.moves.clone(), sl.refs.clone());
        let same = |a: &Ref, b: &Ref| a.bd == b.bd && a.hands == b.hands && a.side == b.side;
        for _ in 0..8 {
            if self.rng.chance(0.7) {
                let i = n - 3 - self.rng.below((n - 2).min(12));
                let x = [moves[i + 2], moves[i + 1], moves[i]];
                if x[0] == x[2] {
                    continue;
                }
                let mut r = refs[i].clone();
                let ok = x.iter().all(|m| {
                    let ok = r.legal().contains(m);
                    if ok {
                        r.make(*m);
                    }
                    ok
                });
                if ok && same(&r, &refs[i + 3]) {
                    let mut l = moves.clone();
                    l[i..i + 3].copy_from_slice(&x);
                    return Some((l, false));
                }
            } else {
                let mut r = refs[n].clone();
                let mut l = moves.clone();
                let mut there = vec![];
                for k in 0..4 {
                    let ms = r.legal();
                    let m = if k < 2 {
                        let q: Vec<Mv> = ms.into_iter().filter(|m| !m.is_drop() && !m.promote && r.bd[m.to as usize] == 0).collect();
                        if q.is_empty() {
                            break;
                        }
                        let m = *self.rng.pick(&q);
                        there.push(m);
                        m
                    } else {
                        let t: Mv = there[k - 2];
                        let m = Mv { from: t.to, to: t.from, promote: false };
                        if !ms.contains(&m) {
                            break;
                        }
                        m
                    };
                    r.make(m);
                    l.push(m);
                }
                if l.len() == n + 4 && same(&r, &refs[n]) {
                    return Some((l, true));
                }
            }
        }
        None
    }

    /// Two objects come to one position by different lines; copies of one are made where the other is or was.
    fn two_ways(&mut self, e: usize, s: usize) -> R<()> {
        let Some((line, detour)) = self.other_line(s) else { return Ok(()) };
        let sl = &self.ex.slots[&s];
        let (root, own) = (sl.refs[0].clone(), sl.moves.clone());
        self.hit("two_ways_to_one_position");
        self.note(format!("engine {e} comes to one position by two lines"));
        let (a, b, c) = (self.slot_id(), self.slot_id(), self.slot_id());
        for (x, l) in [(a, &line), (b, &own)] {
            self.eop(e, Op::New(x, root.clone()))?;
            for (i, m) in l.iter().enumerate() {
                self.eop(e, Op::Do(x, *m))?;
                if i + 9 > l.len() {
                    self.eop(e, Op::Obs(x))?;
                }
            }
        }
        let k = 9.min(own.len());
        let (one, two) = if self.rng.chance(0.5) { (a, b) } else { (b, a) };
        let target = match self.rng.below(if detour { 4 } else { 5 }) {
            0 => {
                self.eop(e, Op::Drop(one))?;
                self.eop(e, Op::Clone(c, two))?;
                c
            }
            1 => {
                self.eop(e, Op::Clone(one, two))?;
                one
            }
            2 => {
                self.eop(e, Op::Clone(c, one))?;
                self.eop(e, Op::Drop(c))?;
                self.eop(e, Op::Clone(c, two))?;
                c
            }
            3 => {
                self.eop(e, Op::Clone(c, one))?;
                self.eop(e, Op::Clone(c, two))?;
                c
            }
            _ => {
                // both go back, and forth along the line of the other
                for _ in 0..3.min(k) {
                    self.eop(e, Op::Undo(one))?;
                    self.eop(e, Op::Undo(two))?;
                }
                self.eop(e, Op::Clone(c, two))?;
                c
            }
        };
        for i in 0..k {
            self.eop(e, Op::Undo(target))?;
            if self.rng.chance(0.5) {
                self.eop(e, Op::Obs(target))?;
            }
            if i < 3 && one != target {
                self.eop(e, Op::Undo(one))?;
            }
        }
        for x in [a, b, c] {
            self.eop(e, Op::Drop(x))?;
        }
        Ok(())
    }

    fn spawn_helper(&mut self, e: usize, src: usize) -> R<()> {
        let c = match self.eng[e].idle.pop() {
            Some(c) => c,
            None => self.slot_id(),
        };
        self.hit("clone_mid_line");
        self.eop(e, Op::Clone(c, src))?;
        let d = self.depth(c);
        // a helper may also take moves back that were made before it was cloned
        let floor = if self.rng.chance(0.5) { d } else { self.rng.below(d + 1) };
        self.adopt(e, c, floor)
    }
    fn adopt(&mut self, e: usize, c: usize, floor: usize) -> R<()> {
        let d = self.depth(c);
        let mut left = vec![0; d - floor];
        for l in left.iter_mut() {
            *l = self.rng.below(2) as u32;
        }
        left.push(2);
        self.eng[e].helpers.push(Helper { slot: c, floor, left, steps: 0 });
        let dt = self.step_time(e);
        let ep = self.eng[e].epoch;
        self.at(dt, Ev::Helper(e, ep, c));
        Ok(())
    }
    fn helper(&mut self, e: usize, ep: u64, c: usize) -> R<()> {
        if !self.eng[e].up || self.eng[e].epoch != ep {
            return Ok(());
        }
        let Some(i) = self.eng[e].helpers.iter().position(|h| h.slot == c) else { return Ok(()) };
        let mut h = self.eng[e].helpers.swap_remove(i);
        h.steps += 1;
        let max = (self.depth(c) - h.floor).max(1) + 2;
        let more = h.steps < 60 && self.walk(e, c, h.floor, &mut h.left, max.min(self.cfg.depth + 2))?;
        if more {
            self.eng[e].helpers.push(h);
            let dt = self.step_time(e);
            self.at(dt, Ev::Helper(e, ep, c));
        } else {
            if self.rng.chance(0.5) {
                self.eop(e, Op::Obs(c))?;
            }
            if self.rng.chance(0.5) {
                self.eng[e].idle.push(c);
            } else {
                self.eop(e, Op::Drop(c))?;
            }
        }
        Ok(())
    }

    // ---- crash and recovery ----
    fn crash(&mut self, e: usize) -> R<()> {
        if !self.eng[e].up {
            return Ok(());
        }
        self.hit("crash");
        self.st.incidents += 1;
        self.note(format!("engine {e} crashes"));
        let en = &mut self.eng[e];
        en.up = false;
        en.epoch += 1;
        en.search = None;
        en.search_id += 1;
        en.inbox.clear();
        en.crash_after = None;
        let mut gone: Vec<usize> = en.helpers.drain(..).map(|h| h.slot).collect();
        gone.extend(en.slot.take());
        gone.append(&mut en.idle);
        let keep = en.synced;
        if en.journal.len() > keep {
            // the unsynced tail is lost, wholly or in part
            let n = en.journal.len() - keep;
            let k = keep + self.rng.below(n + 1);
            self.eng[e].journal.truncate(k);
            self.eng[e].synced = k;
            self.hit("torn_journal_tail");
        }
        let k = self.eng[e].journal.len();
        self.eng[e].snaps.retain(|s| s.0 <= k);
        for s in gone {
            self.apply(Op::Drop(s))?;
        }
        let dt = 10_000 + self.rng.below(3_000_000) as u64;
        self.at(dt, Ev::Restart(e));
        Ok(())
    }
    fn restart(&mut self, e: usize) -> R<()> {
        if self.eng[e].up {
            return Ok(());
        }
        self.eng[e].up = true;
        let n = self.eng[e].journal.len();
        self.eng[e].applied = n;
        let how = self.rng.below(3);
        let peer = (0..self.eng.len())
            .filter(|&p| p != e && self.eng[p].up && self.eng[p].slot.is_some() && self.eng[p].applied >= n)
            .next();
        if how == 0 && peer.is_some() {
            // state transfer: a copy of a peer's position, taken in the middle of whatever it does
            let p = peer.unwrap();
            self.hit("restart_state_transfer");
            self.note(format!("engine {e} restarts from engine {p}"));
            let s = self.slot_id();
            let src = self.eng[p].slot.unwrap();
            self.eop(e, Op::Clone(s, src))?;
            self.eng[e].slot = Some(s);
            self.eng[e].applied = self.eng[p].applied;
            self.eng[e].journal = self.log[..self.eng[p].applied].to_vec();
            self.eng[e].synced = self.eng[e].journal.len();
            let sn = self.eng[p].snaps.clone();
            self.eng[e].snaps = sn;
            self.follow(e)?;
        } else if how == 1 && !self.eng[e].snaps.is_empty() {
            self.hit("restart_from_snapshot");
            let (k, r) = self.rng.pick(&self.eng[e].snaps).clone();
            self.note(format!("engine {e} restarts from a snapshot at {k}"));
            let s = self.slot_id();
            self.eng[e].slot = Some(s);
            // forget other snapshots so that the base of the new position is unambiguous
            self.eng[e].snaps = vec![(k, r.clone())];
            self.eng[e].applied = k;
            self.eop(e, Op::New(s, r))?;
            self.eng[e].applied = n;
            self.follow(e)?;
        } else {
            self.hit("restart_replay_journal");
            self.note(format!("engine {e} restarts from its journal"));
            let t = if self.rng.chance(0.5) {
                Self::line(&self.log[..n])
            } else {
                vec![]
            };
            if t.is_empty() {
                // replay every entry, also those taken back
                self.rebuild(e, &[])?;
                let s = self.eng[e].slot.unwrap();
                for i in 0..n {
                    match self.eng[e].journal[i] {
                        Entry::Play(m) => {
                            self.eop(e, Op::Do(s, m))?;
                        }
                        Entry::Back(k) => {
                            for _ in 0..k {
                                self.eop(e, Op::Undo(s))?;
                            }
                        }
                    }
                }
            } else {
                self.rebuild(e, &t)?;
            }
        }
        let s = self.eng[e].slot.unwrap();
        self.eop(e, Op::Obs(s))?;
        let a = self.eng[e].applied;
        self.send(e, ARB, Msg::Fetch(e, a));
        Ok(())
    }

    fn handle(&mut self, ev: Ev) -> R<()> {
        match ev {
            Ev::Deliver(_, ARB, Msg::Propose(v, m)) => {
                if v == self.log.len() {
                    self.arbiter_move(Some(m))?;
                } else {
                    self.hit("late_message_ignored");
                }
            }
            Ev::Deliver(_, ARB, Msg::Fetch(e, from)) => {
                for i in from..self.log.len().min(from + 200) {
                    let m = Msg::Rec(i, self.log[i]);
                    self.send(ARB, e, m);
                }
            }
            Ev::Deliver(_, ARB, _) => {}
            Ev::Deliver(from, to, msg) => {
                if !self.eng[to].up {
                    if let Msg::Hand(s) = msg {
                        self.apply(Op::Drop(s))?;
                    }
                    return Ok(());
                }
                if self.eng[to].stalled_until > self.now {
                    let dt = self.eng[to].stalled_until - self.now;
                    self.at(dt, Ev::Deliver(from, to, msg));
                    return Ok(());
                }
                match msg {
                    Msg::Rec(i, en) => {
                        if i < self.eng[to].applied {
                            self.hit("late_message_ignored");
                        } else {
                            self.eng[to].inbox.insert(i, en);
                            self.deliver_records(to)?;
                        }
                    }
                    Msg::Beat(n) => {
                        let a = self.eng[to].applied;
                        if a < n {
                            self.send(to, ARB, Msg::Fetch(to, a));
                        } else if a == n && self.eng[to].search.is_none() {
                            self.deliver_records(to)?;
                        }
                    }
                    Msg::Hand(s) => {
                        let d = self.depth(s);
                        let floor = self.rng.below(d + 1);
                        self.adopt(to, s, floor)?;
                    }
                    _ => {}
                }
            }
            Ev::Step(e, id) => self.step(e, id)?,
            Ev::Helper(e, ep, c) => self.helper(e, ep, c)?,
            Ev::Tick(v) => {
                if v == self.version_tick {
                    // nobody answered in time: the arbiter plays
                    self.arbiter_move(None)?;
                }
            }
            Ev::Beat => {
                for e in 0..self.eng.len() {
                    let n = self.log.len();
                    self.send(ARB, e, Msg::Beat(n));
                }
                self.at(50_000, Ev::Beat);
            }
            Ev::Sync(e, ep, upto) => {
                if self.eng[e].up && self.eng[e].epoch == ep {
                    let u = upto.min(self.eng[e].journal.len());
                    self.eng[e].synced = self.eng[e].synced.max(u);
                }
            }
            Ev::Crash(e) => {
                if !self.quiet {
                    if self.eng[e].up {
                        // the process dies a few operations from now, in the middle of what it is doing
                        let n = self.rng.below(12) as u32;
                        self.eng[e].crash_after = Some(n);
                        if self.rng.chance(0.2) {
                            self.crash(e)?;
                        }
                    }
                    let dt = 40_000 + self.rng.below(400_000) as u64;
                    self.at(dt, Ev::Crash(e));
                }
            }
            Ev::Restart(e) => self.restart(e)?,
            Ev::Stall(e) => {
                if !self.quiet {
                    self.hit("stall");
                    let d = 5_000 + self.rng.below(600_000) as u64;
                    self.eng[e].stalled_until = self.now + d;
                    let dt = d + 50_000 + self.rng.below(800_000) as u64;
                    self.at(dt, Ev::Stall(e));
                }
            }
            Ev::Partition => {
                if !self.quiet {
                    self.hit("partition");
                    for i in 0..self.cut.len() {
                        self.cut[i] = self.rng.chance(0.5);
                    }
                    let dt = 20_000 + self.rng.below(400_000) as u64;
                    self.at(dt, Ev::Heal);
                }
            }
            Ev::Heal => {
                self.hit("heal");
                self.cut.iter_mut().for_each(|c| *c = false);
                let dt = 50_000 + self.rng.below(500_000) as u64;
                self.at(dt, Ev::Partition);
            }
        }
        Ok(())
    }

    fn owner_of(ev: &Ev) -> Option<usize> {
        match ev {
            Ev::Deliver(_, ARB, _) => None,
            Ev::Deliver(_, e, _) | Ev::Step(e, _) | Ev::Helper(e, _, _) | Ev::Restart(e) => Some(*e),
            _ => None,
        }
    }

    fn main(&mut self) -> R<()> {
        let t = format!("start {} {:?}", gen::KINDS[self.st.start_kind], self.cfg);
        self.note(t);
        self.apply(Op::New(0, self.start.clone()))?;
        self.apply(Op::Obs(0))?;
        for i in 0..self.cfg.marathon {
            match self.choose(0) {
                Some(m) => {
                    self.apply(Op::Do(0, m))?;
                    self.log.push(Entry::Play(m));
                }
                None => {
                    let k = self.depth(0).min(7);
                    if k == 0 {
                        break;
                    }
                    for _ in 0..k {
                        self.apply(Op::Undo(0))?;
                    }
                    self.log.push(Entry::Back(k));
                }
            }
            if i % 16 == 0 || self.rng.chance(0.03) {
                self.apply(Op::Obs(0))?;
            }
        }
        for e in 0..self.cfg.engines {
            let rate = if self.cfg.skew { *self.rng.pick(&[0.25, 0.8, 1.5, 6.0]) } else { 1.0 };
            self.eng.push(Engine {
                up: true,
                epoch: 0,
                slot: None,
                applied: 0,
                inbox: BTreeMap::new(),
                search: None,
                search_id: 0,
                helpers: vec![],
                idle: vec![],
                journal: vec![],
                synced: 0,
                snaps: vec![],
                stalled_until: 0,
                rate,
                crash_after: None,
            });
            self.cut.push(false);
            let s = self.slot_id();
            self.eng[e].slot = Some(s);
            if self.cfg.marathon > 0 {
                // engines join late, by state transfer from the arbiter
                self.apply(Op::Clone(s, 0))?;
                self.eng[e].applied = self.log.len();
                self.eng[e].journal = self.log.clone();
                self.eng[e].synced = self.log.len();
            } else {
                self.apply(Op::New(s, self.start.clone()))?;
            }
            if self.cfg.crash > 0.0 && self.rng.chance(self.cfg.crash) {
                let dt = 1_000 + self.rng.below(200_000) as u64;
                self.at(dt, Ev::Crash(e));
            }
            if self.cfg.stall > 0.0 && self.rng.chance(self.cfg.stall) {
                let dt = self.rng.below(300_000) as u64;
                self.at(dt, Ev::Stall(e));
            }
            let dt = self.rng.below(2_000) as u64;
            self.at(dt, Ev::Deliver(ARB, e, Msg::Beat(self.log.len())));
        }
        if self.cfg.partition > 0.0 && self.eng.len() > 1 {
            let dt = self.rng.below(300_000) as u64;
            self.at(dt, Ev::Partition);
        }
        self.at(50_000, Ev::Beat);
        self.version_tick = 1;
        self.at(self.cfg.deadline * 2 + 10_000, Ev::Tick(1));
        // at most 40 events per operation budget: idle stretches end too
        let mut events = 0usize;
        while let Some(Reverse((t, id))) = self.heap.pop() {
            events += 1;
            if self.ops >= self.cfg.max_ops || events > 40 * self.cfg.max_ops {
                break;
            }
            self.now = t;
            self.st.events += 1;
            let ev = self.evs.remove(&id).unwrap();
            let who = Self::owner_of(&ev);
            match self.handle(ev) {
                Ok(()) => {}
                Err(Halt::Crash) => {
                    if let Some(e) = who {
                        self.crash(e)?;
                    }
                }
                Err(Halt::Full) => break,
                Err(h) => return Err(h),
            }
        }
        self.finish()
    }

    /// Faults stop; everybody must agree; everything is taken back.
    fn finish(&mut self) -> R<()> {
        self.quiet = true;
        self.note("faults stop".into());
        let hands: Vec<usize> = self
            .evs
            .values()
            .filter_map(|e| if let Ev::Deliver(_, _, Msg::Hand(s)) = e { Some(*s) } else { None })
            .collect();
        for s in hands {
            self.apply(Op::Drop(s))?;
        }
        for e in 0..self.eng.len() {
            self.eng[e].crash_after = None;
            if !self.eng[e].up {
                self.restart(e)?;
            }
            for h in std::mem::take(&mut self.eng[e].helpers) {
                self.unwind(e, h.slot, h.floor)?;
                self.apply(Op::Obs(h.slot))?;
                self.apply(Op::Drop(h.slot))?;
            }
            self.eng[e].applied = self.log.len();
            self.follow(e)?;
            let s = self.eng[e].slot.unwrap();
            self.apply(Op::Obs(s))?;
            assert!(self.ex.slots[&s].cur() == self.ex.slots[&0].cur(), "replicas disagree on the record");
        }
        self.apply(Op::Obs(0))?;
        // take back everything, everywhere
        let mut all: Vec<usize> = self.ex.slots.keys().copied().collect();
        all.sort();
        for s in all {
            let d = self.depth(s);
            let mut i = 0;
            while self.depth(s) > 0 {
                if !self.apply(Op::Undo(s))? {
                    break;
                }
                i += 1;
                if i % (1 + d / 8) == 0 {
                    self.apply(Op::Obs(s))?;
                }
            }
            self.apply(Op::Obs(s))?;
        }
        Ok(())
    }
}
