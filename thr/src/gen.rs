//! Seeded scenarios.
use crate::scen::*;
use std::collections::BTreeMap;
use ysim::prng::{mix, Rng};
use ysim::refmodel::*;

/// How often a scenario has many threads.
const CROWDS: f64 = 0.04;

struct Gen<'a> {
    rng: &'a mut Rng,
    chan: usize,
    pool: Vec<Ref>,
    theme: Option<usize>,
}

fn log_uniform(rng: &mut Rng, lo: f64, hi: f64) -> u64 {
    let u = rng.below(1_000_000) as f64 / 1_000_000.0;
    (lo.ln() + u * (hi / lo).ln()).exp() as u64
}

fn mask(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0..=2 => 127,
        3 => 32 | 16,
        4 => 8,
        5 => 16,
        6 => 64,
        _ => rng.range(1, 127) as u32,
    }
}

impl Gen<'_> {
    fn start(&mut self) -> Ref {
        if !self.pool.is_empty() && self.rng.chance(0.4) {
            let i = self.rng.below(self.pool.len());
            return self.pool[i].clone();
        }
        let r = match self.theme {
            // everybody in the same rare situation
            Some(w) if self.rng.chance(0.8) => loop {
                // a mating pawn drop next to one that is not
                let w = if w < 2 { self.rng.below(2) } else { w };
                if let Some(r) = ysim::gen::featured(self.rng, w) {
                    break r;
                }
            },
            _ if self.rng.chance(0.35) => Ref::startpos(),
            _ => ysim::gen::start(self.rng).1,
        };
        self.pool.push(r.clone());
        r
    }
    fn live(m: &BTreeMap<usize, Line>, rng: &mut Rng) -> Option<usize> {
        if m.is_empty() {
            return None;
        }
        let k: Vec<usize> = m.keys().copied().collect();
        Some(*rng.pick(&k))
    }
    /// A program of about n operations. `shared`: what the main thread published.
    fn program(&mut self, n: usize, shared: &[usize], inbox: &mut Vec<usize>, outbox: &mut Vec<usize>, bad: f64) -> Vec<Op> {
        let mut v = vec![];
        let mut slots: BTreeMap<usize, Line> = BTreeMap::new();
        let mut fresh = 0;
        for _ in 0..n {
            let k = self.rng.below(100);
            let s = Self::live(&slots, self.rng);
            if s.is_none() || k < 8 {
                if !shared.is_empty() && self.rng.chance(0.5) {
                    let c = *self.rng.pick(shared);
                    if self.rng.chance(0.7) {
                        v.push(Op::SharedAsk(c, mask(self.rng)));
                        continue;
                    }
                    v.push(Op::SharedClone(fresh, c));
                    // its contents are unknown here: only queries and clones follow
                    v.push(Op::Ask(fresh, mask(self.rng)));
                    v.push(Op::Drop(fresh));
                    fresh += 1;
                    continue;
                }
                if !inbox.is_empty() && self.rng.chance(0.3) {
                    let c = inbox.swap_remove(self.rng.below(inbox.len()));
                    v.push(Op::Recv(fresh, c));
                    v.push(Op::Ask(fresh, mask(self.rng)));
                    if self.rng.chance(0.5) {
                        v.push(Op::Drop(fresh));
                    }
                    fresh += 1;
                    continue;
                }
                let r = self.start();
                let sf = r.to_sfen();
                v.push(Op::New(fresh, sf.clone()));
                slots.insert(fresh, Line::new(&sf).unwrap());
                fresh += 1;
                continue;
            }
            let s = s.unwrap();
            if self.rng.chance(bad) {
                let l = slots.remove(&s).unwrap();
                let (how, m) = nonsense(self.rng, &l.cur);
                if self.rng.chance(0.5) {
                    v.push(Op::Clone(fresh, s));
                    slots.insert(fresh, l);
                    fresh += 1;
                }
                v.push(Op::Bad(s, how, m));
                continue;
            }
            match k {
                8..=39 => {
                    let cur = slots[&s].cur.clone();
                    match legal_move(self.rng, &cur) {
                        Some(m) => {
                            slots.get_mut(&s).unwrap().apply(m);
                            v.push(Op::Do(s, m));
                        }
                        None => v.push(Op::Ask(s, 127)),
                    }
                }
                40..=53 => {
                    let l = slots.get_mut(&s).unwrap();
                    if let Some(m) = l.stack.last().map(|x| x.1) {
                        l.back(m);
                        v.push(Op::Undo(s, m));
                    } else {
                        v.push(Op::Ask(s, mask(self.rng)));
                    }
                }
                54..=60 => {
                    let l = slots[&s].clone();
                    let others: Vec<usize> = slots.keys().copied().filter(|x| *x != s).collect();
                    if !others.is_empty() && self.rng.chance(0.3) {
                        let d = *self.rng.pick(&others);
                        v.push(Op::Clone(d, s));
                        slots.insert(d, l);
                        continue;
                    }
                    v.push(Op::Clone(fresh, s));
                    slots.insert(fresh, l);
                    fresh += 1;
                }
                61..=64 => {
                    slots.remove(&s);
                    v.push(Op::Drop(s));
                }
                65..=69 if !outbox.is_empty() => {
                    let c = outbox.swap_remove(0);
                    slots.remove(&s);
                    v.push(Op::Send(s, c));
                }
                _ => v.push(Op::Ask(s, mask(self.rng))),
            }
        }
        for s in slots.keys() {
            if self.rng.chance(0.5) {
                v.push(Op::Ask(*s, 127));
            }
        }
        v
    }
    fn schedule(&mut self, e: &mut Env, steps: f64) {
        e.seed = self.rng.next() >> 1;
        match self.rng.below(14) {
            10..=13 => {
                e.mode = 5;
                e.atomic_p = *self.rng.pick(&[0.1, 0.3, 0.6, 0.9]);
            }
            0..=3 => {
                e.mode = 0;
                e.mean = log_uniform(self.rng, 4.0, 40_000.0) as f64;
            }
            4..=5 => {
                e.mode = 1;
                let n = self.rng.range(1, 6);
                for _ in 0..n {
                    e.pct.push(if self.rng.chance(0.5) {
                        log_uniform(self.rng, 5.0, steps)
                    } else {
                        self.rng.range(1, steps as usize) as u64
                    });
                }
            }
            6..=8 => {
                e.mode = 2;
                e.atomic_p = *self.rng.pick(&[0.05, 0.2, 0.5, 0.9]);
            }
            _ => e.mode = 4,
        }
        if self.rng.chance(0.4) {
            e.spurious = *self.rng.pick(&[0.1, 0.5]);
        }
    }
    fn stalls(&mut self, ths: &mut [Vec<Op>], n: usize, reach: f64, dur: f64) {
        for _ in 0..n {
            let t = self.rng.below(ths.len());
            let at = self.rng.below(ths[t].len().max(1));
            let op = Op::Fault(Fault::Stall, log_uniform(self.rng, 1.0, reach), log_uniform(self.rng, 10.0, dur));
            ths[t].insert(at.min(ths[t].len()), op);
        }
    }
    /// The clock leaps: everybody was suspended for a while, or the wall clock is set back.
    fn leaps(&mut self, e: &mut Env, ths: &mut [Vec<Op>], reach: f64) {
        if self.rng.chance(0.5) {
            e.host = self.rng.next() >> 8 | 1;
        }
        if self.rng.chance(0.25) {
            e.rate = *self.rng.pick(&[1, 100, 1000, 100_000, 1_000_000]);
        }
        if self.rng.chance(0.2) {
            for _ in 0..self.rng.range(1, 3) {
                let t = self.rng.below(ths.len());
                let at = self.rng.below(ths[t].len().max(1));
                let d = log_uniform(self.rng, 1e5, 1e13);
                let op = Op::Fault(Fault::Leap, log_uniform(self.rng, 1.0, reach), d);
                ths[t].insert(at.min(ths[t].len()), op);
            }
        }
    }
    /// How many threads in a crowd: beyond the sizes that fixed tables of per-thread places, hints and
    /// bit sets are given.
    fn crowd(&mut self) -> usize {
        *self.rng.pick(&[9, 12, 17, 17, 20, 33, 34, 40, 65, 66])
    }
    /// threads that ask about the same few positions over and over
    fn hammer(&mut self, k: usize, most: usize) -> Vec<Vec<Op>> {
        let mut ths = vec![];
        let n = self.rng.range(1, 3);
        let all: Vec<Ref> = (0..n).map(|_| self.start()).collect();
        let what = *self.rng.pick(&[64, 64, 127, 8 | 16, 32 | 64, 4 | 8 | 16 | 32]);
        for _ in 0..k {
            let mut v = vec![];
            let mut held: Vec<Line> = vec![];
            for i in 0..self.rng.range(1, 2) {
                let sf = self.rng.pick(&all).to_sfen();
                v.push(Op::New(i, sf.clone()));
                held.push(Line::new(&sf).unwrap());
            }
            for _ in 0..self.rng.range(most.min(4), most) {
                let i = self.rng.below(held.len());
                if self.rng.chance(0.15) {
                    if let Some(m) = legal_move(self.rng, &held[i].cur) {
                        v.push(Op::Do(i, m));
                        if self.rng.chance(0.7) {
                            v.push(Op::Ask(i, what));
                        }
                        v.push(Op::Undo(i, m));
                        continue;
                    }
                }
                v.push(Op::Ask(i, if self.rng.chance(0.85) { what } else { mask(self.rng) }));
            }
            ths.push(v);
        }
        ths
    }
    /// threads with channels between them
    fn crew(&mut self, k: usize, lo: usize, hi: usize, shared: &[usize], bad: f64) -> Vec<Vec<Op>> {
        let mut ths = vec![];
        let mut open: Vec<usize> = vec![];
        for _ in 0..k {
            let n = self.rng.range(lo, hi);
            let mut out: Vec<usize> = vec![];
            for _ in 0..3 {
                self.chan += 1;
                out.push(self.chan % 250);
            }
            let all = out.clone();
            let p = self.program(n, shared, &mut open, &mut out, bad);
            open.extend(all.iter().filter(|c| !out.contains(c)));
            ths.push(p);
        }
        // the order of the threads is not the order in which positions flow
        self.rng.shuffle(&mut ths);
        ths
    }
}

pub fn scenario(prop: &str, seed: u64, run: u64) -> Scen {
    let mut rng = Rng::new(mix(mix(seed) ^ mix(run ^ mix(prop.as_bytes()[2] as u64 + 256 * prop.as_bytes()[1] as u64))));
    let mut g = Gen { rng: &mut rng, chan: 0, pool: vec![], theme: None };
    if g.rng.chance(0.4) {
        g.theme = Some(g.rng.below(5));
    }
    let mut sc = Scen { prop: prop.into(), procs: vec![] };
    match prop {
        "C09" => {
            let mut e = Env::canonical();
            g.schedule(&mut e, 200_000.0);
            let crowd = g.rng.chance(CROWDS);
            let k = if crowd { g.crowd() } else { *g.rng.pick(&[2, 2, 2, 3, 3, 4, 6]) };
            let mut ths = vec![];
            let same = g.rng.chance(0.3);
            for _ in 0..k {
                let n = if crowd { g.rng.range(1, 2) } else { g.rng.range(1, 5) };
                let mut p = g.program(n, &[], &mut vec![], &mut vec![], 0.0);
                if same {
                    g.pool.truncate(1);
                }
                if g.rng.chance(0.3) {
                    p.push(Op::Ask(0, 127));
                }
                ths.push(p);
            }
            if g.rng.chance(0.5) {
                let n = g.rng.range(1, 3);
                g.stalls(&mut ths, n, 300_000.0, 1_000_000.0);
            }
            g.leaps(&mut e, &mut ths, 300_000.0);
            sc.procs.push(Proc { env: e, main: vec![], threads: ths, decs: vec![] });
        }
        "C10" | "C11" => {
            let c11 = prop == "C11";
            let mut e = Env::canonical();
            g.schedule(&mut e, 60_000.0);
            let stop = c11 && g.rng.chance(0.6);
            e.warm = if stop {
                2
            } else if g.rng.chance(0.85) {
                1
            } else {
                0
            };
            let mut main = vec![];
            let mut shared = vec![];
            for i in 0..g.rng.below(3) {
                let r = g.start();
                let sf = r.to_sfen();
                let mut l = Line::new(&sf).unwrap();
                main.push(Op::New(i, sf));
                for _ in 0..g.rng.below(4) {
                    if let Some(m) = legal_move(g.rng, &l.cur) {
                        l.apply(m);
                        main.push(Op::Do(i, m));
                    }
                }
                main.push(Op::Share(i, i));
                shared.push(i);
            }
            let crowd = g.rng.chance(CROWDS);
            let k = if crowd { g.crowd() } else { *g.rng.pick(&[2, 2, 3, 3, 4, 5]) };
            let bad = if c11 { *g.rng.pick(&[0.0, 0.1, 0.25]) } else { 0.0 };
            let mut ths = if g.rng.chance(0.35) {
                g.hammer(k, if crowd { 3 } else { 18 })
            } else if crowd {
                g.crew(k, 1, 3, &shared, bad)
            } else {
                g.crew(k, 3, 14, &shared, bad)
            };
            if g.rng.chance(0.4) {
                let n = g.rng.range(1, 3);
                g.stalls(&mut ths, n, 5_000.0, 200_000.0);
            }
            g.leaps(&mut e, &mut ths, 5_000.0);
            if c11 {
                let mut did = stop || bad > 0.0;
                if stop {
                    for _ in 0..g.rng.range(1, 2) {
                        let t = g.rng.below(ths.len());
                        let at = g.rng.below(ths[t].len().max(1));
                        let n = log_uniform(g.rng, 1.0, 4_000.0);
                        let at = at.min(ths[t].len());
                        ths[t].insert(at, Op::Fault(Fault::Stop, n, 0));
                    }
                }
                if !did || g.rng.chance(0.4) {
                    // a thread that ends by a panic
                    let t = g.rng.below(ths.len());
                    let cands: Vec<(usize, usize, String)> = ths[t]
                        .iter()
                        .enumerate()
                        .filter_map(|(i, o)| if let Op::New(s, f) = o { Some((i, *s, f.clone())) } else { None })
                        .collect();
                    if !cands.is_empty() {
                        let (i, s, f) = g.rng.pick(&cands).clone();
                        let (how, m) = nonsense(g.rng, &Ref::from_sfen(&f).unwrap());
                        ths[t].insert(i + 1, Op::Die(s, how, m));
                        did = true;
                    }
                }
                let _ = did;
            }
            sc.procs.push(Proc { env: e, main, threads: ths, decs: vec![] });
        }
        _ => {
            // C12: a game, kept as a journal and as snapshots; incarnations of the process
            let start = g.start();
            let mut l = Line::new(&start.to_sfen()).unwrap();
            let n = g.rng.range(0, 30);
            let mut states = vec![l.cur.clone()];
            for _ in 0..n {
                match legal_move(g.rng, &l.cur) {
                    Some(m) => {
                        l.apply(m);
                        states.push(l.cur.clone());
                    }
                    None => break,
                }
            }
            let moves: Vec<Move_> = l.trace.iter().map(|x| x.1).collect();
            let k = g.rng.range(2, 3);
            for inc in 0..k {
                let last = inc + 1 == k;
                let mut e = Env::canonical();
                g.schedule(&mut e, 60_000.0);
                e.entropy = g.rng.next();
                e.clock = g.rng.next() >> 3;
                e.rate = *g.rng.pick(&[1, 7, 100, 1000, 1_000_000]);
                e.pid = g.rng.range(2, 4_000_000) as u32;
                e.pad = g.rng.below(1 << 20) + 1;
                e.warm = g.rng.below(2) as u32;
                let threads = *g.rng.pick(&[1, 1, 2, 3]);
                let mut ths = vec![];
                for t in 0..threads {
                    let mut v = vec![];
                    if g.rng.chance(0.6) {
                        // something unrelated first
                        let c = g.rng.range(1, 6);
                        v = g.program(c, &[], &mut vec![], &mut vec![], 0.0);
                        // renumber away from the slots used below
                        v = v.into_iter().map(|o| shift(o, 50)).collect();
                    }
                    if t == 0 || g.rng.chance(0.6) {
                        if g.rng.chance(0.6) {
                            // from the journal
                            v.push(Op::New(0, start.to_sfen()));
                            for (i, m) in moves.iter().enumerate() {
                                if g.rng.chance(0.15) {
                                    v.push(Op::Ask(0, mask(g.rng)));
                                }
                                if g.rng.chance(0.1) {
                                    // a search that is taken back
                                    if let Some(x) = legal_move(g.rng, &states[i]) {
                                        v.push(Op::Do(0, x));
                                        v.push(Op::Ask(0, mask(g.rng)));
                                        v.push(Op::Undo(0, x));
                                    }
                                }
                                v.push(Op::Do(0, *m));
                            }
                        } else {
                            let i = g.rng.below(states.len());
                            v.push(Op::New(0, states[i].to_sfen()));
                            for m in &moves[i..] {
                                v.push(Op::Do(0, *m));
                            }
                        }
                        v.push(Op::Ask(0, 127));
                        if let Some(x) = legal_move(g.rng, states.last().unwrap()) {
                            v.push(Op::Do(0, x));
                            v.push(Op::Ask(0, 127));
                        }
                    }
                    ths.push(v);
                }
                if !last {
                    let t = g.rng.below(ths.len());
                    if ths[t].is_empty() {
                        ths[t].push(Op::New(0, start.to_sfen()));
                    }
                    let at = g.rng.below(ths[t].len());
                    let f = if g.rng.chance(0.35) {
                        Op::Fault(Fault::Oom, g.rng.range(1, 3) as u64, 0)
                    } else {
                        let reach = if at == 0 && e.warm == 0 { 300_000.0 } else { 3_000.0 };
                        Op::Fault(Fault::Crash, log_uniform(g.rng, 1.0, reach), 0)
                    };
                    ths[t].insert(at, f);
                }
                if g.rng.chance(0.3) {
                    g.stalls(&mut ths, 1, 5_000.0, 100_000.0);
                }
                let rate = e.rate;
                g.leaps(&mut e, &mut ths, 5_000.0);
                e.rate = rate;
                sc.procs.push(Proc { env: e, main: vec![], threads: ths, decs: vec![] });
            }
        }
    }
    sc
}

type Move_ = shogi_core::Move;

fn shift(o: Op, n: usize) -> Op {
    match o {
        Op::New(s, x) => Op::New(s + n, x),
        Op::Do(s, m) => Op::Do(s + n, m),
        Op::Undo(s, m) => Op::Undo(s + n, m),
        Op::Clone(d, s) => Op::Clone(d + n, s + n),
        Op::Drop(s) => Op::Drop(s + n),
        Op::Ask(s, k) => Op::Ask(s + n, k),
        o => o,
    }
}
