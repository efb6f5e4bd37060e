//! Executes scripts of calls on the library inside Miri (C19; C18 on other processors), or natively for comparison.
//!
//!   ymiri ALONE|COLD-n|WARM-n|LATE-n SCRIPT...      operations of a script are separated by ';'
//!
//!   ymiri SHORT SEED FROM STEP COUNT        prints scripts of legal moves
//!
//! ALONE: one script after the other. COLD: dealt to n threads, which are the first to use the library. WARM: the
//! same after the first use, and all threads also ask one shared position. LATE: like COLD, one thread after the
//! other, with nothing that orders their memory.
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use yasai::Position;
use ysim::abuse::abuse;
use ysim::obs::{observe, partial, to_move};
use ysim::prng::{mix, Rng};
use ysim::refmodel::{Mv, Ref};
use ysim::script::Op;

struct Slot {
    pos: Position,
    start: Ref,
    moves: Vec<Mv>,
}

fn look(p: &Position) -> u64 {
    let o = observe(p);
    let mut x = mix(o.order.0 ^ o.key ^ mix(o.keys.0) ^ o.keys.1.rotate_left(1) ^ (o.ply as u64) << 8 ^ o.side as u64 ^ (o.in_check as u64) << 1);
    for i in 0..81 {
        x = mix(x ^ o.bd[i] as u8 as u64);
    }
    for s in 0..2 {
        for k in 1..8 {
            x = mix(x ^ o.hands[s][k] as u64);
        }
    }
    for (m, c) in o.legal.iter().zip(&o.checks) {
        x = mix(x ^ (m.from as u64) << 16 ^ (m.to as u64) << 8 ^ (m.promote as u64) << 1 ^ *c as u64);
    }
    x
}

fn run(k: usize, script: &str, tell: bool) -> u64 {
    let mut slots: HashMap<usize, Slot> = HashMap::new();
    let mut sum = 0u64;
    for (i, l) in script.split(';').enumerate() {
        let op = Op::parse(l.trim()).unwrap_or_else(|| {
            println!("cannot parse: {l}");
            std::process::exit(2)
        });
        if tell {
            println!("OP {k} {i}");
        }
        let r = catch_unwind(AssertUnwindSafe(|| -> u64 {
            match &op {
                Op::New(s, r) => {
                    let pos = if *s % 2 == 1 && *r == Ref::startpos() { Position::default() } else { Position::new(partial(r)) };
                    slots.insert(*s, Slot { pos, start: r.clone(), moves: vec![] });
                    1
                }
                Op::Do(s, m) => match slots.get_mut(s) {
                    Some(sl) => {
                        let side = (sl.start.side + sl.moves.len()) % 2;
                        sl.moves.push(*m);
                        sl.pos.do_move(to_move(*m, side));
                        2
                    }
                    None => 0,
                },
                Op::Undo(s) => match slots.get_mut(s) {
                    Some(sl) if !sl.moves.is_empty() => {
                        let m = sl.moves.pop().unwrap();
                        let side = (sl.start.side + sl.moves.len()) % 2;
                        sl.pos.undo_move(to_move(m, side));
                        3
                    }
                    _ => 0,
                },
                Op::Clone(d, s) => match slots.get(s) {
                    Some(sl) if d != s => {
                        let (start, moves) = (sl.start.clone(), sl.moves.clone());
                        let pos = match slots.remove(d) {
                            Some(mut old) => {
                                old.pos.clone_from(&slots[s].pos);
                                old.pos
                            }
                            None => slots[s].pos.clone(),
                        };
                        slots.insert(*d, Slot { pos, start, moves });
                        4
                    }
                    _ => 0,
                },
                Op::Drop(s) => slots.remove(s).is_some() as u64,
                Op::Obs(s) => slots.get(s).map_or(0, |sl| look(&sl.pos)),
                Op::Abuse(s, seed, n) => slots.get(s).map_or(0, |sl| abuse(sl.pos.clone(), &mut Rng::new(*seed), *n)),
                _ => 0,
            }
        }));
        sum = mix(sum ^ r.unwrap_or(77));
        if tell {
            println!("LOG {k} {i} {l}: {sum:016x}");
        }
    }
    sum
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "SHORT" {
        let n = |i: usize| a[i].parse::<u64>().unwrap();
        ysim::cli::short(n(2), n(3), n(4), n(5), true).iter().for_each(|l| println!("{l}"));
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (how, n) = a[1].split_once('-').unwrap_or((&a[1], "1"));
    let n: usize = n.parse().unwrap();
    let scripts = Arc::new(a[2..].to_vec());
    if how == "ALONE" {
        for (k, s) in scripts.iter().enumerate() {
            let d = run(k, s, true);
            println!("DIGEST {k} {d:016x}");
        }
        return;
    }
    let shared = if how == "WARM" {
        let first = scripts.first().and_then(|s| Op::parse(s.split(';').next().unwrap().trim()));
        first.and_then(|op| match op {
            Op::New(_, r) => Some(Arc::new(Position::new(partial(&r)))),
            _ => None,
        })
    } else {
        None
    };
    // LATE: a thread begins when the one before it has something behind it, but nothing orders their memory
    static BEGUN: AtomicUsize = AtomicUsize::new(0);
    let late = how == "LATE";
    let ts: Vec<_> = (0..n)
        .map(|t| {
            let (scripts, shared) = (scripts.clone(), shared.clone());
            std::thread::spawn(move || {
                let ask = || shared.as_ref().map_or(0, |p| catch_unwind(AssertUnwindSafe(|| look(p))).unwrap_or(77));
                let mut out = vec![];
                while late && BEGUN.load(Relaxed) < t {
                    std::thread::yield_now();
                }
                let before = ask();
                for k in (t..scripts.len()).step_by(n) {
                    out.push((k, run(k, &scripts[k], false)));
                    println!("DIGEST {k} {:016x}", out.last().unwrap().1);
                    BEGUN.fetch_max(t + 1, Relaxed);
                }
                BEGUN.fetch_max(t + 1, Relaxed);
                if before != ask() {
                    println!("SHARED changed");
                }
            })
        })
        .collect();
    for t in ts {
        let _ = t.join();
    }
    println!("DONE");
}
