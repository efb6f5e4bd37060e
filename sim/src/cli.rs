//! The command line of the simulator: run seeds, replay scripts.
use crate::host::{self, say};
use crate::prng::mix;
use crate::refmodel::Ref;
use crate::script::*;
use crate::{abuse, keys, memory, session, twins};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map_or(d, |s| s.parse().expect(k))
}

fn run_seed(seed: u64, i: u64) -> u64 {
    mix(mix(seed) ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

/// Executes a script made beforehand.
fn play(ex: &mut Exec, script: &mut Vec<Op>, ops: Vec<Op>) -> Result<(), Violation> {
    ex.reset_run();
    script.clear();
    for op in ops {
        if let Some(t) = &mut ex.trace {
            let _ = writeln!(t, "{}", op.to_line());
        }
        let x = ex.exec(&op);
        script.push(op);
        match x {
            // after a panic that is of no interest here objects may still be used: of interest to C19
            Err(v) if v.class == "skip" && !ex.props.has(19) => return Ok(()),
            Err(v) if v.class != "skip" => return Err(v),
            _ => {}
        }
    }
    Ok(())
}

/// One run: a session, or a script made beforehand.
fn one(ex: &mut Exec, seed: u64, i: u64, thorough: bool, script: &mut Vec<Op>) -> (Option<session::Run>, Result<(), Violation>) {
    ex.run_no = i;
    let s = run_seed(seed, i);
    let at = i % 4096;
    let ops = if ex.doubles() {
        // once per build: more threads, or failing calls, than a 16-bit count can tell
        (at == 24).then(|| {
            let eleven = ex.props.has(11);
            let mut v = some_start(s, |x| if eleven { Op::Fail(0, x, 66_000) } else { Op::Throng(0, x, 66_000) });
            v.extend([Op::Obs(0), Op::Throng(0, s, 20), Op::Grind(0, s, 500)]);
            v
        })
    } else if ex.props.has(14) && i % 2 == 1 && at != 27 || ex.props.has(17) && i % 4 == 1 && !matches!(at, 21 | 25) {
        Some(memory::churn_script(s, thorough, matches!(at, 13 | 19 | 23)))
    } else if ex.props.has(19) && i % 2 == 1 && !matches!(at, 21 | 25) {
        Some(abuse::script(s, true))
    } else if ex.props.has(4) && i < 2 {
        // once per build of the library
        Some(keys::hunt(s).map_or(vec![], |(a, b)| vec![Op::New(1, a), Op::New(2, b)]))
    } else if matches!(at, 20 | 21 | 22) && !ex.props.has(13) {
        Some(if at == 20 { twins::close_script(s) } else { twins::script(s) })
    } else if matches!(at, 24 | 25) {
        // once per build: the longest history there is, and more clones than a 16-bit count can tell
        let mut rng = crate::prng::Rng::new(s);
        let mut start = Ref::startpos();
        if i % 8192 > 4096 {
            start = crate::gen::start(&mut rng).1;
            start.ply = 1;
        }
        let x = rng.next();
        Some(vec![Op::New(0, start), if at == 24 { Op::Deep(0, x, 65_534) } else { Op::Herd(0, x, 66_500) }])
    } else if matches!(at, 26 | 27) {
        // clones of clones of clones, and threads
        Some(some_start(s, |x| if at == 26 { Op::Relay(0, x, 140_000) } else { Op::Throng(0, x, 66_000) }))
    } else if matches!(at, 11 | 12) && !ex.props.has(19) {
        // once per build: more than 2^24 moves on one object
        let mut rng = crate::prng::Rng::new(s);
        let (_, start) = crate::gen::start(&mut rng);
        Some(vec![Op::New(0, start), Op::Grind(0, rng.next(), 17_000_000)])
    } else {
        None
    };
    let (st, mut r) = match ops {
        Some(ops) => (None, play(ex, script, ops)),
        None => {
            let (st, r) = session::run(s, ex, script);
            (Some(st), r)
        }
    };
    if ex.doubles() && r.is_ok() {
        r = again(ex, script);
    }
    if ex.props.has(14) && r.is_ok() {
        r = ex.memory_end();
        if matches!(&r, Err(v) if v.class == "skip") {
            r = Ok(());
        }
    }
    if ex.props.has(17) && r.is_ok() {
        r = ex.ask_bank();
    }
    (st, r)
}

fn some_start(s: u64, f: impl FnOnce(u64) -> Op) -> Vec<Op> {
    let mut rng = crate::prng::Rng::new(s);
    let (_, start) = crate::gen::start(&mut rng);
    vec![Op::New(0, start), f(rng.next())]
}

/// C10, C11: the same calls once more, by one thread, without those that fail; they have to answer the same.
fn again(ex: &mut Exec, script: &[Op]) -> Result<(), Violation> {
    let seen = std::mem::take(&mut ex.trail);
    ex.alone = true;
    let r = play(ex, &mut vec![], script.to_vec());
    ex.alone = false;
    r?;
    let ops = || script.iter().filter(|o| !o.unseen());
    match (0..seen.len().max(ex.trail.len())).find(|i| seen.get(*i) != ex.trail.get(*i)) {
        None => Ok(()),
        Some(i) => bad(
            if ex.props.has(11) { "disturbed" } else { "thread-differs" },
            format!("from operation {i} on, `{}`, there were other answers than in one thread alone, without failing calls", ops().nth(i).map_or("the end".into(), |o| o.to_line())),
        ),
    }
}

pub fn short(seed: u64, from: u64, step: u64, count: u64, tame: bool) -> Vec<String> {
    let line = |k| abuse::short_script(run_seed(seed, from + k * step), tame).iter().map(|o| o.to_line()).collect::<Vec<_>>().join(";");
    (0..count).map(line).collect()
}

fn print_script(script: &[Op]) {
    say!("BEGIN-SCRIPT");
    for op in script {
        say!("{}", op.to_line());
    }
    say!("END-SCRIPT");
}

/// Returns the exit status.
pub fn main(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        // a panic of the harness itself must be visible; those of the library are caught
        if i.location().map_or(false, |l| l.file().starts_with("src/") && host::noisy()) {
            host::complain!("{i}");
        }
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => return run(a),
        Some("exec") => return exec(a),
        // scripts for miri/
        Some("short") => {
            let tame = a.iter().any(|x| x == "--tame");
            for l in short(num(a, "--seed", 1), num(a, "--from", 0), num(a, "--step", 1), num(a, "--count", 1), tame) {
                say!("{l}");
            }
        }
        Some("perft") => {
            let d: usize = a[2].parse().unwrap();
            let r = Ref::startpos();
            let mut total = 0;
            for m in r.legal() {
                let n = if d <= 1 { 1 } else { r.after(m).perft(d - 1) };
                say!("{}: {n}", m.usi());
                total += n;
            }
            say!("total {total}");
        }
        Some("union") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                if let Ok(b) = host::read(f) {
                    v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            v.sort_unstable();
            v.dedup();
            say!("{}", v.len());
        }
        _ => {
            host::complain!("usage: ysim run|exec|perft|union ...");
            return 2;
        }
    }
    0
}

fn run(a: &[String]) -> i32 {
    let props = Props::parse(&arg(a, "--prop").unwrap()).unwrap();
    let seed = num(a, "--seed", 1);
    let (from, step) = (num(a, "--from", 0), num(a, "--step", 1));
    let count = num(a, "--count", u64::MAX);
    let ms = num(a, "--ms", u64::MAX);
    let thorough = a.iter().any(|x| x == "--thorough");
    let digest = a.iter().any(|x| x == "--digest");
    let t0 = host::now_ms();
    let mut ex = Exec::new(props);
    if props.has(14) {
        memory::warm_up();
    }
    if props.has(4) {
        ex.glob = Some(Default::default());
    }
    open_meter(&mut ex);
    if let Some(t) = arg(a, "--trace") {
        ex.trace = Some(host::create(&t));
    }
    if a.iter().any(|x| x == "--log") {
        ex.log = Some(vec![]);
    }
    let mut script = vec![];
    let mut faults = [0u64; 23];
    let mut kinds = [0u64; 9];
    let (mut runs, mut faulty, mut sim_us, mut events, mut incidents, mut churns) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut i = from;
    let mut n = 0;
    let mut code = 0;
    let mut sample = vec![];
    while n < count && (host::now_ms() - t0) < ms {
        say!("RUN {i}");
        let (st, r) = one(&mut ex, seed, i, thorough, &mut script);
        runs += 1;
        match st {
            Some(st) => {
                for k in 0..23 {
                    faults[k] += st.faults[k];
                }
                kinds[st.start_kind] += 1;
                faulty += st.faulty as u64;
                sim_us += st.sim_us;
                events += st.events;
                incidents += st.incidents;
            }
            None => churns += 1,
        }
        if digest {
            say!("DIGEST {i} {:016x}", ex.digest);
        }
        if let Some(l) = &mut ex.log {
            for x in l.drain(..) {
                say!("LOG {x}");
            }
        }
        if let Err(v) = r {
            say!("VIOLATION {} {}", v.class, v.detail);
            if let Some(o) = v.other {
                // the partner's operations come first
                let mut s2 = vec![];
                ex.glob = None;
                let mut ex2 = Exec::new(props);
                let _ = one(&mut ex2, seed, o, thorough, &mut s2);
                s2.extend(script.iter().cloned());
                script = s2;
            }
            print_script(&script);
            code = 1;
            break;
        }
        if sample.is_empty() || (sample.len() < 3 && script.len() < 40) {
            sample.push(format!("run {i}: {}", script.iter().take(14).map(|o| o.to_line()).collect::<Vec<_>>().join(" | ")));
        }
        if a.iter().any(|x| x == "--script") {
            print_script(&script);
        }
        i += step;
        n += 1;
    }
    if let Some(f) = arg(a, "--distinct") {
        let v: Vec<u8> = ex.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        host::create(&f).write_all(&v).unwrap();
    }
    let map = |names: &[&str], v: &[u64]| {
        let s: Vec<String> = names.iter().zip(v).map(|(n, x)| format!("\"{n}\":{x}")).collect();
        format!("{{{}}}", s.join(","))
    };
    let esc: Vec<String> = sample.iter().map(|s| format!("\"{}\"", s.replace('\\', "/").replace('"', "'"))).collect();
    ex.reset_run();
    let left = memory::held();
    say!(
        "STATS {{\"runs\":{runs},\"faulty_runs\":{faulty},\"churn_runs\":{churns},\"sim_us\":{sim_us},\"events\":{events},\"incidents\":{incidents},\"ops\":{},\"judged\":{},\"observations\":{},\"distinct\":{},\"wall_ms\":{},\"peak_held\":{},\"left_held\":{},\"peak_price_percent\":{},\"faults\":{},\"starts\":{},\"probes\":{},\"samples\":[{}]}}",
        ex.applied,
        ex.judged,
        ex.full_obs,
        ex.distinct.len(),
        host::now_ms() - t0,
        memory::peak(),
        left,
        ex.bank.worst,
        map(&session::FAULTS, &faults),
        map(&crate::gen::KINDS, &kinds),
        map(&PROBES, &ex.probes),
        esc.join(",")
    );
    code
}

#[cfg(feature = "meter")]
fn open_meter(ex: &mut Exec) {
    extern "C" {
        static mut ymeter: u64;
    }
    crate::price::METER.store(&raw mut ymeter, std::sync::atomic::Ordering::Relaxed);
    ex.open_bank();
}
#[cfg(not(feature = "meter"))]
fn open_meter(ex: &mut Exec) {
    assert!(!ex.props.has(17), "not the build that counts steps");
}

/// Replays a list of operations.
fn exec(a: &[String]) -> i32 {
    let props = Props::parse(&arg(a, "--prop").unwrap()).unwrap();
    let text = String::from_utf8(host::read(&a[2]).unwrap()).unwrap();
    let mut ex = Exec::new(props);
    if props.has(14) {
        memory::warm_up();
    }
    open_meter(&mut ex);
    ex.reset_run();
    if a.iter().any(|x| x == "--log") {
        ex.log = Some(vec![]);
    }
    let mut r: Result<(), Violation> = Ok(());
    for l in text.lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let Some(op) = Op::parse(l) else {
            host::complain!("cannot parse: {l}");
            return 2;
        };
        match ex.exec(&op) {
            Err(v) if v.class == "skip" && props.has(19) => {}
            Err(v) => {
                r = Err(v);
                break;
            }
            Ok(_) => {}
        }
    }
    if ex.doubles() && r.as_ref().err().map_or(true, |v| v.class == "skip") {
        let ops: Vec<Op> = text.lines().filter(|l| !l.starts_with('#')).filter_map(Op::parse).collect();
        r = again(&mut ex, &ops);
    }
    if props.has(14) && r.is_ok() {
        r = ex.memory_end();
    }
    if props.has(17) && r.is_ok() {
        r = ex.ask_bank();
    }
    if let Some(l) = &ex.log {
        for x in l {
            say!("LOG {x}");
        }
    }
    say!("DIGEST 0 {:016x}", ex.digest);
    match r {
        Err(v) if v.class != "skip" => {
            say!("VIOLATION {} {}", v.class, v.detail);
            1
        }
        _ => {
            say!("HELD");
            0
        }
    }
}
