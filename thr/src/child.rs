//! Inside a simulated process: executes the threads' programs on the real library.
use crate::area::*;
use crate::scen::*;
use shogi_core::{Color, PieceKind};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, Ordering};
use yasai::Position;
use ysim::obs::{color, partial, sq};
use ysim::prng::mix;
use ysim::refmodel::Ref;

/// Lets the harness move positions between threads even if the library stopped allowing it (which the
/// check reports on its own).
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

// Which of Send and Sync does Position have? Inherent constants shadow the trait's.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
impl<T> No for ProbeSend<T> {}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
pub fn send_sync() -> (bool, bool) {
    (ProbeSend::<Position>::SEND, Probe::<Position>::SYNC)
}

/// Before the threads start there is nothing to schedule: calls are made without scheduling points.
static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Inside the library until dropped, also when a panic passes.
struct Inside;
impl Inside {
    fn new() -> Inside {
        if !QUIET.load(Ordering::Relaxed) {
            unsafe { rt_enter() };
        }
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        unsafe { rt_leave() };
    }
}

/// A call into the library.
fn lib<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _inside = Inside::new();
        f()
    }));
    r.map_err(|e| {
        drop(e);
    })
}

const NCHAN: usize = 256;
struct World {
    area: *mut Area,
    chans: [AtomicPtr<Position>; NCHAN],
    shared: [AtomicPtr<Position>; NCHAN],
    gone: [std::sync::atomic::AtomicBool; NCHAN],
}

fn key_of(c: usize, shared: bool) -> u64 {
    1_000_000 + c as u64 * 2 + shared as u64
}

struct Runner<'a> {
    w: &'a World,
    t: usize,
    slots: BTreeMap<usize, Position>,
    /// record results, honour faults, hand positions over
    live: bool,
}

fn ask(p: &Position, mask: u32, r: &mut Res) -> Result<(), ()> {
    let mut h;
    if mask & 1 != 0 {
        h = 1;
        for i in 0..81u8 {
            let x = lib(|| p.piece_at(sq(i)))?;
            let v = match x {
                None => 0,
                Some(x) => {
                    let (k, c) = x.to_parts();
                    k as u64 * 2 + (c == Color::White) as u64
                }
            };
            h = mix(h ^ v);
        }
        r.c[0] = h;
    }
    if mask & 2 != 0 {
        h = 2;
        for s in 0..2 {
            let hd = lib(|| p.hand(color(s)))?;
            for k in 1..8u8 {
                h = mix(h ^ hd.count(PieceKind::from_u8(k).unwrap()).unwrap_or(99) as u64);
            }
        }
        r.c[1] = h;
    }
    if mask & 4 != 0 {
        let s = lib(|| p.side_to_move())?;
        let n = lib(|| p.ply())?;
        r.c[2] = 1 + (s == Color::White) as u64 + ((n as u64) << 8);
    }
    if mask & 8 != 0 {
        let a = lib(|| p.key())?;
        let b = lib(|| p.keys())?;
        r.c[3] = mix(mix(mix(a) ^ b.0) ^ b.1);
    }
    if mask & 16 != 0 {
        r.c[4] = 1 + lib(|| p.in_check())? as u64;
    }
    if mask & (32 | 64) != 0 {
        let v = lib(|| p.legal_moves())?;
        let code = |m: shogi_core::Move| match m {
            shogi_core::Move::Normal { from, to, promote } => from.index() as u64 | (to.index() as u64) << 8 | (promote as u64) << 16,
            shogi_core::Move::Drop { piece, to } => piece.as_u8() as u64 | (to.index() as u64) << 8 | 1 << 24,
        };
        let mut o = 7u64;
        let mut l: Vec<(u64, u64)> = vec![];
        for m in v {
            o = mix(o ^ code(m));
            let c = if mask & 64 != 0 { lib(|| p.is_check_move(m))? as u64 } else { 0 };
            l.push((code(m), c));
        }
        l.sort();
        r.c[7] = o;
        r.c[5] = l.iter().fold(3, |h, x| mix(h ^ x.0));
        if mask & 64 != 0 {
            r.c[6] = l.iter().fold(5, |h, x| mix(h ^ x.0 ^ x.1 << 40));
        }
    }
    Ok(())
}

impl Runner<'_> {
    fn put(&mut self, d: usize, p: Position) -> Result<(), ()> {
        if let Some(old) = self.slots.insert(d, p) {
            lib(|| drop(old))?;
        }
        Ok(())
    }
    fn chan(&self, a: &AtomicPtr<Position>, key: u64, gone: Option<&std::sync::atomic::AtomicBool>) -> Option<*mut Position> {
        loop {
            let p = a.load(Ordering::SeqCst);
            if !p.is_null() {
                unsafe { rt_acquire(key) };
                return Some(p);
            }
            if gone.map(|g| g.load(Ordering::SeqCst)).unwrap_or(false) {
                return None;
            }
            if unsafe { rt_wait(key) } != 0 {
                return None;
            }
        }
    }
    /// Ok(false): does not apply here
    fn op(&mut self, op: &Op, r: &mut Res) -> Result<bool, ()> {
        match op {
            Op::New(d, sfen) => {
                let pp = partial(&Ref::from_sfen(sfen).unwrap());
                // the two ways to get the start position
                let p = if *d % 2 == 1 && pp == shogi_core::PartialPosition::startpos() { lib(Position::default)? } else { lib(|| Position::new(pp))? };
                self.put(*d, p)?;
            }
            Op::Do(d, m) => {
                let Some(p) = self.slots.get_mut(d) else { return Ok(false) };
                if lib(|| p.do_move(*m)).is_err() {
                    let p = self.slots.remove(d);
                    let _ = lib(|| drop(p));
                    return Err(());
                }
            }
            Op::Undo(d, m) => {
                let Some(p) = self.slots.get_mut(d) else { return Ok(false) };
                if lib(|| p.undo_move(*m)).is_err() {
                    let p = self.slots.remove(d);
                    let _ = lib(|| drop(p));
                    return Err(());
                }
            }
            Op::Clone(d, s) => {
                if d == s || !self.slots.contains_key(s) {
                    return Ok(false);
                }
                let old = self.slots.remove(d);
                let p = &self.slots[s];
                let c = match old {
                    // into an object that is in use
                    Some(mut c) => {
                        if lib(|| c.clone_from(p)).is_err() {
                            let _ = lib(|| drop(c));
                            return Err(());
                        }
                        c
                    }
                    None => lib(|| p.clone())?,
                };
                self.put(*d, c)?;
            }
            Op::Drop(d) => {
                let Some(p) = self.slots.remove(d) else { return Ok(false) };
                lib(|| drop(p))?;
            }
            Op::Ask(d, k) => {
                let Some(p) = self.slots.get(d) else { return Ok(false) };
                ask(p, *k, r)?;
            }
            Op::Send(d, c) => {
                let Some(p) = self.slots.remove(d) else { return Ok(false) };
                let b = Box::into_raw(Box::new(p));
                unsafe { rt_release(key_of(*c, false)) };
                self.w.chans[*c % NCHAN].store(b, Ordering::SeqCst);
                unsafe { rt_wake(key_of(*c, false)) };
            }
            Op::Recv(d, c) => {
                let Some(p) = self.chan(&self.w.chans[*c % NCHAN], key_of(*c, false), Some(&self.w.gone[*c % NCHAN])) else { return Ok(false) };
                self.w.gone[*c % NCHAN].store(true, Ordering::SeqCst);
                self.w.chans[*c % NCHAN].store(std::ptr::null_mut(), Ordering::SeqCst);
                let p = *unsafe { Box::from_raw(p) };
                self.put(*d, p)?;
            }
            Op::Share(d, c) => {
                let Some(p) = self.slots.remove(d) else { return Ok(false) };
                let b = Box::into_raw(Box::new(p));
                unsafe { rt_release(key_of(*c, true)) };
                self.w.shared[*c % NCHAN].store(b, Ordering::SeqCst);
                unsafe { rt_wake(key_of(*c, true)) };
            }
            Op::SharedAsk(c, k) => {
                let Some(p) = self.chan(&self.w.shared[*c % NCHAN], key_of(*c, true), None) else { return Ok(false) };
                ask(unsafe { &*p }, *k, r)?;
            }
            Op::SharedClone(d, c) => {
                let Some(p) = self.chan(&self.w.shared[*c % NCHAN], key_of(*c, true), None) else { return Ok(false) };
                let c = lib(|| unsafe { &*p }.clone())?;
                self.put(*d, c)?;
            }
            Op::Bad(d, how, m) => {
                let Some(mut p) = self.slots.remove(d) else { return Ok(false) };
                let _ = lib(|| nonsense_call(&mut p, *how, *m));
                let _ = lib(|| drop(p));
            }
            Op::Die(d, how, m) => {
                let Some(mut p) = self.slots.remove(d) else { return Ok(false) };
                let _inside = Inside::new();
                nonsense_call(&mut p, *how, *m);
                drop(p);
            }
            Op::Fault(..) => return Ok(false),
        }
        Ok(true)
    }
    fn run(&mut self, prog: &Prog, index: usize) {
        for (id, op) in prog {
            if let Op::Fault(f, n, a) = op {
                if self.live {
                    let me = unsafe { rt_me() };
                    unsafe {
                        match f {
                            Fault::Stall => rt_event(me, 1, *n, *a),
                            Fault::Stop => rt_event(me, 2, *n, *a),
                            Fault::Crash => rt_event(me, 3, *n, *a),
                            Fault::Leap => rt_event(me, 4, *n, *a),
                            Fault::Oom => rt_oom(me, *n),
                        }
                    }
                }
                continue;
            }
            let mut r = Res { status: 0, pad: 0, c: [0; COMPS] };
            if let Some(id) = id {
                unsafe { (*self.w.area).at[index] = *id as u64 + 1 };
            }
            r.status = match self.op(op, &mut r) {
                Ok(true) => 1,
                Ok(false) => 3,
                Err(()) => 2,
            };
            if let Some(id) = id {
                unsafe {
                    (*self.w.area).res[index * MAX_IDS + id] = r;
                    (*self.w.area).high = (*self.w.area).high.max(index as u64 + 1);
                }
            }
        }
    }
}

fn nonsense_call(p: &mut Position, how: u32, m: shogi_core::Move) {
    match how {
        1 => {
            let _ = p.is_check_move(m);
        }
        2 => p.undo_move(m),
        _ => p.do_move(m),
    }
}

/// Everything there is to set up, before the threads start.
fn warm_up(w: &World, pl: &Plan, how: u32) {
    let mut sf = vec![Ref::startpos().to_sfen()];
    sf.push("R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1".into());
    sf.push("l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1".into());
    let mut ru = Runner { w, t: 0, slots: BTreeMap::new(), live: false };
    for s in &sf {
        let r = Ref::from_sfen(s).unwrap();
        let mut x = Res { status: 0, pad: 0, c: [0; COMPS] };
        let _ = ru.op(&Op::New(0, s.clone()), &mut x);
        let _ = ru.op(&Op::Ask(0, 127), &mut x);
        let l = r.legal();
        let step = l.len() / if how == 2 { 40 } else { 10 } + 1;
        for m in l.into_iter().step_by(step) {
            let m = ysim::obs::to_move(m, r.side);
            let _ = ru.op(&Op::Do(0, m), &mut x);
            if how == 2 {
                let _ = ru.op(&Op::Ask(0, 127 - 64), &mut x);
            }
            let _ = ru.op(&Op::Undo(0, m), &mut x);
        }
        let _ = ru.op(&Op::Clone(1, 0), &mut x);
        let _ = ru.op(&Op::Drop(1), &mut x);
    }
    if how == 2 {
        for prog in &pl.alone {
            let mut r = Runner { w, t: 0, slots: BTreeMap::new(), live: false };
            let mut x = Res { status: 0, pad: 0, c: [0; COMPS] };
            for (_, op) in prog {
                let _ = r.op(op, &mut x);
            }
            let rest = std::mem::take(&mut r.slots);
            let _ = lib(|| drop(rest));
        }
    }
    let rest = std::mem::take(&mut ru.slots);
    let _ = lib(|| drop(rest));
}

fn begin(area: *mut Area, e: &Env, races: bool) {
    unsafe {
        let cap = 60_000_000;
        rt_begin(
            shared(area),
            e.seed,
            e.mode as i32,
            e.mean,
            e.atomic_p,
            e.spurious,
            e.entropy,
            e.clock,
            e.rate,
            races as i32,
            cap,
        );
        rt_pid(e.pid as i32);
        rt_host(e.host);
        for x in &e.pct {
            rt_pct(*x);
        }
    }
}

fn new_world(area: *mut Area) -> &'static World {
    Box::leak(Box::new(World {
        area,
        chans: [const { AtomicPtr::new(std::ptr::null_mut()) }; NCHAN],
        shared: [const { AtomicPtr::new(std::ptr::null_mut()) }; NCHAN],
        gone: [const { std::sync::atomic::AtomicBool::new(false) }; NCHAN],
    }))
}

/// What a thread is called.
fn name_of(host: u64, t: usize) -> Option<String> {
    const N: [&str; 10] = [
        "",
        "main",
        "worker",
        "search-0",
        "tokio-runtime-worker",
        "a name of exactly",
        "\u{63a2}\u{7d22}",
        "rayon-worker-thread-number-one-hundred-and-seven-of-the-second-pool",
        "x",
        "thread '<unnamed>'",
    ];
    if host == 0 {
        return None;
    }
    let x = (host ^ (t as u64) << 32).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
    match x % 13 {
        i @ 0..=9 => Some(N[i as usize].to_string()),
        10 => Some(format!("{t}")),
        _ => None,
    }
}

/// The process as scheduled.
pub fn scheduled(area: *mut Area, text: &str) -> ! {
    let sc = Scen::parse(text).unwrap();
    let p = &sc.procs[0];
    let pl = Plan::make(p);
    let world = new_world(area);
    // another memory layout
    if p.env.pad > 0 {
        unsafe {
            let v: Vec<u8> = Vec::with_capacity(p.env.pad % 100_000 + 1);
            std::mem::forget(v);
            libc::mmap(
                std::ptr::null_mut(),
                (p.env.pad % 5000 + 1) * 4096,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
        }
    }
    if p.env.host != 0 {
        let d: [&[u8]; 4] = [b"/\0", b"/tmp\0", b"/proc\0", b"/usr\0"];
        for (k, v) in [("HOME", "/home/u"), ("USER", "u"), ("HOSTNAME", "h7"), ("LANG", "ja_JP.UTF-8"), ("TZ", "Asia/Tokyo"), ("TMPDIR", "/var/tmp")] {
            std::env::set_var(k, v);
        }
        unsafe { libc::chdir(d[(p.env.host >> 3) as usize % 4].as_ptr() as *const _) };
    }
    let decs: Vec<RawDec> = p.decs.iter().map(|d| RawDec { t: d.t, next: d.next, kind: d.kind, pad: 0, pad2: 0, steps: d.steps }).collect();
    let decs = Box::leak(decs.into_boxed_slice());
    begin(area, &p.env, sc.prop == "races");
    unsafe { rt_replay(decs.as_mut_ptr(), decs.len() as u64) };
    if p.env.warm > 0 {
        QUIET.store(true, Ordering::Relaxed);
        warm_up(world, &pl, p.env.warm);
        QUIET.store(false, Ordering::Relaxed);
    }
    let mut main = Runner { w: world, t: 0, slots: BTreeMap::new(), live: true };
    main.run(&pl.progs[0], 0);
    for (i, prog) in pl.progs.iter().enumerate().skip(1) {
        let prog = Any(prog.clone());
        let w = Any(world);
        let mut b = std::thread::Builder::new().stack_size((1 << 20) + (p.env.host >> 7 & 7) as usize * 65536);
        if let Some(n) = name_of(p.env.host, i) {
            b = b.name(n);
        }
        let r = b.spawn(move || {
            let w = w;
            let prog = prog;
            let mut r = Runner { w: w.0, t: i, slots: BTreeMap::new(), live: true };
            r.run(&prog.0, i);
            let rest = std::mem::take(&mut r.slots);
            if lib(|| drop(rest)).is_err() {
                unsafe { (*r.w.area).trailer |= 1 << (r.t % 64) };
            }
        });
        if r.is_err() {
            unsafe { rt_quit(44) };
        }
    }
    unsafe {
        loop {
            let all = (1..rt_nthr()).all(|t| matches!(rt_state(t), 6 | 7));
            if all || rt_wait(0) != 0 {
                break;
            }
        }
        rt_quit(0)
    }
}

/// One program alone, in the canonical environment.
pub fn alone(area: *mut Area, text: &str) -> ! {
    let mut prog: Prog = vec![];
    for l in text.lines() {
        let (id, op) = l.split_once(' ').unwrap();
        prog.push((id.parse().ok(), Op::parse(op).unwrap()));
    }
    let world = new_world(area);
    begin(area, &Env::canonical(), false);
    QUIET.store(true, Ordering::Relaxed);
    let mut r = Runner { w: world, t: 0, slots: BTreeMap::new(), live: false };
    r.run(&prog, 0);
    unsafe { rt_quit(0) }
}
