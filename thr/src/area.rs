//! Memory shared between the orchestrator and its simulated processes, and the C run-time's interface.
use crate::scen::{MAX_IDS, MAX_THREADS};
use std::os::raw::{c_char, c_int, c_void};

pub const TEXT_MAX: usize = 1 << 20;
pub const RES: usize = (MAX_THREADS + 1) * MAX_IDS;
pub const COMPS: usize = 8;
pub const COMP_NAMES: [&str; COMPS] =
    ["pieces", "hands", "side to move and ply", "keys", "in_check", "legal moves", "checking moves", "order of the legal moves"];

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Res {
    /// 0 not done, 1 answered, 2 panicked, 3 skipped
    pub status: u32,
    pub pad: u32,
    pub c: [u64; COMPS],
}

#[repr(C)]
pub struct Area {
    pub len: u64,
    /// 0: the process as scheduled; 1 + t: the alone program of thread t, given as text
    pub how: u64,
    pub text: [u8; TEXT_MAX],
    pub res: [Res; RES],
    pub high: u64,
    /// op in progress per thread
    pub at: [u64; MAX_THREADS + 1],
    pub trailer: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawDec {
    pub t: u8,
    pub next: u8,
    pub kind: u8,
    pub pad: u8,
    pub pad2: u32,
    pub steps: u64,
}

pub enum Shared {}

extern "C" {
    pub fn rt_size() -> usize;
    pub fn rt_shared_reset(s: *mut Shared);
    pub fn rt_ndec(s: *mut Shared) -> u64;
    pub fn rt_dec(s: *mut Shared, i: u64) -> *mut RawDec;
    pub fn rt_msg(s: *mut Shared) -> *const c_char;
    pub fn rt_stat(s: *mut Shared, i: c_int) -> u64;
    pub fn rt_begin(s: *mut Shared, seed: u64, mode: c_int, mean: f64, ap: f64, sp: f64, ent: u64, clk0: u64, rate: u64, races: c_int, cap: u64);
    pub fn rt_pid(p: c_int);
    pub fn rt_host(h: u64);
    pub fn rt_event(t: c_int, act: c_int, steps_from_now: u64, arg: u64);
    pub fn rt_pct(at: u64);
    pub fn rt_oom(t: c_int, n: u64);
    pub fn rt_replay(d: *mut RawDec, n: u64);
    pub fn rt_enter();
    pub fn rt_leave();
    pub fn rt_me() -> c_int;
    pub fn rt_quit(kind: c_int) -> !;
    pub fn rt_wait(key: u64) -> c_int;
    pub fn rt_wake(key: u64);
    pub fn rt_release(a: u64);
    pub fn rt_acquire(a: u64);
    pub fn rt_alloc_fails() -> c_int;
    pub fn rt_memory(p: *mut c_void, n: u64);
    pub fn rt_freed(p: *mut c_void, n: u64);
    pub fn rt_state(t: c_int) -> c_int;
    pub fn rt_nthr() -> c_int;
}

pub const STATS: [&str; 25] = [
    "steps", "switches", "preemptions", "blocked", "atomics", "futex_waits", "futex_wakes", "spurious_wakeups", "stalls", "stops",
    "crashes", "clock_reads", "entropy_reads", "allocations", "failed_allocations", "race_checks", "sleeps", "yields", "threads",
    "ended", "hash", "shared_atomic_switches", "clock_leaps", "simulated_us",
    "host_reads",
];

/// Length of the shared mapping.
pub fn size() -> usize {
    (std::mem::size_of::<Area>() + 4095) / 4096 * 4096 + unsafe { rt_size() }
}
pub unsafe fn shared(a: *mut Area) -> *mut Shared {
    (a as *mut u8).add((std::mem::size_of::<Area>() + 4095) / 4096 * 4096) as *mut Shared
}
pub unsafe fn map(fd: c_int) -> *mut Area {
    let p = libc::mmap(std::ptr::null_mut(), size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut Area
}
