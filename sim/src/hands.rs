//! The threads a process works with: calls are handed to helper threads one at a time.
//!
//! A session usually runs in one thread. Operation `spread n r` starts n new helper threads (after ending
//! those there were), and from then on each call is made by helper (slot + r) mod n while
//! everybody else waits. Nothing runs concurrently here (that is the thread simulator's business), so a
//! script stays a pure function; what is varied is which thread a position is used in, whether that thread
//! is new, and who dropped what. Nothing may depend on it.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Arc;
use std::thread::{JoinHandle, Thread};

struct Desk {
    /// 0: nothing to do, 1: a job is there, 2: end
    state: AtomicU32,
    job: std::cell::UnsafeCell<Option<*mut (dyn FnMut() + 'static)>>,
    boss: Thread,
}
unsafe impl Send for Desk {}
unsafe impl Sync for Desk {}

struct Helper {
    desk: Arc<Desk>,
    handle: Option<JoinHandle<()>>,
}

thread_local! {
    static TEAM: RefCell<Vec<Helper>> = const { RefCell::new(Vec::new()) };
    static ROT: Cell<usize> = const { Cell::new(0) };
    static AT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn work(d: Arc<Desk>) {
    loop {
        let mut n = 0;
        loop {
            match d.state.load(Acquire) {
                0 if n < 300 => {
                    n += 1;
                    std::hint::spin_loop();
                }
                0 => std::thread::park(),
                1 => break,
                _ => return,
            }
        }
        // the boss waits until the state is 0 again, so what the job borrows is alive
        let job = unsafe { (*d.job.get()).take() };
        if let Some(j) = job {
            unsafe { (*j)() };
        }
        d.state.store(0, Release);
        d.boss.unpark();
    }
}

/// New helpers instead of the old ones; 0: everything in the calling thread.
pub fn spread(n: usize, rot: usize) {
    // one thread is all there is
    let n = if cfg!(target_family = "wasm") { 0 } else { n };
    AT.set(usize::MAX);
    ROT.set(rot);
    TEAM.with_borrow_mut(|t| {
        for h in t.iter_mut() {
            h.desk.state.store(2, Release);
            let j = h.handle.take().unwrap();
            j.thread().unpark();
            let _ = j.join();
        }
        t.clear();
        for i in 0..n {
            let desk = Arc::new(Desk { state: AtomicU32::new(0), job: std::cell::UnsafeCell::new(None), boss: std::thread::current() });
            let d = desk.clone();
            match named(i + rot).stack_size(8 << 20).spawn(move || work(d)) {
                Ok(handle) => t.push(Helper { desk, handle: Some(handle) }),
                // no more threads to be had: fewer helpers
                Err(_) => break,
            }
        }
    });
}

/// Threads have names, as their owners see fit.
pub fn named(i: usize) -> std::thread::Builder {
    const N: [&str; 8] =
        ["worker", "", "tokio-runtime-worker", "search-1", "main", "\u{63a2}\u{7d22}", "rayon-worker-thread-one-hundred-and-seven-of-the-second-pool", "x"];
    let b = std::thread::Builder::new();
    match i % 11 {
        i @ 0..=7 => b.name(N[i].to_string()),
        _ => b,
    }
}

/// Whose turn it is: the helper of this slot. Returns who it was before.
pub fn place(slot: usize) -> usize {
    AT.replace(slot)
}

/// `catch_unwind`, in the thread whose turn it is.
pub fn catch<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let at = AT.get();
    TEAM.with_borrow(|t| {
        if t.is_empty() || at == usize::MAX {
            return catch_unwind(AssertUnwindSafe(f));
        }
        let h = &t[at.wrapping_add(ROT.get()) % t.len()];
        let mut f = Some(f);
        let mut out = None;
        {
            let mut job = || {
                let f = f.take().unwrap();
                out = Some(catch_unwind(AssertUnwindSafe(f)));
            };
            let p: *mut (dyn FnMut() + '_) = &mut job;
            unsafe { *h.desk.job.get() = Some(std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p)) };
            h.desk.state.store(1, Release);
            h.handle.as_ref().unwrap().thread().unpark();
            let mut n = 0;
            while h.desk.state.load(Acquire) != 0 {
                n += 1;
                if n < 2000 {
                    std::hint::spin_loop();
                } else {
                    std::thread::park();
                }
            }
        }
        out.unwrap()
    })
}
