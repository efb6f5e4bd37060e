//! ythr: real threads of the library under a simulated scheduler. See DESIGN.md.
mod area;
mod child;
mod gen;
mod judge;
mod scen;

use std::alloc::{GlobalAlloc, Layout, System};

/// The allocator the library gets: may fail on request, reports memory to the race detector.
struct Seam;
unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if area::rt_alloc_fails() != 0 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        area::rt_memory(p as *mut _, l.size() as u64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        area::rt_freed(p as *mut _, l.size() as u64);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Seam = Seam;

/// A server: forks a fresh process for every request. It never uses the library itself.
fn serve(fd: i32) -> ! {
    unsafe {
        libc::mallopt(libc::M_ARENA_TEST, 1);
        libc::mallopt(libc::M_ARENA_MAX, 1);
        std::panic::set_hook(Box::new(|_| {}));
        let a = area::map(fd);
        loop {
            let mut b = [0u8; 1];
            if libc::read(0, b.as_mut_ptr() as *mut _, 1) != 1 {
                libc::_exit(0);
            }
            let pid = libc::fork();
            if pid == 0 {
                // stderr: what the run-time prints when a process aborts is of no interest
                let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(null, 2);
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &mem);
                libc::alarm(40);
                // one thread runs at a time: keep them on one processor, switching is cheaper there
                let cpu = libc::sched_getcpu();
                if cpu >= 0 && (cpu as usize) < 1024 {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpu as usize, &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                }
                let text = std::str::from_utf8(&(&(*a).text)[..(*a).len as usize]).unwrap();
                if (*a).how == 0 {
                    child::scheduled(a, text)
                } else {
                    child::alone(a, text)
                }
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let out = (st as u32).to_le_bytes();
            if libc::write(1, out.as_ptr() as *const _, 4) != 4 {
                libc::_exit(0);
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("serve") => serve(a[2].parse().unwrap()),
        Some("run") => judge::run(&a),
        Some("exec") => judge::exec(&a),
        Some("min") => judge::min(&a),
        Some("union") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                if let Ok(b) = std::fs::read(f) {
                    v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        _ => {
            eprintln!("usage: ythr run|exec|min ...");
            std::process::exit(2);
        }
    }
}
