//! What the simulator asks of the machine it runs on: lines out, files, a stop-watch. On wasm32 these are
//! functions given by `wasm/run.js`.
use std::io::Write;

pub type File = Box<dyn Write>;

/// A line on standard output.
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => { $crate::host::line(1, &format!($($t)*)) };
}
/// A line on standard error.
#[macro_export]
macro_rules! complain {
    ($($t:tt)*) => { $crate::host::line(2, &format!($($t)*)) };
}
pub use crate::{complain, say};

#[cfg(not(target_family = "wasm"))]
mod here {
    use super::File;
    pub fn line(fd: i32, s: &str) {
        if fd == 1 {
            println!("{s}");
        } else {
            eprintln!("{s}");
        }
    }
    pub fn noisy() -> bool {
        std::env::var("YSIM_HOOK").is_ok()
    }
    pub fn read(f: &str) -> Result<Vec<u8>, String> {
        std::fs::read(f).map_err(|e| e.to_string())
    }
    pub fn create(f: &str) -> File {
        Box::new(std::fs::File::create(f).unwrap())
    }
    /// Of use for nothing but when to stop.
    pub fn now_ms() -> u64 {
        static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
        T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64
    }
}

#[cfg(target_family = "wasm")]
mod here {
    use super::File;
    #[link(wasm_import_module = "host")]
    extern "C" {
        fn host_line(fd: i32, p: *const u8, n: usize);
        fn host_now() -> f64;
        /// length of the file, or -1
        fn host_open(p: *const u8, n: usize) -> isize;
        fn host_take(to: *mut u8);
        fn host_write(name: *const u8, n: usize, data: *const u8, len: usize, append: i32);
    }
    pub fn line(fd: i32, s: &str) {
        unsafe { host_line(fd, s.as_ptr(), s.len()) }
    }
    pub fn noisy() -> bool {
        false
    }
    pub fn read(f: &str) -> Result<Vec<u8>, String> {
        unsafe {
            let n = host_open(f.as_ptr(), f.len());
            if n < 0 {
                return Err("no such file".into());
            }
            let mut v = vec![0u8; n as usize];
            host_take(v.as_mut_ptr());
            Ok(v)
        }
    }
    struct Far(String);
    impl std::io::Write for Far {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            unsafe { host_write(self.0.as_ptr(), self.0.len(), b.as_ptr(), b.len(), 1) };
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub fn create(f: &str) -> File {
        unsafe { host_write(f.as_ptr(), f.len(), f.as_ptr(), 0, 0) };
        Box::new(Far(f.to_string()))
    }
    pub fn now_ms() -> u64 {
        unsafe { host_now() as u64 }
    }
}
pub use here::*;
