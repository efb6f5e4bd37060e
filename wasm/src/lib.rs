//! The simulator as a WebAssembly module: the library is the real wasm32 build, `run.js` is the machine.
#[global_allocator]
static ALLOC: ysim::memory::Counting = ysim::memory::Counting;

getrandom::register_custom_getrandom!(no_entropy);
fn no_entropy(_: &mut [u8]) -> Result<(), getrandom::Error> {
    Err(getrandom::Error::UNSUPPORTED)
}

#[link(wasm_import_module = "host")]
extern "C" {
    /// length of the n-th argument, or -1
    fn host_arg(n: usize) -> isize;
    fn host_take(to: *mut u8);
}

#[no_mangle]
pub extern "C" fn ysim_main() -> i32 {
    let mut a = vec!["ysim".to_string()];
    let mut n = 0;
    unsafe {
        loop {
            let l = host_arg(n);
            if l < 0 {
                break;
            }
            let mut v = vec![0u8; l as usize];
            host_take(v.as_mut_ptr());
            a.push(String::from_utf8(v).unwrap());
            n += 1;
        }
    }
    ysim::cli::main(&a)
}
