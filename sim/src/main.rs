#[global_allocator]
static ALLOC: ysim::memory::Counting = ysim::memory::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = ysim::cli::main(&a);
    std::process::exit(code);
}
