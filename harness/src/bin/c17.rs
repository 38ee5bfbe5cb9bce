#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c17.rs"]
mod c17;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C17", &c17::workloads(), &o));
}
