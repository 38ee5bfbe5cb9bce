#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c16.rs"]
mod c16;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C16", &c16::workloads(), &o));
}
