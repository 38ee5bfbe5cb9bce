#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c05.rs"]
mod c05;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C05", &c05::workloads(), &o));
}
