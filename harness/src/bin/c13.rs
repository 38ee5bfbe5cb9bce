#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c13.rs"]
mod c13;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C13", &c13::workloads(), &o));
}
