#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c28.rs"]
mod c28;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C28", &c28::workloads(), &o));
}
