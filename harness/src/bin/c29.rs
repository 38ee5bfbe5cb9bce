#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c29.rs"]
mod c29;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C29", &c29::workloads(), &o));
}
