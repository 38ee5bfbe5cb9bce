#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c25.rs"]
mod c25;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C25", &c25::workloads(), &o));
}
