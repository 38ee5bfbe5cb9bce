#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c12.rs"]
mod c12;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C12", &c12::workloads(), &o));
}
