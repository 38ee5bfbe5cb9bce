#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c01.rs"]
mod c01;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C01", &c01::workloads(), &o));
}
