#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c07.rs"]
mod c07;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C07", &c07::workloads(), &o));
}
