#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c02.rs"]
mod c02;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C02", &c02::workloads(), &o));
}
