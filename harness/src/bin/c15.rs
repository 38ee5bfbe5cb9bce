#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c15.rs"]
mod c15;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C15", &c15::workloads(), &o));
}
