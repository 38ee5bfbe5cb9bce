#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c10.rs"]
mod c10;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C10", &c10::workloads(), &o));
}
