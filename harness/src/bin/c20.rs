#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c20.rs"]
mod c20;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C20", &c20::workloads(), &o));
}
