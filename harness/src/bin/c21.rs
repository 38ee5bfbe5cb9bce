#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c21.rs"]
mod c21;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C21", &c21::workloads(), &o));
}
