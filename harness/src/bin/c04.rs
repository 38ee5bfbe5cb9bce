#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c04.rs"]
mod c04;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C04", &c04::workloads(), &o));
}
