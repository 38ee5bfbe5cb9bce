#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c27.rs"]
mod c27;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C27", &c27::workloads(), &o));
}
