#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c19.rs"]
mod c19;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C19", &c19::workloads(), &o));
}
