#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c26.rs"]
mod c26;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C26", &c26::workloads(), &o));
}
