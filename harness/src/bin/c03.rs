#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c03.rs"]
mod c03;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C03", &c03::workloads(), &o));
}
