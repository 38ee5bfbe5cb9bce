#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c09.rs"]
mod c09;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C09", &c09::workloads(), &o));
}
