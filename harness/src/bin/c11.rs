#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c11.rs"]
mod c11;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C11", &c11::workloads(), &o));
}
