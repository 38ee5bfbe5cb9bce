#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c14.rs"]
mod c14;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C14", &c14::workloads(), &o));
}
