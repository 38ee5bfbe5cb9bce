#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c18.rs"]
mod c18;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C18", &c18::workloads(), &o));
}
