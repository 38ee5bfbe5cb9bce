#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c08.rs"]
mod c08;
fn main() {
    let o = mon::parse();
    std::process::exit(mon::run_all("C08", &c08::workloads(), &o));
}
