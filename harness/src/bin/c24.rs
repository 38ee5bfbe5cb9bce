#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c24.rs"]
mod c24;
fn main() {
    mon::main("C24", c24::workloads());
}
