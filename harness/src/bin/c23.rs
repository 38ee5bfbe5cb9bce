#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c23.rs"]
mod c23;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--cold" {
        c23::cold_child(a[2].parse().unwrap());
    }
    mon::main("C23", c23::workloads());
}
