#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
#[path = "../../props/c06.rs"]
mod c06;
fn main() {
    let o = mon::parse();
    if let Some(p) = o.extra.iter().position(|x| x == "--probe") {
        c06::probe(o.extra[p + 1].parse().unwrap());
    }
    std::process::exit(mon::run_all("C06", &c06::workloads(), &o));
}
