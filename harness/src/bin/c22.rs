#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;
macro_rules! all {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[path = $f] mod $m;)*
        fn everything() -> Vec<mon::Workload> {
            let mut v: Vec<mon::Workload> = vec![];
            $(for mut w in $m::workloads() {
                let s = format!("{}.{}", stringify!($m), w.name);
                w.name = Box::leak(s.into_boxed_str());
                v.push(w);
            })*
            v
        }
    };
}
all!(
    c22 "../../props/c22.rs",
    c01 "../../props/c01.rs", c02 "../../props/c02.rs", c03 "../../props/c03.rs", c04 "../../props/c04.rs",
    c05 "../../props/c05.rs", c06 "../../props/c06.rs", c07 "../../props/c07.rs", c08 "../../props/c08.rs",
    c09 "../../props/c09.rs", c10 "../../props/c10.rs", c11 "../../props/c11.rs", c12 "../../props/c12.rs",
    c13 "../../props/c13.rs", c14 "../../props/c14.rs", c15 "../../props/c15.rs", c16 "../../props/c16.rs",
    c17 "../../props/c17.rs", c18 "../../props/c18.rs", c19 "../../props/c19.rs", c20 "../../props/c20.rs",
    c21 "../../props/c21.rs", c25 "../../props/c25.rs", c26 "../../props/c26.rs", c27 "../../props/c27.rs",
    c29 "../../props/c29.rs",
);
fn main() {
    let o = mon::parse();
    if let Some(p) = o.extra.iter().position(|x| x == "--probe") {
        c06::probe(o.extra[p + 1].parse().unwrap());
    }
    std::process::exit(mon::run_all("C22", &everything(), &o));
}
