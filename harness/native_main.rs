// native replay: native FN PARAMS(comma separated or -) VALUES(comma separated or -)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect() };
    {
        let mut c = harness::sym::CTX.lock().unwrap();
        c.params = list(&a[2]);
        c.vals = list(&a[3]);
    }
    match harness::TABLE.iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1(),
        None => { println!("no harness {}", a[1]); std::process::exit(76) }
    }
    let c = harness::sym::CTX.lock().unwrap();
    for (i, v) in &c.notes { if i >> 31 == 1 { println!("NOTEF {} {}", i & 0x7fff_ffff, f64::from_bits(*v)); } else { println!("NOTE {} {}", i, v); } }
    println!("COMPLETED {} assertions, {} values", c.asserts, c.pos);
}
