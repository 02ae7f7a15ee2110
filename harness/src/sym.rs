//! The interface to the deciding engine. In the symbolic build these are externs that the engine interprets;
//! in the native build (`--features native`) they replay a list of concrete values in call order.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_param(i: u64) -> u64;
        fn sym_u64() -> u64;
        fn sym_u32() -> u32;
        fn sym_bits(n: u32) -> u64;
        fn sym_range(lo: u64, hi: u64) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, id: u32);
        fn sym_reach(id: u32);
        fn sym_note(id: u32, v: u64);
        fn sym_notef(id: u32, v: f64);
        fn sym_concretize(v: u64) -> u64;
        fn sym_bail(id: u32) -> !;
        fn sym_is_symbolic() -> bool;
    }
    pub fn param(i: u64) -> u64 { unsafe { sym_param(i) } }
    pub fn u64() -> u64 { unsafe { sym_u64() } }
    pub fn u32() -> u32 { unsafe { sym_u32() } }
    pub fn bits(n: u32) -> u64 { unsafe { sym_bits(n) } }
    pub fn range(lo: u64, hi: u64) -> u64 { unsafe { sym_range(lo, hi) } }
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
    pub fn reach(id: u32) { unsafe { sym_reach(id) } }
    pub fn note(id: u32, v: u64) { unsafe { sym_note(id, v) } }
    pub fn notef(id: u32, v: f64) { unsafe { sym_notef(id, v) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
    pub fn bail(id: u32) -> ! { unsafe { sym_bail(id) } }
    pub fn symbolic() -> bool { unsafe { sym_is_symbolic() } }
}
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub struct Ctx { pub params: Vec<u64>, pub vals: Vec<u64>, pub pos: usize, pub notes: Vec<(u32, u64)>, pub asserts: u64 }
    pub static CTX: Mutex<Ctx> = Mutex::new(Ctx { params: vec![], vals: vec![], pos: 0, notes: vec![], asserts: 0 });
    fn next() -> u64 {
        let mut c = CTX.lock().unwrap();
        if c.pos >= c.vals.len() { println!("OUT OF VALUES"); std::process::exit(78); }
        let v = c.vals[c.pos];
        c.pos += 1;
        v
    }
    pub fn param(i: u64) -> u64 { CTX.lock().unwrap().params[i as usize] }
    pub fn u64() -> u64 { next() }
    pub fn u32() -> u32 { next() as u32 }
    pub fn bits(n: u32) -> u64 { let v = next(); if n < 64 { v & ((1 << n) - 1) } else { v } }
    pub fn range(lo: u64, hi: u64) -> u64 { let v = next(); if lo == hi { lo } else { v } }
    pub fn assume(c: bool) { if !c { println!("ASSUMPTION NOT MET"); std::process::exit(77); } }
    pub fn check(c: bool, id: u32) {
        CTX.lock().unwrap().asserts += 1;
        if !c { println!("ASSERT {} FAILED", id); std::process::exit(42); }
    }
    pub fn reach(_: u32) {}
    pub fn note(id: u32, v: u64) { CTX.lock().unwrap().notes.push((id, v)); }
    pub fn notef(id: u32, v: f64) { note(id | 1 << 31, v.to_bits()) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn bail(id: u32) -> ! { println!("HARNESS BAILED {}", id); std::process::exit(79) }
    pub fn symbolic() -> bool { false }
}
pub use imp::*;

/// value only meaningful inside 0..=hi
pub fn upto(hi: u64) -> u64 {
    let mut n = 0;
    while n < 64 && (hi >> n) != 0 { n += 1; }
    if n == 0 { return 0; }
    let v = bits(n);
    assume(v <= hi);
    v
}
