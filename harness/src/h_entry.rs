//! C21: the insertion entry points, with hashers that really mix what they are fed.
use crate::sk::{zero_regs, place, upd, HyperLogLog, HyperLogLogPF, HyperLogLogPlus, PB};
use crate::sym::{self, check, param};
use crate::val::{self, same};
use std::hash::{BuildHasher, Hash, Hasher};

/// a keyed hasher with state: every byte and every integer fed to it matters, and so does the order
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct KB { key: u64 }
pub struct KH { s: u64 }
impl KH { fn mix(&mut self, x: u64) { self.s = self.s.rotate_left(13) ^ x; } }
impl Hasher for KH {
    fn finish(&self) -> u64 { self.s }
    fn write(&mut self, b: &[u8]) { for x in b { self.mix(*x as u64); } }
    fn write_u8(&mut self, i: u8) { self.mix(i as u64 + 3) }
    fn write_u32(&mut self, i: u32) { self.mix(i as u64 ^ 5) }
    fn write_u64(&mut self, i: u64) { self.mix(i) }
    fn write_usize(&mut self, i: usize) { self.mix(i as u64 ^ 9) }
}
impl BuildHasher for KB {
    type Hasher = KH;
    fn build_hasher(&self) -> KH { KH { s: self.key } }
}
fn hash_of<T: Hash + ?Sized>(key: u64, t: &T) -> u64 {
    let mut h = KH { s: key };
    t.hash(&mut h);
    h.finish()
}
macro_rules! four {
    ($t:ident, $b:ty, $p:expr, $new:expr, $own:expr, $bor:expr, $pre:expr, $bits:expr, $size:expr) => {{
        let (own, bor, pre) = ($own, $bor, $pre);
        let key = sym::u64();
        let mk = || -> $t<$b, KB> { match $t::new($p, KB { key }) { Ok(s) => s, Err(_) => sym::bail(940) } };
        let (mut a, mut b, mut c, mut d) = (mk(), mk(), mk(), mk());
        // what was inserted before must not matter
        a.insert(&pre);
        b.insert(&pre);
        c.insert(&pre);
        d.insert(&pre);
        #[allow(deprecated)]
        {
            a.insert(&own);
            b.add(&own);
            c.insert_any(bor);
            d.insert(bor);
        }
        let va = val::ser(&a);
        check(same(&va, &val::ser(&b)), 1);
        check(same(&va, &val::ser(&c)), 2);
        check(same(&va, &val::ser(&d)), 3);
        // and it is the effect of the hash by a fresh hasher: same as a pass-through sketch fed with that hash
        let mut e: $t<u64, PB> = match $t::new($p, PB) { Ok(s) => s, Err(_) => sym::bail(940) };
        e.insert(&hash_of(key, &pre));
        e.insert(&hash_of(key, &own));
        check(hash_of(key, &own) == hash_of(key, bor), 9);
        let ve = val::ser(&e);
        for f in ["tmpset", "sparse", "registers"] {
            if ve.has(f) { check(same(va.get(f), ve.get(f)), 4); }
        }
        if ve.has("sparse") { check(a.count() == e.count(), 5); }
        sym::reach(1);
    }};
}
/// unsized values: a str of up to two characters
macro_rules! str_add {
    ($t:ident, $p:expr) => {{
        let key = sym::u64();
        let n = sym::conc(sym::upto(2)) as usize;
        let (x, y) = (ascii(n), ascii(1));
        let mk = || -> $t<str, KB> { match $t::new($p, KB { key }) { Ok(s) => s, Err(_) => sym::bail(940) } };
        let (mut a, mut b, mut c) = (mk(), mk(), mk());
        a.insert(&y[..]);
        b.insert(&y[..]);
        c.insert(&y[..]);
        #[allow(deprecated)]
        { a.insert(&x[..]); b.add(&x[..]); c.insert_any(&x[..]); }
        let va = val::ser(&a);
        check(same(&va, &val::ser(&b)), 1);
        check(same(&va, &val::ser(&c)), 2);
        let mut e: $t<u64, PB> = match $t::new($p, PB) { Ok(s) => s, Err(_) => sym::bail(940) };
        e.insert(&hash_of(key, &y[..]));
        e.insert(&hash_of(key, &x[..]));
        let ve = val::ser(&e);
        for f in ["tmpset", "sparse", "registers"] {
            if ve.has(f) { check(same(va.get(f), ve.get(f)), 4); }
        }
        sym::reach(1);
    }};
}
fn opt() -> Option<u32> { if sym::conc(sym::upto(1)) == 1 { Some(sym::u32()) } else { None } }
fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::new(); for _ in 0..n { v.push(sym::bits(8) as u8); } v }
fn ascii(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let b = sym::bits(7) as u8; s.push(b as char); }
    s
}
pub fn h_entry_plus() {
    let p = param(0) as u8;
    match param(1) {
        0 => { let x = sym::u64(); let y = sym::u64(); four!(HyperLogLogPlus, u64, p, 0, x, &x, y, 64, 6) }
        1 => { let x = bytes(3); let y = bytes(1); let z = x.clone(); four!(HyperLogLogPlus, Vec<u8>, p, 0, x, &z[..], y, 64, 6) }
        2 => { let x = ascii(2); let y = ascii(1); let z = x.clone(); four!(HyperLogLogPlus, String, p, 0, x, z.as_str(), y, 64, 6) }
        // values without a size or with none of their own
        4 => { let x = bytes(0); let y = bytes(1); let z = x.clone(); four!(HyperLogLogPlus, Vec<u8>, p, 0, x, &z[..], y, 64, 6) }
        5 => { let x = ascii(0); let y = ascii(1); let z = x.clone(); four!(HyperLogLogPlus, String, p, 0, x, z.as_str(), y, 64, 6) }
        6 => four!(HyperLogLogPlus, (), p, 0, (), &(), (), 64, 6),
        7 => { let x = sym::bits(1) == 1; let y = sym::bits(1) == 1; four!(HyperLogLogPlus, bool, p, 0, x, &x, y, 64, 6) }
        8 => { let x = (sym::bits(8) as u8, sym::u64()); let y = (sym::bits(8) as u8, 0); four!(HyperLogLogPlus, (u8, u64), p, 0, x, &x, y, 64, 6) }
        9 => { let (x, y) = (opt(), opt()); four!(HyperLogLogPlus, Option<u32>, p, 0, x, &x, y, 64, 6) }
        10 => { let x = sym::bits(16) as u16; let y = sym::bits(16) as u16; four!(HyperLogLogPlus, u16, p, 0, x, &x, y, 64, 6) }
        11 => { let x = (sym::u64() as u128) << 64 | sym::u64() as u128; let y = x >> 64; four!(HyperLogLogPlus, u128, p, 0, x, &x, y, 64, 6) }
        12 => str_add!(HyperLogLogPlus, p),
        _ => { let x = Box::new(sym::u32()); let y = Box::new(sym::u32()); let z = *x; four!(HyperLogLogPlus, Box<u32>, p, 0, x, &z, y, 64, 6) }
    }
}
pub fn h_entry_pf() {
    let p = param(0) as u8;
    match param(1) {
        0 => { let x = sym::u64(); let y = sym::u64(); four!(HyperLogLogPF, u64, p, 0, x, &x, y, 32, 5) }
        1 => { let x = bytes(3); let y = bytes(1); let z = x.clone(); four!(HyperLogLogPF, Vec<u8>, p, 0, x, &z[..], y, 32, 5) }
        2 => { let x = ascii(2); let y = ascii(1); let z = x.clone(); four!(HyperLogLogPF, String, p, 0, x, z.as_str(), y, 32, 5) }
        // values without a size or with none of their own
        4 => { let x = bytes(0); let y = bytes(1); let z = x.clone(); four!(HyperLogLogPF, Vec<u8>, p, 0, x, &z[..], y, 32, 5) }
        5 => { let x = ascii(0); let y = ascii(1); let z = x.clone(); four!(HyperLogLogPF, String, p, 0, x, z.as_str(), y, 32, 5) }
        6 => four!(HyperLogLogPF, (), p, 0, (), &(), (), 32, 5),
        7 => { let x = sym::bits(1) == 1; let y = sym::bits(1) == 1; four!(HyperLogLogPF, bool, p, 0, x, &x, y, 32, 5) }
        8 => { let x = (sym::bits(8) as u8, sym::u64()); let y = (sym::bits(8) as u8, 0); four!(HyperLogLogPF, (u8, u64), p, 0, x, &x, y, 32, 5) }
        9 => { let (x, y) = (opt(), opt()); four!(HyperLogLogPF, Option<u32>, p, 0, x, &x, y, 32, 5) }
        10 => { let x = sym::bits(16) as u16; let y = sym::bits(16) as u16; four!(HyperLogLogPF, u16, p, 0, x, &x, y, 32, 5) }
        11 => { let x = (sym::u64() as u128) << 64 | sym::u64() as u128; let y = x >> 64; four!(HyperLogLogPF, u128, p, 0, x, &x, y, 32, 5) }
        12 => str_add!(HyperLogLogPF, p),
        _ => { let x = Box::new(sym::u32()); let y = Box::new(sym::u32()); let z = *x; four!(HyperLogLogPF, Box<u32>, p, 0, x, &z, y, 32, 5) }
    }
}
/// dense Plus sketches
pub fn h_entry_dense() {
    let p = param(0) as u8;
    let key = sym::u64();
    let mut t = crate::sk::pl_state(p, &zero_regs(p));
    *t.get_mut("builder") = val::ser(&KB { key });
    let mk = || -> HyperLogLogPlus<u64, KB> { val::de(&t) };
    let (mut a, mut b, mut c) = (mk(), mk(), mk());
    let (x, y) = (sym::u64(), sym::u64());
    a.insert(&x);
    b.insert(&x);
    c.insert(&x);
    a.insert(&y);
    #[allow(deprecated)]
    b.add(&y);
    c.insert_any(&y);
    let mut regs = zero_regs(p);
    for v in [x, y] { let (i, r) = place(hash_of(key, &v), 64, p); upd(&mut regs, i, r); }
    let want = crate::sk::pl_state(p, &regs);
    for s in [&a, &b, &c] { check(same(val::ser(s).get("registers"), want.get("registers")), 1); }
    sym::reach(1);
}
