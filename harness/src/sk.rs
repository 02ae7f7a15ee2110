//! Sketches under test, pass-through hashing, state injection and read-out, and the reference model.
use crate::sym;
use crate::tables;
use crate::val::{self, Val};
pub use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF, HyperLogLogPlus};
use std::hash::{BuildHasher, Hasher};

/// the hash of a `u64` value is the value itself
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct PB;
pub struct PH(u64);
impl Hasher for PH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, i: u64) { self.0 = i; }
}
impl BuildHasher for PB {
    type Hasher = PH;
    fn build_hasher(&self) -> PH { PH(0) }
}
/// another builder type, to merge sketches of different type arguments
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct PB2;
impl BuildHasher for PB2 {
    type Hasher = PH;
    fn build_hasher(&self) -> PH { PH(0) }
}

pub type Pf = HyperLogLogPF<u64, PB>;
pub type Pl = HyperLogLogPlus<u64, PB>;
pub type Pf2 = HyperLogLogPF<u32, PB2>;
pub type Pl2 = HyperLogLogPlus<u32, PB2>;

pub fn pf(p: u8) -> Pf { match HyperLogLogPF::new(p, PB) { Ok(s) => s, Err(_) => sym::bail(910) } }
pub fn pl(p: u8) -> Pl { match HyperLogLogPlus::new(p, PB) { Ok(s) => s, Err(_) => sym::bail(911) } }
pub fn pf2(p: u8) -> Pf2 { match HyperLogLogPF::new(p, PB2) { Ok(s) => s, Err(_) => sym::bail(910) } }
pub fn pl2(p: u8) -> Pl2 { match HyperLogLogPlus::new(p, PB2) { Ok(s) => s, Err(_) => sym::bail(911) } }

pub fn params_p() -> u8 { sym::param(0) as u8 }

// ---------------------------------------------------------------- reference model
pub fn m_of(p: u8) -> usize { 1usize << p }
/// register index and rank of a hash for `bits`-wide hashing
pub fn place(h: u64, bits: u32, p: u8) -> (u64, u64) {
    let p = p as u32;
    let h = if bits == 32 { h & 0xffff_ffff } else { h };
    let rest_bits = bits - p;
    let idx = h >> rest_bits;
    let rest = h & ((1u64 << rest_bits) - 1);
    // rank: position of the first one bit among rest_bits bits, rest_bits + 1 if there is none
    let rank = 1 + rest.leading_zeros() - (64 - rest_bits);
    (idx, rank as u64)
}
/// the identity of a hash in the sparse phase: 25-bit index, and the rank of the remaining 39 bits when
/// the index bits beyond the first p are all zero
pub fn sparse_key(h: u64, p: u8) -> u64 {
    let idx = h >> 39;
    let low = idx & ((1u64 << (25 - p as u32)) - 1);
    let rest = h & ((1u64 << 39) - 1);
    let rank = 1 + rest.leading_zeros() - 25;
    if low == 0 { idx << 8 | rank as u64 } else { idx << 8 }
}
/// the 32-bit code of a hash (HLL++ EncodeHash): used only for sizes
pub fn code32(h: u64, p: u8) -> u64 {
    let k = sparse_key(h, p);
    if k & 0xff != 0 { (k >> 8) << 7 | (k & 0x3f) << 1 | 1 } else { (k >> 8) << 1 }
}
pub fn pow2m(r: u64) -> f64 { 1.0 / (1u64 << r) as f64 }
pub fn alpha(m: usize) -> f64 {
    if m == 16 { 0.673 } else if m == 32 { 0.697 } else if m == 64 { 0.709 } else { 0.7213 / (1.0 + 1.079 / m as f64) }
}
pub fn raw_estimate(regs: &[u64]) -> f64 {
    let m = regs.len();
    let mut s = 0.0;
    let mut i = 0;
    while i < m { s += pow2m(regs[i]); i += 1; }
    alpha(m) * (m * m) as f64 / s
}
pub fn zeros(regs: &[u64]) -> u64 {
    let mut z = 0u64;
    let mut i = 0;
    while i < regs.len() { z += (regs[i] == 0) as u64; i += 1; }
    z
}
/// registers and the tally of those that are zero
#[derive(Clone)]
pub struct Regs { pub v: Vec<u64>, pub z: u64 }
impl std::ops::Deref for Regs { type Target = [u64]; fn deref(&self) -> &[u64] { &self.v } }
pub fn zero_regs(p: u8) -> Regs { Regs { v: vec![0u64; m_of(p)], z: m_of(p) as u64 } }
pub fn lin_count(m: usize, v: u64) -> f64 { m as f64 * (m as f64 / v as f64).ln() }
pub const THRESHOLDS: [f64; 15] = [10., 20., 40., 80., 220., 400., 900., 1800., 3100., 6500., 11500., 20000., 50000., 120000., 350000.];
pub fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
pub fn near(a: f64, b: f64, tol: f64) -> bool { let d = a - b; let t = tol + abs(b) * tol; (d <= t) & (-d <= t) }

// ---------------------------------------------------------------- packed registers
pub fn pack(regs: &[u64], size: usize) -> Vec<u64> {
    let per = 32 / size;
    let n = (regs.len() + per - 1) / per;
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let mut w = 0u32;
        let mut j = 0;
        while j < per {
            let k = i * per + j;
            if k < regs.len() { w |= (regs[k] as u32) << (j * size); }
            j += 1;
        }
        v.push(w as u64);
        i += 1;
    }
    v
}
pub fn unpack(words: &[u64], m: usize, size: usize) -> Vec<u64> {
    let per = 32 / size;
    if words.len() != (m + per - 1) / per { sym::bail(920) }
    let mask = (1u64 << size) - 1;
    let mut v = Vec::with_capacity(m);
    let mut i = 0;
    while i < m { v.push((words[i / per] >> ((i % per) * size)) & mask); i += 1; }
    v
}
pub fn set(v: &mut Val, k: &str, x: Val) { *v.get_mut(k) = x; }

/// state of a PF sketch whose registers are `regs`
pub fn pf_state(p: u8, regs: &Regs) -> Val {
    let mut t = val::ser(&pf(p));
    let r = t.get_mut("registers");
    set(r, "buf", Val::Nums(pack(regs, 5)));
    if r.has("zeros") { set(r, "zeros", Val::U(regs.z)); }
    t
}
pub fn pf_from(p: u8, regs: &Regs) -> Pf { val::de(&pf_state(p, regs)) }
pub fn pf_regs(s: &Pf, p: u8) -> Vec<u64> { unpack(val::ser(s).get("registers").get("buf").nums(), m_of(p), 5) }

/// state of a dense Plus sketch whose registers are `regs`
pub fn pl_state(p: u8, regs: &Regs) -> Val { pl_state_words(p, pack(regs, 6), regs.z) }
pub fn pl_state_words(p: u8, words: Vec<u64>, zeros: u64) -> Val {
    let mut t = val::ser(&pl(p));
    // the layout of the register block is that of the PF sketch
    let mut r = val::ser(&pf(4)).get("registers").clone();
    set(&mut r, "buf", Val::Nums(words));
    if r.has("zeros") { set(&mut r, "zeros", Val::U(zeros)); }
    if r.has("count") { set(&mut r, "count", Val::U(m_of(p) as u64)); }
    set(&mut t, "registers", Val::Some(Box::new(r)));
    t
}
pub fn pl_from(p: u8, regs: &Regs) -> Pl { val::de(&pl_state(p, regs)) }
pub fn pl2_from(p: u8, regs: &Regs) -> Pl2 { val::de(&pl_state(p, regs)) }
pub fn is_dense(v: &Val) -> bool { !v.get("registers").is_none() }
pub fn pl_regs_of(v: &Val, p: u8) -> Vec<u64> { unpack(v.get("registers").get("buf").nums(), m_of(p), 6) }
pub fn pl_regs(s: &Pl, p: u8) -> Vec<u64> { pl_regs_of(&val::ser(s), p) }
pub fn zeros_ok(v: &Val, regs: &Regs) -> bool {
    let r = v.get("registers");
    if r.has("zeros") { r.get("zeros").num() == regs.z } else { true }
}

// ---------------------------------------------------------------- symbolic registers
pub fn max_rank(bits: u32, p: u8) -> u64 { (bits - p as u32 + 1) as u64 }
/// m arbitrary registers, each 0..=max rank
pub fn arb_regs(p: u8, bits: u32) -> Regs { let v = arb_n(m_of(p), p, bits); let z = zeros(&v); Regs { v, z } }
pub fn arb_n(n: usize, p: u8, bits: u32) -> Vec<u64> {
    let size = if bits == 32 { 5 } else { 6 };
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let r = sym::bits(size);
        sym::assume(r <= max_rank(bits, p));
        v.push(r);
        i += 1;
    }
    v
}
/// m registers made of `k` arbitrary values repeated
pub fn cyc_regs(p: u8, bits: u32, k: usize) -> Regs {
    let f = arb_n(k, p, bits);
    let m = m_of(p);
    let mut v = Vec::with_capacity(m);
    let mut i = 0;
    while i < m { v.push(f[i % k]); i += 1; }
    let mut z = 0u64;
    for i in 0..k { z += (f[i] == 0) as u64 * ((m - i + k - 1) / k) as u64; }
    Regs { v, z }
}
/// all registers arbitrary for small p, otherwise one word's worth of arbitrary registers repeated
pub fn some_regs(p: u8, bits: u32, full_upto: u8) -> Regs {
    if p <= full_upto { arb_regs(p, bits) } else { cyc_regs(p, bits, if bits == 32 { 6 } else { 5 }) }
}
pub fn upd(regs: &mut Regs, idx: u64, rank: u64) {
    let mut i = 0;
    let mut was_zero = false;
    while i < regs.v.len() {
        let old = regs.v[i];
        let here = i as u64 == idx;
        was_zero |= here & (old == 0);
        regs.v[i] = if here & (rank > old) { rank } else { old };
        i += 1;
    }
    regs.z = regs.z.wrapping_sub((was_zero & (rank > 0)) as u64);
}
pub fn max_regs(a: &Regs, b: &Regs) -> Regs {
    let mut v = Vec::with_capacity(a.len());
    let mut z = a.z;
    let mut i = 0;
    while i < a.len() {
        let (x, y) = (a[i], b[i]);
        v.push(if x < y { y } else { x });
        z = z.wrapping_sub(((x == 0) & (y > 0)) as u64);
        i += 1;
    }
    Regs { v, z }
}
pub fn eq_regs(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() { ok &= a[i] == b[i]; i += 1; }
    ok
}
/// number of distinct sparse keys among `h`
pub fn distinct(h: &[u64], p: u8) -> u64 {
    let mut n = 0u64;
    let mut i = 0;
    while i < h.len() {
        let mut new = true;
        let mut j = 0;
        while j < i { new &= sparse_key(h[i], p) != sparse_key(h[j], p); j += 1; }
        n += new as u64;
        i += 1;
    }
    n
}
/// dense registers of the hashes
pub fn regs_of(h: &[u64], p: u8) -> Regs {
    let mut v = zero_regs(p);
    for x in h { let (i, r) = place(*x, 64, p); upd(&mut v, i, r); }
    v
}
/// a hash whose sparse code is the i-th smallest of a dense run of distinct ones
pub fn filler(i: u64) -> u64 { (i + 1) << 39 | 1 << 38 }
/// the estimate of a sparse sketch of precision p that holds n distinct codes
pub fn sparse_estimate(p: u8, n: u64) -> f64 {
    let mut s = pl(p);
    let mut i = 0;
    while i < n { s.insert(&filler(i)); i += 1; }
    s.count()
}
pub fn raw_table(p: u8) -> &'static [f64] { tables::RAW[p as usize - 4] }
pub fn bias_table(p: u8) -> &'static [f64] { tables::BIAS[p as usize - 4] }
/// published bias at raw estimate e
pub fn bias_at(p: u8, e: f64) -> f64 {
    let (r, b) = (raw_table(p), bias_table(p));
    let n = r.len();
    if e <= r[0] { return b[0]; }
    if e >= r[n - 1] { return b[n - 1]; }
    // greatest i with r[i] <= e, by bisection
    let (mut lo, mut hi) = (0, n - 1);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if r[mid] <= e { lo = mid } else { hi = mid }
    }
    b[lo] + (e - r[lo]) * ((b[hi] - b[lo]) / (r[hi] - r[lo]))
}
