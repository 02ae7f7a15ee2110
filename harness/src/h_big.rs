//! Sketches holding many concrete values (of a fixed pseudo-random stream) and a few arbitrary ones near them, so that
//! long histories - flushes, near-budget states, switches - are reached at every precision.
use crate::h_fp::lc24;
use crate::sk::*;
use crate::sym::{self, check, note, param};
use crate::val::{self, same, Val};

/// i-th value of stream `seed`; every fifth has the index bits beyond the first p all zero, some of these a high rank
pub fn stream(p: u8, seed: u64, i: u64) -> u64 {
    let mut z = (seed << 40 | i).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 31;
    if i % 5 == 4 {
        z &= !(((1u64 << (25 - p as u32)) - 1) << 39);
        if i % 3 == 0 { z &= !0u64 << 39 | (1u64 << (i % 39)) - 1; }
    }
    z
}
/// any hash whose 25-bit index is within `w` (a power of two) below or above that of `near` (which must be divisible by 2w),
/// with arbitrary lower bits; on separate paths those below and above it, and, at the same index, those of equal, greater
/// and smaller rank
pub fn window(near: u64, w: u64) -> u64 {
    let i = near >> 39;
    if i % (2 * w) != 0 { sym::bail(930) }
    // zeros in front of the lower 39 bits
    let z = (near << 25).leading_zeros().min(39);
    let side = sym::conc(sym::upto(4));
    if side == 3 && i > 0 { return (i - w | sym::bits(w.trailing_zeros())) << 39 | sym::bits(39); }
    if side == 4 { return (i | sym::range(1, w - 1)) << 39 | sym::bits(39); }
    let rest = if side == 1 && z < 39 { sym::bits(38 - z) }
        else if side == 2 && z > 0 { sym::range(1 << (39 - z), (1 << 39) - 1) }
        else if z < 39 { 1 << (38 - z) | sym::bits(38 - z) } else { 0 };
    i << 39 | rest
}
/// concrete and arbitrary values put into a sketch
pub struct Hist { pub c: Vec<u64>, pub s: Vec<u64>, pub p: u8 }
impl Hist {
    pub fn new(p: u8) -> Hist { Hist { c: Vec::new(), s: Vec::new(), p } }
    pub fn keys(&self) -> Vec<u64> {
        let mut k: Vec<u64> = self.c.iter().map(|h| sparse_key(*h, self.p)).collect();
        k.sort_unstable();
        k.dedup();
        k
    }
    /// number of distinct sparse keys
    pub fn distinct(&self) -> u64 {
        let k = self.keys();
        let mut n = k.len() as u64;
        for i in 0..self.s.len() {
            let x = sparse_key(self.s[i], self.p);
            let mut dup = false;
            for y in k.iter() { dup |= x == *y; }
            for j in 0..i { dup |= x == sparse_key(self.s[j], self.p); }
            n += !dup as u64;
        }
        n
    }
    /// dense registers of all values on top of `base`
    pub fn regs(&self, base: &Regs) -> Regs {
        let mut r = base.clone();
        for h in self.c.iter() {
            let (i, k) = place(*h, 64, self.p);
            let i = i as usize;
            if r.v[i] < k { if r.v[i] == 0 { r.z -= 1; } r.v[i] = k; }
        }
        for h in self.s.iter() { let (i, k) = place(*h, 64, self.p); upd(&mut r, i, k); }
        r
    }
    /// size of the difference encoding of the distinct codes (at most one arbitrary value)
    pub fn size(&self) -> u64 {
        let mut k: Vec<u64> = self.c.iter().map(|h| code32(*h, self.p)).collect();
        k.sort_unstable();
        k.dedup();
        let (mut total, mut prev) = (0u64, 0u64);
        if self.s.is_empty() {
            for c in k.iter() { total += vlen(*c - prev); prev = *c; }
            return total;
        }
        let x = code32(self.s[0], self.p);
        let mut placed = false;
        for c in k.iter() {
            let c = *c;
            let here = !placed & (x <= c);
            let eq = x == c;
            total += if here & !eq { vlen(x.wrapping_sub(prev)) + vlen(c.wrapping_sub(x)) } else { vlen(c - prev) };
            placed |= here;
            prev = c;
        }
        total + if placed { 0 } else { vlen(x.wrapping_sub(prev)) }
    }
}
pub fn vlen(g: u64) -> u64 { 1 + (g >= 1 << 7) as u64 + (g >= 1 << 14) as u64 + (g >= 1 << 21) as u64 + (g >= 1 << 28) as u64 }
/// the dense registers' bytes, of the words holding them (hi) and of the words completely filled by them (lo)
pub fn budget(p: u8) -> u64 { 4 * ((m_of(p) as u64 + 4) / 5) }
pub fn budget_lo(p: u8) -> u64 { 4 * m_of(p) as u64 / 5 }

/// concrete registers of all sizes but for one word of arbitrary ones
pub fn mix_regs(p: u8, seed: u64) -> Regs {
    let m = m_of(p);
    let mut r = zero_regs(p);
    for i in 0..m { let x = stream(25 - 8, seed, i as u64 + 1000); r.v[i] = if x & 1 == 0 { 0 } else { 1 + (x >> 8) % 3 + if x >> 32 & 63 == 0 { (x >> 40) % (60 - p as u64) } else { 0 } }; }
    let at = m / 2 / 5 * 5;
    let arb = arb_n(5, p, 64);
    for k in 0..5 { r.v[at + k] = arb[k]; }
    r.z = 0;
    for i in 0..m { r.z += (r.v[i] == 0) as u64; }
    r
}
pub fn feed(s: &mut Pl, h: &mut Hist, seed: u64, from: u64, to: u64) {
    for i in from..to { let x = stream(h.p, seed, i); s.insert(&x); h.c.push(x); }
}
pub fn feed2(s: &mut Pl2, h: &mut Hist, seed: u64, from: u64, to: u64) {
    for i in from..to { let x = stream(h.p, seed, i); s.insert_any(&x); h.c.push(x); }
}
/// the sketch holds exactly the values of h (and, dense, the registers of base)
pub fn holds(s: &mut Pl, h: &Hist, base: &Regs, id: u32) {
    let mut v = val::ser(s);
    let mut c = 0.0;
    if !is_dense(&v) { c = s.count(); v = val::ser(s); }
    if is_dense(&v) {
        check(same(v.get("registers"), pl_state(h.p, &h.regs(base)).get("registers")), id);
        sym::reach(2);
    } else {
        let n = sym::conc(h.distinct());
        check(near(c, lc24(n), 1e-10), id + 1);
        note(1, n);
        sym::reach(3);
    }
}
fn sizes_ok(v: &Val, p: u8, id: u32) {
    if !is_dense(v) {
        check(v.get("sparse").get("buf").nums().len() as u64 <= budget(p), id);
        check(v.get("tmpset").nums().len() as u64 * 100 <= budget(p), id + 1);
    }
}

/// params: p, n0 concrete, k arbitrary, n1 concrete, span, mode (0 the sketch itself, 1 made dense by a merge)
pub fn h_big() {
    let p = params_p();
    let (n0, k, n1, span, mode) = (param(1), param(2), param(3), param(4), param(5));
    let mut s = pl(p);
    let mut h = Hist::new(p);
    feed(&mut s, &mut h, 1, 0, n0);
    for i in 0..k { let x = window(stream(p, 1, (n0 + n1) * (i + 1) / 3 / 5 * 5 + 4), span); s.insert(&x); h.s.push(x); }
    feed(&mut s, &mut h, 1, n0, n0 + n1);
    let zero = zero_regs(p);
    if mode == 1 { check(s.merge(&pl2_from(p, &zero)).is_ok(), 1); check(is_dense(&val::ser(&s)), 2); }
    holds(&mut s, &h, &zero, 3);
    sym::reach(1);
}
/// hashes so close together that their codes take a byte each, around the border of two registers
/// params: p, n0 concrete, n1 concrete after an arbitrary one, mode (0 the sketch itself, 1 made dense by a merge)
pub fn h_big_near() {
    let p = params_p();
    let (n0, n1, mode) = (param(1), param(2), param(3));
    let n = n0 + n1;
    let step = 60u64;
    let base = (1u64 << 24) - n * step * 3 / 4 / 16 * 16;
    let near = |i: u64| (base + i * step) << 39 | 1 << (i % 39);
    let mut s = pl(p);
    let mut h = Hist::new(p);
    let zero = zero_regs(p);
    for i in 0..n {
        if i == n0 { let x = window(3u64 << 62 | 1 << 20, 8); s.insert(&x); h.s.push(x); }
        // not in order
        let x = near(i * 7 % n);
        s.insert(&x);
        h.c.push(x);
    }
    if mode == 1 { check(s.merge(&pl2_from(p, &zero)).is_ok(), 1); check(is_dense(&val::ser(&s)), 2); }
    let v = val::ser(&s);
    sizes_ok(&v, p, 8);
    holds(&mut s, &h, &zero, 3);
    sym::reach(1);
}
/// sizes and the moment of the switch: params p, n0, n1, span: one arbitrary value in between, sizes checked from then on
pub fn h_big_budget() {
    let p = params_p();
    let (n0, n1, span) = (param(1), param(2), param(3));
    let mut s = pl(p);
    let mut h = Hist::new(p);
    feed(&mut s, &mut h, 2, 0, n0);
    let was = is_dense(&val::ser(&s));
    let mut dense = was;
    for i in n0..n0 + n1 {
        if i == n0 { let x = window(stream(p, 2, n0 / 10 * 5 + 4), span); s.insert(&x); h.s.push(x); } else { feed(&mut s, &mut h, 2, i, i + 1); }
        let v = val::ser(&s);
        let d = is_dense(&v);
        check(d | !dense, 1);
        sizes_ok(&v, p, 2);
        if d && !dense {
            check(h.size() > budget_lo(p), 4);
            check(v.get("tmpset").nums().len() == 0 && v.get("sparse").get("buf").nums().len() == 0, 5);
            sym::reach(2);
        }
        dense = d;
    }
    // count flushes: what remains sparse then fits
    s.count();
    let v = val::ser(&s);
    sizes_ok(&v, p, 6);
    if !is_dense(&v) { check(h.size() <= budget(p), 8); check(v.get("tmpset").nums().is_empty(), 9); }
    else if !dense { check(h.size() > budget_lo(p), 10); }
    sym::reach(1);
}
/// params p, pair (bit 0 self dense, bit 1 other dense), na, nb, tail (values inserted after a flush), span, flags
/// (bit 0: one arbitrary value in self, bit 1: in other,
/// bit 2: insert and merge again, bit 3: nothing else in self, bits 4 and 5: nothing unflushed in self, in other)
pub fn h_big_merge() {
    let p = params_p();
    let (pair, na, nb, tail, span, fl) = (param(1), param(2), param(3), param(4), param(5), param(6));
    let (sd, od) = (pair & 1 == 1, pair & 2 == 2);
    let zero = zero_regs(p);
    let ra = if sd { mix_regs(p, 1) } else { zero.clone() };
    let rb = if od { mix_regs(p, 2) } else { zero.clone() };
    let mut a = if sd { pl_from(p, &ra) } else { pl(p) };
    let mut b = if od { pl2_from(p, &rb) } else { pl2(p) };
    let mut h = Hist::new(p);
    let mut hb = Hist::new(p);
    // bit 3: nothing in self but the arbitrary value, bits 4 and 5: nothing unflushed in self, in other
    if fl & 8 == 0 { feed(&mut a, &mut h, 3, 0, na); }
    if fl & 1 == 1 { let x = window(stream(p, 3, 4), span); a.insert(&x); h.s.push(x); }
    if !sd { a.count(); }
    if fl & 24 == 0 { feed(&mut a, &mut h, 3, na, na + tail); }
    // half of the other's values are common
    feed2(&mut b, &mut hb, 3, na / 2, na / 2 + nb / 2);
    feed2(&mut b, &mut hb, 4, 0, nb - nb / 2);
    if fl & 2 == 2 { let x = window(stream(p, 3, na / 10 * 5 + 4), span); b.insert_any(&x); hb.s.push(x); }
    if !od { b.count(); }
    if fl & 32 == 0 { feed2(&mut b, &mut hb, 4, nb, nb + tail); }
    let before = val::ser(&b);
    check(a.merge(&b).is_ok(), 1);
    check(same(&before, &val::ser(&b)), 2);
    sizes_ok(&val::ser(&a), p, 3);
    for x in hb.c.iter() { h.c.push(*x); }
    for x in hb.s.iter() { h.s.push(*x); }
    let base = max_regs(&ra, &rb);
    if sd || od { check(is_dense(&val::ser(&a)), 5); }
    if fl & 4 == 4 {
        feed(&mut a, &mut h, 5, 0, 3);
        check(a.merge(&b).is_ok(), 6);
    }
    holds(&mut a, &h, &base, 7);
    sym::reach(1);
}
/// the same values in another order, repeated, with estimates in between: params p, n0, k, span
pub fn h_big_order() {
    let p = params_p();
    let (n0, k, span) = (param(1), param(2), param(3));
    let (mut a, mut b) = (pl(p), pl(p));
    let mut h = Hist::new(p);
    feed(&mut a, &mut h, 6, 0, n0 - n0 / 4);
    for i in 0..k { let x = window(stream(p, 6, i * 5 + 4), span); a.insert(&x); h.s.push(x); }
    feed(&mut a, &mut h, 6, n0 - n0 / 4, n0);
    for i in 0..n0 / 2 { b.insert(&h.c[(n0 - 1 - i) as usize]); }
    for i in (0..h.s.len()).rev() { b.insert(&h.s[i]); }
    b.count();
    for i in 0..n0 - n0 / 2 { b.insert(&h.c[i as usize]); }
    for i in 0..h.s.len() { b.insert(&h.s[i]); }
    for i in 0..n0.min(20) { b.insert(&h.c[(i * 7 % n0) as usize]); }
    let (x, y) = (a.count(), b.count());
    let (va, vb) = (val::ser(&a), val::ser(&b));
    check(is_dense(&va) == is_dense(&vb), 1);
    check(x == y || near(x, y, 1e-10), 2);
    if is_dense(&va) { check(same(va.get("registers"), vb.get("registers")), 3); sym::reach(2); }
    holds(&mut a, &h, &zero_regs(p), 4);
    sym::reach(1);
}
/// an observation, a copy or a round trip in the middle changes nothing: params p, n0, n1, span, what
/// (0 nothing but estimates, 1 clone, 2.. round trip in encoding what - 2)
pub fn h_big_mid() {
    let p = params_p();
    let (n0, n1, span, what) = (param(1), param(2), param(3), param(4));
    let mut a = pl(p);
    let mut h = Hist::new(p);
    feed(&mut a, &mut h, 7, 0, n0);
    let x = window(stream(p, 7, 4), span);
    a.insert(&x);
    h.s.push(x);
    let v = val::ser(&a);
    let mut b: Pl = match what {
        0 => { let c = a.count(); check(a.count() == c, 1); val::de(&v) }
        1 => a.clone(),
        w => match val::try_de(&v, match w { 2 => val::How::Map, 3 => val::How::Reversed, _ => val::How::Seq }) { Some(b) => b, None => { check(false, 2); return } },
    };
    if what != 0 { check(same(&v, &val::ser(&b)), 3); }
    // one of them moves on; the other must not move
    let mut h2 = Hist { c: h.c.clone(), s: h.s.clone(), p };
    feed(&mut a, &mut h, 7, n0, n0 + n1);
    if what == 0 { a.count(); }
    check(same(&v, &val::ser(&b)), 4);
    let zero = zero_regs(p);
    // and behaves like a sketch that was never touched
    feed(&mut b, &mut h2, 8, 0, n1);
    holds(&mut b, &h2, &zero, 5);
    holds(&mut a, &h, &zero, 7);
    let c = pl2(p);
    check(a.merge(&c).is_ok(), 9);
    let mut d: Pl2 = pl2(p);
    check(d.merge(&a).is_ok() && d.merge(&b).is_ok(), 10);
    check(b.merge(&a).is_ok(), 11);
    for x in h.c.iter() { h2.c.push(*x); }
    holds(&mut b, &h2, &zero, 12);
    let (x, y) = (d.count(), b.count());
    check(x == y || near(x, y, 1e-10), 14);
    sym::reach(1);
}
/// one insert at any precision: index within 32 of the place asked for (param 1 of 8 eighths), any lower bits, registers cyclic
pub fn h_pf_win() {
    let p = params_p();
    let mut regs = cyc_regs(p, 32, 6);
    let mut s = pf_from(p, &regs);
    let h = idx_window(p, 32, param(1)) | sym::bits(32 - p as u32);
    let h = h | (sym::u32() as u64) << 32;
    s.insert(&h);
    let (i, r) = place(h, 32, p);
    upd(&mut regs, i, r);
    check(same(&val::ser(&s), &pf_state(p, &regs)), 1);
    sym::reach(1);
}
pub fn h_plus_win() {
    let p = params_p();
    let mut regs = cyc_regs(p, 64, 5);
    let mut s = pl_from(p, &regs);
    let h = idx_window(p, 64, param(1)) | sym::bits(64 - p as u32);
    s.insert(&h);
    let (i, r) = place(h, 64, p);
    upd(&mut regs, i, r);
    check(same(&val::ser(&s), &pl_state(p, &regs)), 1);
    sym::reach(1);
}
fn idx_window(p: u8, bits: u32, eighth: u64) -> u64 {
    let m = m_of(p) as u64;
    let span = if m < 32 { m } else { 32 };
    let lo = (m - span) * eighth / 8;
    (lo + sym::upto(span - 1)) << (bits - p as u32)
}
/// dense with dense, any registers (cyclic) on both sides
pub fn h_merge_dense() {
    let p = params_p();
    let (ra, rb) = (some_regs(p, 64, 5), some_regs(p, 64, 5));
    let mut a = pl_from(p, &ra);
    let b = pl2_from(p, &rb);
    check(a.merge(&b).is_ok(), 1);
    check(same(&val::ser(&a), &pl_state(p, &max_regs(&ra, &rb))), 2);
    check(same(&val::ser(&b), &pl_state(p, &rb)), 3);
    sym::reach(1);
}
/// n strictly increasing 32-bit codes with arbitrary gaps, stored and read back; `n0` concrete ones of a stream before them
pub fn h_store_gap() {
    let p = params_p();
    let n = param(1);
    let mut v = val::ser(&pl(p));
    let mut codes: Vec<u64> = Vec::new();
    let mut last = 0u64;
    for i in 0..n {
        let g = sym::u32() as u64;
        if i > 0 { sym::assume(g > 0); }
        last += g;
        sym::assume(last < 1 << 32);
        codes.push(last);
    }
    *v.get_mut("tmpset") = Val::Nums(codes.clone());
    let mut s: Pl = val::de(&v);
    s.count();
    let got = match crate::h_int::read_back(p, &s) { Some(g) => g, None => return };
    check(got.len() == codes.len(), 2);
    for i in 0..got.len() { check(got[i] == codes[i], 3); }
    sym::reach(1);
}
