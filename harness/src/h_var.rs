//! The build configurations against the default build: hll_const is the crate with const-loop, hll_nostd the crate
//! without std.  All of them are given the same states and the same hashes.
use crate::h_fp::{mixed, split_regs, TWO32};
use crate::sk::*;
use crate::sym::{self, check, notef, param};
use crate::val::{self, same, Val};
use hll_const::HyperLogLog as HC;
use hll_nostd::HyperLogLog as HN;

type PfC = hll_const::HyperLogLogPF<u64, PB>;
type PlC = hll_const::HyperLogLogPlus<u64, PB>;
type PfN = hll_nostd::HyperLogLogPF<u64, PB>;
type PfN2 = hll_nostd::HyperLogLogPF<u32, PB2>;

fn regs_for(p: u8, bits: u32, kind: u64) -> Regs {
    match kind {
        0 => arb_regs(p, bits),
        1 => cyc_regs(p, bits, if bits == 32 { 6 } else { 5 }),
        2 => split_regs(p, bits),
        // one arbitrary register among ones of rank 3, none zero
        3 => mixed(p, bits, 0, m_of(p), 3, 1, 1),
        // one arbitrary register among high ones
        4 => mixed(p, bits, 0, m_of(p), max_rank(bits, p) - 1, 1, 1),
        // one arbitrary register among zeros and ones
        _ => mixed(p, bits, m_of(p) / 3, m_of(p), 1, 1, 0),
    }
}
// ---- C18
pub fn h_const_pf() {
    let p = params_p();
    let regs = regs_for(p, 32, param(1));
    let st = pf_state(p, &regs);
    let mut a: Pf = val::de(&st);
    let mut b: PfC = val::de(&st);
    let (x, y) = (a.count(), HC::count(&mut b));
    notef(1, x);
    check(x == y || near(x, y, 1e-9), 1);
    check(same(&val::ser(&a), &val::ser(&b)), 2);
    sym::reach(1);
}
pub fn h_const_plus() {
    let p = params_p();
    let regs = regs_for(p, 64, param(1));
    let st = pl_state(p, &regs);
    let mut a: Pl = val::de(&st);
    let mut b: PlC = val::de(&st);
    let (x, y) = (a.count(), HC::count(&mut b));
    notef(1, x);
    check(x == y || near(x, y, 1e-9), 1);
    check(same(&val::ser(&a), &val::ser(&b)), 2);
    sym::reach(1);
}
/// streams of arbitrary hashes: param 1 inserts, an estimate, a merge with a sketch of one more
pub fn h_const_stream() {
    let p = params_p();
    let n = param(1);
    let (mut a, mut a2) = (pl(p), pl2(p));
    let mut b: PlC = match hll_const::HyperLogLogPlus::new(p, PB) { Ok(s) => s, Err(_) => { check(false, 9); return } };
    let mut b2: hll_const::HyperLogLogPlus<u32, PB2> = match hll_const::HyperLogLogPlus::new(p, PB2) { Ok(s) => s, Err(_) => { check(false, 9); return } };
    let (mut f, mut g) = (pf(p), match hll_const::HyperLogLogPF::<u64, PB>::new(p, PB) { Ok(s) => s, Err(_) => { check(false, 9); return } });
    for _ in 0..n {
        let h = sym::u64();
        a.insert(&h);
        HC::insert(&mut b, &h);
        f.insert(&h);
        HC::insert(&mut g, &h);
    }
    check(same(&val::ser(&a), &val::ser(&b)), 1);
    check(same(&val::ser(&f), &val::ser(&g)), 2);
    check(a.count() == HC::count(&mut b), 3);
    let h = sym::u64();
    a2.insert_any(&h);
    b2.insert_any(&h);
    check(a.merge(&a2).is_ok() == b.merge(&b2).is_ok(), 4);
    check(same(&val::ser(&a), &val::ser(&b)), 5);
    let (x, y) = (a.count(), HC::count(&mut b));
    check(x == y || near(x, y, 1e-9), 6);
    sym::reach(1);
}

// ---- C19
/// the natural logarithm as FreeBSD's e_log.c computes it (the published algorithm, written from its description)
fn ref_log(x: f64) -> f64 {
    let b = x.to_bits();
    let mut hi = (b >> 32) as u32;
    if hi == 0x3ff0_0000 && b << 32 == 0 { return 0.0; }
    hi += 0x3ff0_0000 - 0x3fe6_a09e;
    let k = (hi >> 20) as i32 - 0x3ff;
    hi = (hi & 0x000f_ffff) + 0x3fe6_a09e;
    let y = f64::from_bits((hi as u64) << 32 | (b & 0xffff_ffff));
    let f = y - 1.0;
    let hfsq = 0.5 * f * f;
    let s = f / (2.0 + f);
    let z = s * s;
    let w = z * z;
    let t1 = w * (3.999999999940941908e-01 + w * (2.222219843214978396e-01 + w * 1.531383769920937332e-01));
    let t2 = z * (6.666666666666735130e-01 + w * (2.857142874366239149e-01 + w * (1.818357216161805012e-01 + w * 1.479819860511658591e-01)));
    let r = t2 + t1;
    let dk = k as f64;
    s * (hfsq + r) + dk * 1.90821492927058770002e-10 - hfsq + f + dk * 6.93147180369123816490e-01
}
fn pfn(p: u8) -> PfN { match hll_nostd::HyperLogLogPF::new(p, PB) { Ok(s) => s, Err(_) => sym::bail(912) } }
pub fn h_nostd_new() {
    let mut p = sym::bits(8) as u8;
    let good = (p >= 4) & (p <= 16);
    if good { p = sym::conc(p as u64) as u8; }
    match hll_nostd::HyperLogLogPF::<u64, PB>::new(p, PB) {
        Ok(mut s) => {
            check(good, 1);
            check(HN::count(&mut s) == 0.0, 2);
            check(same(&val::ser(&s), &val::ser(&pf(p))), 3);
        }
        Err(e) => {
            check(!good, 4);
            check(e == hll_nostd::HyperLogLogError::InvalidPrecision, 5);
        }
    }
    sym::reach(1);
}
/// one insert into, and a merge with, any state: as in the std build
pub fn h_nostd_step() {
    let p = params_p();
    let st = pf_state(p, &some_regs(p, 32, 5));
    let mut a: Pf = val::de(&st);
    let mut b: PfN = val::de(&st);
    let h = sym::u64();
    a.insert(&h);
    HN::insert(&mut b, &h);
    check(same(&val::ser(&a), &val::ser(&b)), 1);
    sym::reach(1);
}
pub fn h_nostd_merge() {
    let p = params_p();
    let q = param(1) as u8;
    let st = pf_state(p, &some_regs(p, 32, 4));
    let su = pf_state(q, &some_regs(q, 32, 4));
    let (mut a, c): (Pf, Pf2) = (val::de(&st), val::de(&su));
    let (mut b, d): (PfN, PfN2) = (val::de(&st), val::de(&su));
    let (x, y) = (a.merge(&c).is_ok(), b.merge(&d).is_ok());
    check(x == y, 1);
    check(same(&val::ser(&a), &val::ser(&b)), 2);
    check(same(&val::ser(&c), &val::ser(&d)), 3);
    sym::reach(1);
}
/// the estimate, on the published formula with the published logarithm
pub fn h_nostd_count() {
    let p = params_p();
    let kind = param(1);
    let regs = regs_for(p, 32, kind);
    let mut s: PfN = val::de(&pf_state(p, &regs));
    let c = HN::count(&mut s);
    notef(1, c);
    let m = m_of(p);
    let e = raw_estimate(&regs);
    let v = regs.z;
    let d = 1e-9;
    let small = 2.5 * m as f64;
    let large = TWO32 / 30.0;
    let lc = |v: u64| m as f64 * ref_log(m as f64 / v as f64);
    let lr = |e: f64| -TWO32 * ref_log(1.0 - e / TWO32);
    if v > 0 && e <= small * (1.0 - d) { let l = lc(v); check(c == l || near(c, l, 1e-8), 1); }
    else if v > 0 && e <= small * (1.0 + d) { check(true, 2); }
    else if e <= large * (1.0 - d) { check(near(c, e, 1e-9), 3); }
    else if e <= large * (1.0 + d) { check(true, 4); }
    else if e < TWO32 * (1.0 - 1e-6) { let l = lr(e); check(c == l || near(c, l, 1e-8), 5); sym::reach(2); }
    else { check(true, 6); }
    sym::reach(1);
}
/// linear counting for every number of zero registers, and the large range for every rank: against the std build
pub fn h_nostd_lc() {
    let p = params_p();
    let m = m_of(p);
    let (base, span) = (param(2), param(3));
    let v = (base + sym::conc(sym::upto(span.min(m as u64 - base)))) as usize;
    let rank = if param(1) == 0 { 1 } else { max_rank(32, p) };
    let regs = Regs { v: (0..m).map(|i| if i < v { 0 } else { rank }).collect(), z: v as u64 };
    let st = pf_state(p, &regs);
    let mut a: Pf = val::de(&st);
    let mut b: PfN = val::de(&st);
    let (x, y) = (a.count(), HN::count(&mut b));
    check(near(x, y, 1e-9), 1);
    sym::reach(1);
}
pub fn h_nostd_large() {
    let p = params_p();
    let top = max_rank(32, p);
    let m = m_of(p);
    let (r, n1) = (sym::conc(sym::upto(top - 1)) + 1, sym::conc(sym::upto(15)) as usize * m / 16);
    let regs = mixed(p, 32, 0, n1, r - 1 + (r == 1) as u64, 0, 0);
    let st = pf_state(p, &regs);
    let mut a: Pf = val::de(&st);
    let mut b: PfN = val::de(&st);
    let (x, y) = (a.count(), HN::count(&mut b));
    check(near(x, y, 1e-8), 1);
    sym::reach(1);
}
pub fn h_nostd_stream() {
    let p = params_p();
    let (mut a, mut b) = (pf(p), pfn(p));
    for _ in 0..2 {
        let h = sym::u64();
        a.insert(&h);
        HN::insert(&mut b, &h);
    }
    let v: u32 = sym::u32();
    a.insert_any(&v);
    b.insert_any(&v);
    let c: Val = val::ser(&b);
    check(same(&val::ser(&a), &c), 1);
    sym::reach(1);
}
